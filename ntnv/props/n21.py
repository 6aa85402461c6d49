"""N21: numerical precision.  TLC checks how precisions spread through the objects of a simulation and enumerates
configurations; the type of everything public is compared, and deterministic values are compared with the
specification at double accuracy."""
import numpy as np
from .. import common

TRACE = "Tr_N21"
MUTATE = ["d2@geo", "gas@geo", "ut@topo", "pos@array", "exp@corr", "h@cir", "zodoff@geo"]
PROPS = ("carrier_frequency", "lambda_0", "h_ut", "h_bs", "ut_loc", "bs_loc", "ut_orientations", "bs_orientations",
         "ut_velocities", "distance_2d", "distance_2d_in", "distance_2d_out", "distance_3d", "distance_3d_in",
         "distance_3d_out", "matrix_ut_distance_2d", "los_aod", "los_aoa", "los_zod", "los_zoa", "los_probability",
         "min_2d_in", "max_2d_in", "lsp_log_mean", "lsp_log_std", "zod_offset", "basic_pathloss", "gas_pathloss",
         "scintillation_pathloss", "entry_pathloss", "free_space_pathloss")
ENV = {"pressure": 1020., "temperature": 273., "vapor": 7.5, "humidity": 50., "diameter": 3.6, "efficiency": .5}


def run(ctx):
    ctx.model_check("MC_N21")
    cases = ctx.generate("MC_N21", "Gen_N21")
    from .. import sut, cir, history
    tf, rng, ntn, u = sut.tf, ctx.rng, sut.ntn, sut.ntnutils
    from sionna.phy import config

    def name(x):
        return x.dtype.name if hasattr(x, "dtype") and not isinstance(x.dtype, str) else str(type(x).__name__)

    def types(ep, prec, **d):
        d = {k: v for k, v in d.items() if hasattr(v, "dtype")}
        ep.add("types", prec=prec, names=sorted(d), types=[name(d[k]) for k in sorted(d)])
        ctx.count("types", len(d))

    def make(c, prec):
        """Arrays, topology and model of a case; prec is the precision argument."""
        eff = "double" if c["req"] in ("double", "config") else "single"
        hz = float(c["f"]) * 1e9
        pols = [("single", "V"), ("single", "H"), ("dual", "VH"), ("dual", "cross")]
        acfg = [cir.arr_cfg(rng, hz, pols, [c["pattern"]], max_ant=4) for _ in "ab"]
        arrays = [cir.make_array(x, prec) for x in acfg]
        conv = (lambda v: v) if c["how"] == "python" else (lambda v: tf.constant(v, sut.rdt(eff)))
        rnd = (lambda v: v) if eff == "double" else (lambda v: float(np.float32(v)))
        height = {"sat": 600000.1, "haps": 20000.3}[c.get("heights", "sat")]
        val = dict(bs_height=height, elevation_angle=float(c["el"]), isd=1234.5, min_ut_height=1.1, max_ut_height=1.1,
                   indoor_probability=0.0, min_ut_velocity=3.3, max_ut_velocity=3.3)
        t = u.gen_single_sector_topology(2, 3, c["scn"], precision=prec, **{k: conv(rnd(v)) for k, v in val.items()})
        m = sut.MODELS[c["scn"]](carrier_frequency=hz, ut_array=arrays[0], bs_array=arrays[1], direction=c["dir"],
                                 elevation_angle=float(c["el"]), precision=prec, enable_shadow_fading=c["kind"] != "accuracy",
                                 always_generate_lsp=c.get("always", False))
        return eff, hz, acfg, arrays, val, t, m

    pipe = [c for c in cases if c["kind"] == "pipeline"]
    acc = [c for c in cases if c["kind"] == "accuracy"]
    for c in common.cover(ctx, pipe, 500 if ctx.thorough else 45) + common.cover(ctx, acc, 250 if ctx.thorough else 27):
        ep = ctx.episode(**c)
        prec = c["req"] if c["req"] in ("single", "double") else None

        def pipeline(c):
            eff, hz, acfg, arrays, val, t, m = make(c, prec)
            names = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")
            types(ep, eff, **{"topology." + k: v for k, v in zip(names, t)})
            par = u.set_3gpp_scenario_parameters(c["scn"], precision=prec)
            types(ep, eff, **{"parameters.%d" % i: v for i, v in enumerate(par)})
            th = tf.constant([.3, 1.2], sut.rdt(eff))
            for a in arrays:
                f = a.ant_pol1.field(th, th)
                types(ep, eff, **{"array." + k: getattr(a, k) for k in (
                    "num_ant", "panel_vertical_spacing", "panel_horizontal_spacing", "element_vertical_spacing",
                    "element_horizontal_spacing", "ant_pos", "ant_pos_pol1")}, **{"array.f_theta": f[0], "array.f_phi": f[1]})
            m.set_topology(*t, los={"drawn": None, "true": True, "false": False}[c["los"]])
            s = m._scenario
            types(ep, eff, **{"scenario." + k: getattr(s, k) for k in PROPS})
            types(ep, eff, **{"parameter." + k: s.get_param(k) for k in ("muDS", "cDS", "rTau", "zeta", "sigmaDS")})
            types(ep, eff, pathloss=m._lsp_sampler.sample_pathloss())
            with sut.Recorder() as rec:
                a, tau = m(int(rng.integers(1, 4)), 1e4)
                log = {k: v for k, v in rec.take()}
            y, g = log["rays"], log["cir"]
            types(ep, eff, **{"lsp." + k: v for k, v in y["lsp"].items()},
                  **{"rays." + k: v for k, v in y.items() if k != "lsp"},
                  **{"link." + k: v for k, v in g["topo"].items() if k != "moving_end"}, phases=g["phi"], times=g["t"])
            ep.add("outputs", prec=eff, a=a.dtype.name, tau=tau.dtype.name,
                   energy=(np.abs(np.asarray(a).astype(np.complex128)) ** 2).sum((2, 4, 5, 6)).ravel())
            # conversions follow their inputs
            h = u.cir_to_ofdm_channel(u.subcarrier_frequencies(8, 15e3, prec), a, tau, normalize=True)
            taps = u.cir_to_time_channel(1e6, a, tau, -3, 5, normalize=True)
            ts = u.time_frequency_vector(6, .7, prec)
            types(ep, eff, ofdm=h, taps=taps, t=ts[0], f=ts[1], exp=u.exp_corr_mat(.4 + .3j, 3, prec),
                  ring=u.one_ring_corr_mat(33.3, 3, precision=prec),
                  drop=u.drop_uts_in_sector(2, 3, tf.constant(6e5, sut.rdt(eff)), tf.constant(50., sut.rdt(eff)),
                                            tf.constant(500., sut.rdt(eff)), prec))

        def accuracy(c):
            eff, hz, acfg, arrays, val, t, m = make(c, prec)
            ep.add("topo", ut=t[0], bs=t[1], uto=t[2], vel=t[4], height=1.1, bsh=val["bs_height"], speed=3.3)
            for x, a in zip(acfg, arrays):
                d = np.stack([np.arccos(rng.uniform(-.99, .99, 6)), rng.uniform(-3, 3, 6)], -1)
                f = a.ant_pol1.field(tf.constant(d[:, 0], tf.float64), tf.constant(d[:, 1], tf.float64))
                slant = {"V": 0., "H": np.pi / 2, "VH": 0., "cross": -np.pi / 4}[x["ptype"]]
                ep.add("array", arr=x, pos=a.ant_pos, spacings=[a.panel_vertical_spacing, a.panel_horizontal_spacing,
                       a.element_vertical_spacing, a.element_horizontal_spacing], dirs=d, ft=f[0], fp=f[1], slant=slant)
            # a further topology, with other UTs
            tt = sut.random_topo(rng, 2, 2, 3, rng.uniform(1e3, 2e6, (2, 2)), spread=10 ** rng.uniform(2, 6))
            m.set_topology(**sut.topo_args(tt))
            s = m._scenario
            ep.add("geo", scn=c["scn"], dir=c["dir"], f=float(c["f"]), el=float(c["el"]), env=ENV, ut=tt["ut_loc"], bs=tt["bs_loc"],
                   **{"lambda": s.lambda_0},
                   **{k: getattr(s, history.OBS[k]) for k in ("d2", "d3", "aod", "aoa", "zod", "zoa", "fspl", "gas", "scint",
                                                              "basic", "mean", "std", "zodoff", "los")})
            for k in range(2):
                b, ntx, nrx = [int(x) for x in rng.integers(1, 3, 3)]
                moving = ["rx", "tx"][int(rng.integers(2))]
                topo, nbs = cir.random_link_state(rng, b, ntx, nrx, moving, speed=20.)
                topo["distance_3d"] = rng.uniform(100., 3000., topo["los"].shape)
                pats = ["omni", "38.901", "dlp"]
                a1, a2 = [cir.arr_cfg(rng, hz, pats=pats, max_ant=2) for _ in "ab"]
                cir.call_generator(ep, hz, a1, a2, topo, moving, cir.random_rays(rng, b, ntx, nrx, 4),
                                   10 ** rng.uniform(-1, 2, topo["los"].shape), rng.uniform(2e4, 3e5, (b, nbs)), float(c["el"]),
                                   True, 2, 1e4, prec=prec or "double", cds=None if k else rng.uniform(1e-9, 1e-8, topo["los"].shape))
            a = complex(rng.uniform(-.7, .7), rng.uniform(-.7, .7))
            phi, sg, dh, n = float(rng.uniform(-180, 180)), float(rng.uniform(1, 15)), float(rng.uniform(.2, 1)), int(rng.integers(1, 7))
            ep.add("corr", a=[a.real, a.imag], phi=phi, sigma=sg, dh=dh, tol="1e-12",
                   exp=u.exp_corr_mat(tf.constant(a, tf.complex128), n, prec),
                   ring=u.one_ring_corr_mat(tf.constant(phi, tf.float64), n, dh, tf.constant(sg, tf.float64), prec))

        def go():
            if c["req"] == "config":
                config.precision = "double"
            try:
                sut.seed(rng.integers(1 << 30))
                (pipeline if c["kind"] == "pipeline" else accuracy)(c)
            finally:
                config.precision = "single"
        common.guarded(ep, go)
