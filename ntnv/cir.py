"""Recording the channel coefficient generator and whole channel models."""
import numpy as np
import tensorflow as tf
from . import sut
from .sut import ntn

RAYS = ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")


def arr_cfg(rng, hz, pols=None, pats=None, max_ant=4, small=False):
    """A random array as a record of the specification."""
    pols = pols or [("single", "V"), ("single", "H"), ("dual", "VH"), ("dual", "cross")]
    pol, ptype = pols[rng.integers(len(pols))]
    pats = pats or ["omni", "38.901", "dlp", "aperture"]
    while True:
        pr, pc, nr, nc = (int(x) for x in rng.choice([1, 1, 1, 2, 3], 4))
        if pr * pc * nr * nc * (2 if pol == "dual" else 1) <= max_ant:
            break
    if small:
        pr = pc = nr = nc = 1
    r = {"pr": pr, "pc": pc, "nr": nr, "nc": nc, "pol": pol, "ptype": ptype,
         "pattern": pats[rng.integers(len(pats))], "ev": None, "eh": None, "pv": None, "ph": None, "f": float(hz)}
    if rng.random() < .5:
        r["ev"], r["eh"] = float(rng.uniform(.3, 1.2)), float(rng.uniform(.3, 1.2))
    if rng.random() < .4:
        r["pv"] = float((nr - 1) * (r["ev"] or .5) + rng.uniform(.2, 2))
        r["ph"] = float((nc - 1) * (r["eh"] or .5) + rng.uniform(.2, 2))
    return r


def make_array(c, prec="double"):
    return ntn.PanelArray(num_rows_per_panel=c["nr"], num_cols_per_panel=c["nc"], polarization=c["pol"],
                          polarization_type=c["ptype"], antenna_pattern=c["pattern"], carrier_frequency=c["f"],
                          num_rows=c["pr"], num_cols=c["pc"], panel_vertical_spacing=c["pv"],
                          panel_horizontal_spacing=c["ph"], element_vertical_spacing=c["ev"],
                          element_horizontal_spacing=c["eh"], precision=prec)


def random_rays(rng, b, ntx, nrx, ncl, nrays=20, spread=1e-6):
    s = (b, ntx, nrx, ncl)
    p = rng.gamma(.7, size=s) + 1e-3
    d = np.sort(rng.exponential(spread, s), -1)
    d -= d[..., :1]
    return {"delays": d, "powers": p / p.sum(-1, keepdims=True),
            "aoa": rng.uniform(-np.pi, np.pi, s + (nrays,)), "aod": rng.uniform(-np.pi, np.pi, s + (nrays,)),
            "zoa": rng.uniform(.02, np.pi - .02, s + (nrays,)), "zod": rng.uniform(.02, np.pi - .02, s + (nrays,)),
            "xpr": 10 ** rng.uniform(-1, 2, s + (nrays,))}


def random_link_state(rng, b, ntx, nrx, moving, speed=30., nbs_h=None):
    nut, nbs = (nrx, ntx) if moving == "rx" else (ntx, nrx)
    s = (b, ntx, nrx)
    return {"velocities": rng.uniform(-speed, speed, (b, nut, 3)), "los": rng.random(s) < .5,
            "los_aoa": rng.uniform(0, 2 * np.pi, s), "los_aod": rng.uniform(0, 2 * np.pi, s),
            "los_zoa": rng.uniform(.05, np.pi - .05, s), "los_zod": rng.uniform(.05, np.pi - .05, s),
            "distance_3d": rng.uniform(6e5, 2e6, s),
            "tx_orientations": rng.uniform(-np.pi, np.pi, (b, ntx, 3)),
            "rx_orientations": rng.uniform(-np.pi, np.pi, (b, nrx, 3))}, nbs


def call_generator(ep, hz, txa, rxa, topo, moving, rays, k, hb, el, doppler, nt, fs, cds=None, prec="double",
                   form="plain", ev="cir", rank1=False):
    """Call the real generator on the given inputs and record inputs and outputs."""
    dt = sut.rdt(prec)
    c = lambda x: tf.constant(x, dt)
    g = ntn.ChannelCoefficientsGenerator(hz, make_array(txa, prec), make_array(rxa, prec),
                                         subclustering=cds is not None, precision=prec)
    bh = c(hb[0] if rank1 else hb)
    t = ntn.Topology(velocities=c(topo["velocities"]), moving_end=moving, los_aoa=c(topo["los_aoa"]),
                     los_aod=c(topo["los_aod"]), los_zoa=c(topo["los_zoa"]), los_zod=c(topo["los_zod"]),
                     los=tf.constant(topo["los"]), distance_3d=c(topo["distance_3d"]),
                     tx_orientations=c(topo["tx_orientations"]), rx_orientations=c(topo["rx_orientations"]),
                     bs_height=bh, elevation_angle=c(el) if form == "tensor" else float(el),
                     doppler_enabled=doppler)
    r = ntn.Rays(**{n: c(rays[n]) for n in RAYS})
    h, d, phi, ts = g(nt, fs, c(k), r, t, c(cds) if cds is not None else None, debug=True)
    return ep.add(ev, f=float(hz), txa=txa, rxa=rxa, topo=topo, moving=moving, rays=rays, k=k, hb=hb, el=float(el),
                  doppler=doppler, nt=nt, fs=float(fs), cds=cds, h=h, delays=d, phi=phi, t=ts)


def heights_of(rng, kind, b, nb):
    lo, hi = rng.uniform(8e3, 4e5, (b, nb)), rng.uniform(6e5, 1.5e6, (b, nb))
    x = {"sat": hi, "haps": lo}.get(kind, np.where(rng.random((b, nb)) < .5, lo, hi))
    if kind == "mixed" and x.size > 1:
        x.flat[0], x.flat[1] = hi.flat[0], lo.flat[1]
    return x


def system_config(c):
    return {"scn": c["scn"], "dir": c["dir"], "f": float(c["f"]), "el": float(c["el"])}



def run_system(ctx, ep, c, rng, max_ant=2, nt=None, fs=None, speed=None, always=False, calls=1, keep=None):
    """Build a channel model for the enumerated configuration, realise it and record everything."""
    hz = float(c["f"]) * 1e9
    if keep is None:
        uta, bsa = arr_cfg(rng, hz, max_ant=max_ant), arr_cfg(rng, hz, max_ant=max_ant)
        m = sut.model({**c, "prec": "double"}, make_array(uta), make_array(bsa),
                      enable_pathloss=c["pl"], enable_shadow_fading=c["sf"], doppler_enabled=c["dop"],
                      always_generate_lsp=always)
    else:
        m, uta, bsa = keep
    hb = heights_of(rng, c["heights"], c["b"], c["nb"])
    t = sut.random_topo(rng, c["b"], c["nb"], c["nu"], hb, spread=10 ** rng.uniform(2, 4.5),
                        speed=float(rng.choice([0., 10., 60.])) if speed is None else speed)
    a = sut.topo_args(t)
    if c["los"] != "drawn":
        a["los"] = c["los"] == "true"
    m.set_topology(**a)
    s = m._scenario
    if c["los"] == "drawn" and keep is None:
        for _ in range(20):          # redraw until both states occur, and differently for exchanged links
            l = s.los.numpy()
            if l.any() and not l.all() and (min(l.shape[1:]) < 2 or any((x.T.ravel() != x.ravel()).any() for x in l)):
                break
            m.set_topology(ut_loc=a["ut_loc"])
    sat = c["dop"] and c["heights"] != "haps"
    nt_ = nt or int(rng.choice([1, 2, 3]))
    fs_ = fs or (5e6 if sat else float(rng.choice([300., 1e4])))
    out = []
    for _ in range(calls):
        with sut.Recorder() as r:
            x = m(c["b"], nt_, fs_) if c["form"] == "three" else m(nt_, fs_)
            log = {k: v for k, v in r.take()}
        y, g = log["rays"], log["cir"]
        out.append(ep.add("sys", cfg=system_config(c), hz=hz, uta=uta, bsa=bsa, ut=t["ut_loc"], bs=t["bs_loc"],
                          uo=t["ut_orientations"], bo=t["bs_orientations"], vel=t["ut_velocities"], los=s.los,
                          dop=c["dop"], plon=c["pl"], sfon=c["sf"], nt=nt_, fs=fs_,
                          rays={n: y[n] for n in RAYS}, k=y["lsp"]["k_factor"], sf=y["lsp"]["sf"], phi=g["phi"],
                          pl={"b": s.basic_pathloss, "g": s.gas_pathloss, "s": s.scintillation_pathloss,
                              "e": s.entry_pathloss}, total=m._lsp_sampler.sample_pathloss(), a=x[0], tau=x[1], hpre=g["h"], dpre=g["delays"]))
        ctx.count("links", c["b"] * c["nb"] * c["nu"])
    return m, uta, bsa
