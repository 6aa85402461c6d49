"""Replaying histories generated by the machine Scenario on real scenarios and channel models."""
import numpy as np
from . import sut

ENV = {"latitude": "latitude", "lwc": "lwc", "rain": "rain_rate", "pressure": "atmospheric_pressure",
       "temperature": "temperature", "vapor": "water_vapor_density", "humidity": "relative_humidity",
       "diameter": "diameter_earth_antenna", "efficiency": "antenna_efficiency"}
OBS = {n: n for n in ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "indoor",
                      "h_ut", "h_bs", "batch_size", "num_bs", "num_ut", "los")}
OBS.update(d2="distance_2d", d3="distance_3d", dut="matrix_ut_distance_2d", aod="los_aod", aoa="los_aoa",
           zod="los_zod", zoa="los_zoa", fspl="free_space_pathloss", gas="gas_pathloss",
           scint="scintillation_pathloss", entry="entry_pathloss", basic="basic_pathloss",
           mean="lsp_log_mean", std="lsp_log_std", zodoff="zod_offset", d2in="distance_2d_in")
LSP = ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")


def random_env(rng):
    e = {"latitude": rng.uniform(-60, 60), "lwc": rng.uniform(0, 2), "rain": rng.uniform(0, 100),
         "pressure": rng.uniform(850, 1080), "temperature": rng.uniform(250, 310), "vapor": rng.uniform(.5, 25),
         "humidity": rng.uniform(5, 100), "diameter": rng.uniform(.2, 12), "efficiency": rng.uniform(.3, .9)}
    keep = [k for k in e if rng.random() < .5] or ["pressure"]
    return {k: round(float(e[k]), 3) for k in keep}


class History:
    def __init__(self, ctx, ep, cfg, sizes=((1, 3), (1, 2), (1, 4)), hold=False):
        self.ctx, self.ep, self.c, self.rng, self.sizes = ctx, ep, cfg, ctx.rng, sizes
        self.level = cfg["level"]
        kw = dict(enable_pathloss=cfg["pl"], enable_shadow_fading=cfg["sf"])
        self.dop = bool(self.rng.random() < .8)
        kw["doppler_enabled"] = self.dop
        prec = cfg["prec"]
        hz = float(cfg["f"]) * 1e9
        pols = (("single", "V"), ("dual", "cross"))
        uta, bsa = [sut.array(cfg["f"], rows=int(self.rng.integers(1, 3)), prec=prec, hz=hz,
                              **dict(zip(("pol", "ptype"), pols[self.rng.integers(2)]))) for _ in "ab"]
        sut.seed(self.rng.integers(1 << 30))
        if self.level == "model":
            self.m = sut.model(cfg, uta, bsa, always_generate_lsp=cfg["always"], **kw)
            self.s = self.m._scenario
        else:
            self.m, self.s = None, sut.scenario(cfg, uta, bsa, **kw)
        self.size = None
        self.count = 0
        ep.add("make", cfg={"scn": cfg["scn"], "dir": cfg["dir"], "f": float(cfg["f"]), "el": float(cfg["el"])},
               prec=prec, always=cfg["always"], plon=cfg["pl"], sfon=cfg["sf"], dop=self.dop)

    def values(self, size):
        r = self.rng
        if size == "new" or self.size is None:
            new = tuple(int(r.integers(a, b + 1)) for a, b in self.sizes)
            if r.random() < .5:
                new = (new[0], 2, 2)    # counts that do not show a mix-up of both ends by their shapes
        else:
            new = self.size
        b, nb, nu = new
        h = np.where(r.random((b, nb)) < .5, r.uniform(8e3, 4e5, (b, nb)), r.uniform(6e5, 3e6, (b, nb)))
        t = sut.random_topo(r, b, nb, nu, h, spread=10 ** r.uniform(.5, 4))
        if self.level != "model":
            t["in_state"] = r.random((b, nu)) < r.choice([0., .3, .6])
        return t, new

    def set(self, op):
        r, s = self.rng, self.s
        t, new = self.values(op["size"])
        given = {k: v for k, v in t.items() if k in op["given"]}
        full = len(given) == 6
        if not full and self.size is not None:
            pass                                  # same sizes by construction
        args = sut.topo_args(given, self.c["prec"])
        rec = {k: v for k, v in args.items()}     # what was given, in the precision given
        if op["los"] != "none":
            args["los"] = op["los"] == "true"
        env = random_env(r) if op["env"] else {}
        kw = {ENV[k]: v for k, v in env.items()}
        if op["dop"] != "none":
            kw["doppler_enabled"] = op["dop"] == "true"
        ok, what = True, ""
        before = self.size
        try:
            if self.m is not None and not kw:
                self.m.set_topology(**args)
            else:
                s.set_topology(**args, **kw)
        except Exception as x:  # noqa: BLE001
            ok, what = False, "%s: %s" % (type(x).__name__, str(x)[:200])
        if ok and full:
            self.size = new
        obs = {}
        if ok:
            obs = {k: getattr(s, n) for k, n in OBS.items()}
            obs["lsp"] = ([getattr(self.m._lsp, n) for n in LSP]
                          if getattr(self.m, "_lsp", None) is not None else [])
        self.ep.add("set", given=rec, req=op["los"], env=env, dop=op["dop"], ok=ok, what=what, obs=obs,
                    envobs={k: getattr(s, n) for k, n in ENV.items()}, dopobs=bool(s.doppler_enabled))
        self.ctx.count("updates")
        if not ok:
            self.ctx.count("rejected")
        return ok

    def call(self, op):
        m, s = self.m, self.s
        up = self.c["dir"] == "uplink"
        with sut.Recorder(phases=False) as rec:
            a, tau = m(int(op["nt"]), 1e4)
            log = {k: v for k, v in rec.take()}
        t, h = log["cir"]["topo"], np.asarray(log["cir"]["h"])
        per = (lambda x: np.swapaxes(np.asarray(x), 1, 2)) if up else np.asarray   # [batch, BS, UT]
        dep, arr = ("los_aoa", "los_aod") if up else ("los_aod", "los_aoa")
        zdep, zarr = ("los_zoa", "los_zod") if up else ("los_zod", "los_zoa")
        link = {"velocities": t["velocities"], "los": per(t["los"]), "d3": per(t["distance_3d"]),
                "ut_orientations": t["tx_orientations" if up else "rx_orientations"],
                "bs_orientations": t["rx_orientations" if up else "tx_orientations"],
                "aod": per(t[dep]), "aoa": per(t[arr]), "zod": per(t[zdep]), "zoa": per(t[zarr]),
                "k": per(log["cir"]["k"])}
        # power of every link before and after the last step; h: [b, tx, rx, paths, rxant, txant, t]
        pre = (np.abs(h) ** 2).sum((3, 4, 5, 6))
        post = (np.abs(np.asarray(a)) ** 2).sum((2, 4, 5, 6))     # [b, rx, tx]
        post = np.swapaxes(post, 1, 2)
        with np.errstate(divide="ignore"):
            att = per(10 * np.log10(pre / post))
        lsp = log["rays"]["lsp"]
        g = m._lsp_sampler
        self.ep.add("call", cross=g._cross_lsp_correlation_matrix_sqrt, spatial=g._spatial_lsp_correlation_matrix_sqrt, nt=int(op["nt"]), lsp=[lsp[n] for n in LSP], link=link, att=att,
                    ashape=list(a.shape), tshape=list(tau.shape), total=m._lsp_sampler.sample_pathloss(),
                    uta=int(s.ut_array.num_ant), bsa=int(s.bs_array.num_ant),
                    ncl=int(s.num_clusters_max))
        self.ctx.count("realisations")

    def run(self, hist):
        for op in hist:
            if op["op"] == "call":
                self.call(op)
            else:
                self.set(op)
