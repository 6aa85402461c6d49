"""N07: pathloss composition.  TLC checks the theorems and the TR 38.821 calibration of the loss model
and enumerates configurations; recorded components (also after environment-only updates) are judged
link by link, the random shadowing by its moments."""
import numpy as np
from .. import common

TRACE = "Tr_N07"
MUTATE = ["fspl@pl", "gas@pl", "scint@pl", "entry@pl", "total@pl"]
ENV = {"pressure": "atmospheric_pressure", "temperature": "temperature", "vapor": "water_vapor_density",
       "humidity": "relative_humidity", "diameter": "diameter_earth_antenna", "efficiency": "antenna_efficiency"}
DEFAULT = {"pressure": 1020., "temperature": 273., "vapor": 7.5, "humidity": 50., "diameter": 3.6, "efficiency": .5}


def random_env(rng, extreme=False):
    e = {"pressure": rng.uniform(850, 1080), "temperature": rng.uniform(250, 310), "vapor": rng.uniform(.5, 25),
         "humidity": rng.uniform(5, 100), "diameter": rng.uniform(.2, 12), "efficiency": rng.uniform(.3, .9)}
    if extreme:
        e.update(diameter=float(rng.choice([.05, 25., 40.])), vapor=float(rng.choice([0.01, 40.])))
    return {k: round(float(v), 3) for k, v in e.items()}


def event(ep, s, sampler, c, cfg, env, a):
    ep.add("pl", **cfg, sf=c["sf"], prec=c["prec"], env=env, bs=a["bs_loc"], los=s.los, d3=s.distance_3d,
           fspl=s.free_space_pathloss, basic=s.basic_pathloss, gas=s.gas_pathloss,
           scint=s.scintillation_pathloss, entry=s.entry_pathloss, total=sampler.sample_pathloss())


def run(ctx):
    ctx.model_check("MC_N07", "MC_N07_full" if ctx.thorough else "MC_N07", workers=6)
    cases = ctx.generate("MC_N07", "Gen_N07")
    from .. import sut
    rng = ctx.rng
    for c in common.cover(ctx, cases, 500 if ctx.thorough else 60):
        c = common.vary(ctx, c)
        ep = ctx.episode(**c)
        cfg = {"scn": c["scn"], "dir": c["dir"], "f": float(c["f"]), "el": float(c["el"])}

        def go():
            s = sut.scenario(c, enable_shadow_fading=c["sf"])
            sampler = sut.ntn.LSPGenerator(s)
            env = dict(DEFAULT)
            b, nb, nu = [int(x) for x in rng.integers(1, 4, 3)]
            h = rng.choice([20e3, 600e3, 1200e3, 35786e3], (b, nb)) * rng.uniform(.98, 1.02, (b, nb))
            a = sut.topo_args(sut.random_topo(rng, b, nb, nu, h), c["prec"])
            if c["los"] != "sampled":
                a["los"] = c["los"] == "LoS"
            kw = {}
            if c["env"] != "default":
                env = random_env(rng, c["env"] == "extreme")
                kw = {ENV[k]: v for k, v in env.items()}
            s.set_topology(**a, **kw)
            event(ep, s, sampler, c, cfg, env, a)
            # later updates: environment only (a subset), then a part of the topology only
            sub = {k: v for k, v in random_env(rng).items() if rng.random() < .6}
            env = {**env, **sub}
            s.set_topology(**{ENV[k]: v for k, v in sub.items()})
            event(ep, s, sampler, c, cfg, env, a)
            h = rng.choice([20e3, 600e3, 1200e3], (b, nb)) * rng.uniform(.98, 1.02, (b, nb))
            a["bs_loc"] = sut.topo_args(sut.random_topo(rng, b, nb, nu, h), c["prec"])["bs_loc"]
            s.set_topology(bs_loc=a["bs_loc"])
            event(ep, s, sampler, c, cfg, env, a)
        common.guarded(ep, go)
    # distribution of the shadowing, every table column
    cols = sorted({(c["scn"], c["dir"], "S" if float(c["f"]) < 5 else "Ka") for c in cases})
    for scn, d, band in cols:
        for los in (True, False):
            for el in (range(10, 91, 10) if ctx.thorough else [int(rng.integers(1, 10)) * 10]):
                f = {"S": 2.2, "Ka": 28.0}[band]
                cfg = {"scn": scn, "dir": d, "f": f, "el": float(el)}
                ep = ctx.episode(kind="shadow", **cfg, los=los)

                def go():
                    sut.seed(rng.integers(1 << 30))
                    s = sut.scenario({**cfg, "prec": "double"})
                    b, nu = 40, 50
                    a = sut.topo_args(sut.random_topo(rng, b, 1, nu, 600e3))
                    s.set_topology(los=los, **a)
                    ep.add("shadow", **cfg, los=los, d3=float(np.mean(s.distance_3d)),
                           basic=np.asarray(s.basic_pathloss).ravel())
                common.guarded(ep, go)
