"""N14: Doppler.  TLC checks the theorems of the rates and enumerates configurations; time series of the
real generator are compared with the specified motion of every ray up to one common rate per satellite,
and this rate with its bound."""
import numpy as np
from .. import common

TRACE = "Tr_N14"
MUTATE = ["h@cir", "t@cir"]


def run(ctx):
    ctx.model_check("MC_N14", "MC_N14_full" if ctx.thorough else "MC_N14")
    cases = ctx.generate("MC_N14", "Gen_N14")
    from .. import cir, sut
    rng = ctx.rng
    for c in common.cover(ctx, cases, 500 if ctx.thorough else 80):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            hz, b, nbs, nut = float(c["f"]), c["b"], c["nbs"], int(rng.integers(1, 3))
            a = cir.arr_cfg(rng, hz, None, ["omni"], max_ant=2)
            o = cir.arr_cfg(rng, hz, [("single", "V")], ["omni"], small=True)
            ntx, nrx = (nbs, nut) if c["moving"] == "rx" else (nut, nbs)
            high = c["fs"] == "high"
            v = {"static": 0., "slow": 3., "fast": 80. if not high else 900.}[c["speed"]]
            topo, _ = cir.random_link_state(rng, b, ntx, nrx, c["moving"], speed=v)
            k = c["heights"]
            s = (b, nbs)
            lo, hi = rng.uniform(8e3, 5.9e5, s), rng.uniform(6e5, 3e6, s)
            hb = {"low": lo, "sat": hi, "edge": rng.choice([599999., 600000.], s), "equal": np.full(s, hi[0, 0]),
                  "mixed": np.where(rng.random(s) < .5, lo, hi)}[k]
            # satellite rates need fast sampling, UT motion may be seen at any rate
            fs = 5e6 if high or (c["doppler"] and k != "low") else float(rng.choice([200., 5000., 12345.6]))
            cir.call_generator(ep, hz, *((a, o) if rng.random() < .5 else (o, a)), topo, c["moving"],
                               cir.random_rays(rng, b, ntx, nrx, 2), 10 ** rng.uniform(-1, 2, topo["los"].shape), hb,
                               float(c["el"]), c["doppler"], c["nt"], fs,
                               form="tensor" if rng.random() < .3 else "plain")
            ctx.count("links", b * nbs * nut)
        common.guarded(ep, go)
    for mv in ("rx", "tx"):
        ep = ctx.episode(kind="rates", moving=mv, nomutate=True)

        def rates():
            sut.seed(rng.integers(1 << 30))
            n, hz = 150, 20e9
            a = cir.arr_cfg(rng, hz, [("single", "V")], ["omni"], small=True)
            topo, _ = cir.random_link_state(rng, n, 1, 1, mv, speed=3.)
            topo["los"][:] = False
            cir.call_generator(ep, hz, a, a, topo, mv, cir.random_rays(rng, n, 1, 1, 1, 2), np.ones((n, 1, 1)),
                               rng.uniform(6e5, 2e6, (n, 1)), 35., True, 2, 5e6, ev="rates")
        common.guarded(ep, rates)
