"""N15: Faraday rotation.  TLC checks the rotation on a grid of carriers and heights and enumerates
mixtures of satellite and lower BSs; the real generator's coefficients for these are compared with the
specified ones link by link."""
import numpy as np
from .. import common

TRACE = "Tr_N15"
MUTATE = ["h@cir"]


def heights(rng, kind, b, nbs):
    lo, hi = lambda s=None: rng.uniform(8e3, 5.9e5, s), lambda s=None: rng.uniform(6e5, 3.6e7, s)
    if kind == "low":
        return lo((b, nbs))
    if kind == "sat":
        return hi((b, nbs))
    if kind == "edge":
        return rng.choice([599999., 600000., 600001.], (b, nbs))
    x = np.where(rng.random((b, nbs)) < .5, lo((b, nbs)), hi((b, nbs)))
    if kind == "perBS":
        x[0, 0], x[0, 1] = (lo(), hi()) if rng.random() < .5 else (hi(), lo())
    if kind == "perBatch":
        x[0, 0], x[1, 0] = (lo(), hi()) if rng.random() < .5 else (hi(), lo())
    if kind == "rank1":
        x[:] = x[0]
    return x


def run(ctx):
    ctx.model_check("MC_N15", "MC_N15_full" if ctx.thorough else "MC_N15")
    cases = ctx.generate("MC_N15", "Gen_N15")
    from .. import cir, sut
    rng = ctx.rng
    POL = {"V": ("single", "V"), "H": ("single", "H"), "VH": ("dual", "VH"), "cross": ("dual", "cross")}
    for c in common.cover(ctx, cases, 500 if ctx.thorough else 70):
        c = common.vary(ctx, c, 0 if c["heights"].startswith("per") else .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            hz, b, nbs, nut = float(c["f"]), c["b"], c["nbs"], int(rng.integers(1, 3))
            a = cir.arr_cfg(rng, hz, [POL[c["pol"]]], ["omni"], small=True)
            o = cir.arr_cfg(rng, hz, None, ["omni"], small=True)
            txa, rxa = (a, o) if rng.random() < .5 else (o, a)
            ntx, nrx = (nbs, nut) if c["moving"] == "rx" else (nut, nbs)
            topo, _ = cir.random_link_state(rng, b, ntx, nrx, c["moving"])
            if c["los"] != "mixed":
                topo["los"][:] = c["los"] == "los"
            hb = heights(rng, c["heights"], b, nbs)
            cir.call_generator(ep, hz, txa, rxa, topo, c["moving"], cir.random_rays(rng, b, ntx, nrx, 2),
                               10 ** rng.uniform(-1, 2, topo["los"].shape), hb, 50., False, 1, 1e3,
                               rank1=c["heights"] == "rank1")
            ctx.count("links", b * nbs * nut)
        common.guarded(ep, go)
