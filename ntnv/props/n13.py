"""N13: channel coefficients.  TLC proves the theorems of the field transformation used by the
specification and enumerates configurations; for each the real generator is called on random rays, and
every coefficient it returns is compared with the formula evaluated by the specification."""
import numpy as np
from .. import common

TRACE = "Tr_N13"
MUTATE = ["h@cir", "delays@cir"]


def run(ctx):
    ctx.model_check("MC_N13", "MC_N13_full" if ctx.thorough else "MC_N13")
    cases = ctx.generate("MC_N13", "Gen_N13")
    from .. import cir, sut
    rng = ctx.rng
    for c in common.cover(ctx, cases, 400 if ctx.thorough else 60):
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            hz = float(rng.choice([2e9, 2.17e9, 3.5e9, 20e9, 30e9]))
            pats = ["omni"] if c["pattern"] == "omni" else ["38.901", "dlp", "aperture"]
            P = {"single": [("single", "V"), ("single", "H")], "dual": [("dual", "VH"), ("dual", "cross")]}
            txa = cir.arr_cfg(rng, hz, P[c["tpol"]], pats)
            rxa = cir.arr_cfg(rng, hz, P[c["rpol"]], pats)
            topo, nbs = cir.random_link_state(rng, c["b"], c["ntx"], c["nrx"], c["moving"],
                                              speed=float(rng.choice([0, 3, 40])))
            if c["prec"] == "single":       # phases over many wavelengths are meaningless in single precision
                topo["distance_3d"] = rng.uniform(.1, 3, topo["los"].shape)
            rays = cir.random_rays(rng, c["b"], c["ntx"], c["nrx"], c["ncl"])
            hb = rng.uniform(6.1e5, 3e6, (c["b"], nbs)) if c["sat"] else rng.uniform(8e3, 5e5, (c["b"], nbs))
            cir.call_generator(ep, hz, txa, rxa, topo, c["moving"], rays,
                               10 ** rng.uniform(-2, 3, topo["los"].shape), hb, 50., False,
                               int(rng.choice([1, 2])), float(rng.choice([100., 1e4])),
                               cds=None if rng.random() < .3 else rng.uniform(1e-9, 1e-8, topo["los"].shape),
                               prec=c["prec"])["prec"] = c["prec"]
            ctx.count("links", c["b"] * c["ntx"] * c["nrx"])
        common.guarded(ep, go)
    ep = ctx.episode(kind="phases", nomutate=True)

    def phases():
        sut.seed(rng.integers(1 << 30))
        hz = 2e9
        a = cir.arr_cfg(rng, hz, [("single", "V")], ["omni"], small=True)
        topo, nbs = cir.random_link_state(rng, 1, 1, 1, "rx")
        sub = ctx.episode(kind="x")
        ctx.episodes.pop()
        e = cir.call_generator(sub, hz, a, a, topo, "rx", cir.random_rays(rng, 1, 1, 1, 60), np.ones((1, 1, 1)),
                               np.full((1, 1), 6e5), 50., False, 1, 1e3)
        ep.add("phases", x=np.array(e["phi"]).reshape(-1))
    common.guarded(ep, phases)
