"""N03: LoS states.  TLC proves the rule for one link on the machine Scenario over unbounded histories and
draws histories, which are replayed on real scenarios with random indoor states; the states of large fresh
topologies of every table column are tested for the tabulated probability and for independence."""
import numpy as np
from .. import common

TRACE = "Tr_N03"
MUTATE = ["obs.los@set", "obs.indoor@set", "obs.mean@set"]
ASSUMPTIONS = ["statistical clauses use limits of 6 or more standard errors"]


def run(ctx):
    ctx.model_check("MC_N01", "MC_N03")
    cases = ctx.generate("MC_N01", "Gen_N03_long" if ctx.thorough else "Gen_N03",
                         simulate=700 if ctx.thorough else 60, depth=200)
    cols = ctx.generate("MC_N01", "Gen_N03_col")
    from .. import history, sut
    rng = ctx.rng
    for c in cases:
        c = {**c, "cfg": common.vary(ctx, c["cfg"])}
        ep = ctx.episode(**c["cfg"], n=len(c["hist"]))
        common.guarded(ep, lambda: history.History(ctx, ep, c["cfg"], sizes=((1, 4), (1, 2), (1, 12))).run(c["hist"]))
    for c in common.cover(ctx, cols, len(cols) if ctx.thorough else 70):
        ep = ctx.episode(kind="sample", nomutate=True, **c)

        def go():
            sut.seed(rng.integers(1 << 30))
            s = sut.scenario({**c, "prec": "double"})
            b, nb, nu = (40, 3, 30) if ctx.thorough else (20, 2, 25)
            t = sut.random_topo(rng, b, nb, nu, 600e3, spread=1000., indoor=rng.random((b, nu)) < .2)
            a = sut.topo_args(t)
            s.set_topology(**a)
            cfg = {"scn": c["scn"], "dir": c["dir"], "f": float(c["f"]), "el": float(c["el"])}
            for k in range(3 if ctx.thorough else 2):
                ep.add("sample", cfg=cfg, los=s.los, indoor=t["in_state"])
                ctx.count("sampled_links", b * nb * nu)
                if k == 0:
                    s.set_topology(in_state=a["in_state"])
                else:
                    s.set_topology(ut_loc=a["ut_loc"])
        common.guarded(ep, go)
