"""N09: layout and alignment.  TLC enumerates configurations of whole channel models; every realisation is
recorded together with the rays and large-scale parameters per BS and UT it was made of, and both outputs
are compared link by link with the coefficients and delays the specification computes for that very link."""
from .. import common

TRACE = "Tr_N09"
MUTATE = ["a@sys", "tau@sys"]


def run(ctx):
    ctx.model_check("MC_N09", "MC_N09")
    cases = ctx.generate("Sys_Gen")
    from .. import cir, sut
    rng = ctx.rng
    cells = {}        # every table with several BSs and UTs in mixed states: exchanged links differ in all tabulated quantities
    for c in cases:
        if c["nb"] > 1 and c["nu"] > 1 and c["los"] == "drawn" and float(c["el"]) < 70:
            cells.setdefault((c["scn"], c["dir"], float(c["f"]) > 10), []).append(c)
    mixed = [c for k in sorted(cells) for c in common.pick(ctx, cells[k], 6 if ctx.thorough else 1)]
    for c in mixed + common.cover(ctx, cases, 300 if ctx.thorough else 36):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            keep = cir.run_system(ctx, ep, c, rng)
            if rng.random() < .4:       # another topology of the same sizes
                cir.run_system(ctx, ep, {**c, "los": str(rng.choice(["true", "false"]))}, rng, keep=keep)
        common.guarded(ep, go)
