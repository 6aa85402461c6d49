"""N08: attenuation.  TLC checks the switch machine (which random and deterministic parts may enter an
output) and enumerates configurations; for each recorded realisation the outputs are compared with the
coefficients before scaling times the specified gain of that very link, and the loss components with the
deterministic losses where shadow fading is off."""
from .. import common

TRACE = "Tr_N08"
MUTATE = ["a@sys", "tau@sys", "total@sys"]


def run(ctx):
    ctx.model_check("MC_N08", "MC_N08")
    cases = ctx.generate("Sys_Gen")
    from .. import cir, sut
    rng = ctx.rng
    for c in common.cover(ctx, cases, 300 if ctx.thorough else 40):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(nomutate=not c["sf"], **c)

        def go():
            sut.seed(rng.integers(1 << 30))
            cir.run_system(ctx, ep, c, rng, calls=2 if rng.random() < .5 else 1)
        common.guarded(ep, go)
