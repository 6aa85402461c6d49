"""N02: life time of large-scale parameters.  TLC proves the reuse policy on the machine Scenario over
unbounded histories of updates and realisations; histories it draws are replayed on real channel models and
the parameters every realisation uses, and the attenuation it applies, are compared with the machine's."""
from .. import common

TRACE = "Tr_N02"
MUTATE = ["lsp@call", "att@call", "obs.basic@set", "cross@call", "spatial@call", "ashape@call", "lsp@call"]


def run(ctx):
    ctx.model_check("MC_N01", "MC_N02")
    cases = ctx.generate("MC_N01", "Gen_N02_long" if ctx.thorough else "Gen_N02",
                         simulate=350 if ctx.thorough else 56, depth=200)
    from .. import history
    for c in cases:
        c = {**c, "cfg": common.vary(ctx, c["cfg"])}
        ep = ctx.episode(**c["cfg"], n=len(c["hist"]))
        common.guarded(ep, lambda: history.History(ctx, ep, c["cfg"]).run(c["hist"]))
