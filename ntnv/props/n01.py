"""N01: partial topology updates.  TLC proves on the machine Scenario, over unbounded histories, that after
any sequence of updates everything derived belongs to the latest inputs and nothing random is redrawn
without need; histories it draws at random are replayed on real scenarios and channel models, and every
observation is compared with the quantities of the latest inputs."""
from .. import common

TRACE = "Tr_N01"
MUTATE = ["obs.d2@set", "obs.gas@set", "obs.zoa@set", "obs.h_ut@set", "envobs@set", "ok@set", "given@set", "env@set", "dopobs@set", "link.aod@call"]


def run(ctx):
    ctx.model_check("MC_N01", "MC_N01")
    cases = ctx.generate("MC_N01", "Gen_N01_long" if ctx.thorough else "Gen_N01",
                         simulate=600 if ctx.thorough else 70, depth=200)
    from .. import history
    for c in cases:
        c = {**c, "cfg": common.vary(ctx, c["cfg"])}
        ep = ctx.episode(**c["cfg"], n=len(c["hist"]))
        common.guarded(ep, lambda: history.History(ctx, ep, c["cfg"]).run(c["hist"]))
