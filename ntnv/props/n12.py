"""N12: sub-clusters.  TLC enumerates all rankings of cluster powers and spacings of cluster delays and
proves that the specified paths partition the rays; the real generator is then run on rays built from
enumerated configurations, and its paths are compared with the specified ones."""
import numpy as np
from .. import common

TRACE = "Tr_N12"
MUTATE = ["h@cir", "delays@cir", "tau@sys"]


def run(ctx):
    ctx.model_check("MC_N12", "MC_N12_full" if ctx.thorough else "MC_N12")
    cases = ctx.generate("MC_N12", "Gen_N12")
    from .. import cir, sut
    rng = ctx.rng
    for c in common.cover(ctx, cases, 500 if ctx.thorough else 70):
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            hz = float(rng.choice([2e9, 20e9]))
            a1 = cir.arr_cfg(rng, hz, [("single", "V"), ("single", "H")], ["omni"], max_ant=2)
            a2 = cir.arr_cfg(rng, hz, [("single", "V"), ("dual", "cross")], ["omni"], max_ant=2)
            b, ntx, nrx = (int(x) for x in rng.choice([1, 1, 2], 3))
            topo, nbs = cir.random_link_state(rng, b, ntx, nrx, c["moving"], speed=10.)
            topo["los"] = {"los": np.ones, "nlos": np.zeros, "mixed": lambda s: rng.random(s) < .5}[c["los"]](
                topo["los"].shape).astype(bool)
            n = c["n"]
            rays = cir.random_rays(rng, b, ntx, nrx, n)
            cds = rng.uniform(1e-9, 1e-8, topo["los"].shape)
            p = rng.uniform(.05, .3, (b, ntx, nrx, n))
            p[..., n - c["masked"]:] = 0 if c["masked"] else p[..., n:]
            # the strongest clusters: as enumerated for the first link, random for the others
            for q in np.ndindex(b, ntx, nrx):
                i, j = (c["first"] - 1, c["second"] - 1) if sum(q) == 0 else rng.permutation(n - c["masked"])[:2]
                p[q][i], p[q][j] = rng.uniform(.6, .9), rng.uniform(.35, .55)
            rays["powers"] = p / p.sum(-1, keepdims=True)
            g = {"tight": rng.uniform(.01, .8, p.shape), "wide": rng.uniform(3, 40, p.shape),
                 "mixed": rng.choice([.3, 1.1, 2.2, 9.], p.shape) * rng.uniform(.9, 1.1, p.shape)}[c["gap"]]
            g[..., 0] = 0
            rays["delays"] = np.cumsum(g, -1) * cds[..., None]
            if c["masked"]:
                rays["delays"][..., n - c["masked"]:] = 1.0 - rng.random() * 1e-6
            cir.call_generator(ep, hz, a1, a2, topo, c["moving"], rays, 10 ** rng.uniform(-3, 2.5, topo["los"].shape),
                               rng.uniform(5e5, 8e5, (b, nbs)), 50., False, 1, 1e3, cds=cds)
            ctx.count("links", b * ntx * nrx)
        common.guarded(ep, go)

    # whole models whose links change their states: sub-clusters follow the present state
    cells = {}
    for c in ctx.generate("Sys_Gen"):
        if c["b"] == 1 and not c["dop"]:
            cells.setdefault((c["scn"], c["dir"], float(c["f"]) > 10), []).append(c)
    for k in sorted(cells):
        for c in common.pick(ctx, cells[k], 8 if ctx.thorough else 1):
            ep = ctx.episode(kind="states", **c)

            def states():
                sut.seed(rng.integers(1 << 30))
                keep, los = None, bool(rng.random() < .5)
                for _ in range(3):
                    keep = cir.run_system(ctx, ep, {**c, "los": str(los).lower()}, rng, nt=1, keep=keep)
                    los = not los
            common.guarded(ep, states)
