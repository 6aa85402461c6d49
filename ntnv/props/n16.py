"""N16: joint distribution of large-scale parameters.  TLC checks that every table column and placement
gives correlation matrices and enumerates configurations; the correlation factors of the real generator are
compared link by link and pair by pair, and large samples of its output with the specified marginals and
correlations between parameters, UTs, BSs and batch examples."""
import numpy as np
from .. import common

TRACE = "Tr_N16"
MUTATE = ["cross@factors", "spatial@factors"]
ASSUMPTIONS = ["statistical clauses use limits of 6 or more standard errors"]


def run(ctx):
    ctx.model_check("MC_N16", "MC_N16_full" if ctx.thorough else "MC_N16")
    cases = ctx.generate("MC_N16", "Gen_N16")
    from .. import sut, rays
    rng = ctx.rng
    for c in common.cover(ctx, cases, 700 if ctx.thorough else 70):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            b, nb, nu = c["b"], c["nb"], c["nu"]
            if c["via"] == "model":
                m = sut.model({**c, "prec": "double"})
                s, g, up = m._scenario, m._lsp_sampler, m.set_topology
            else:
                s = sut.scenario({**c, "prec": "double"})
                g = sut.ntn.LSPGenerator(s)

                def up(**k):
                    s.set_topology(**k)
                    g.topology_updated_callback()
            for rep in range(2):
                t = sut.random_topo(rng, b, nb, nu, 600e3, spread=float(c["spread"]))
                if rng.random() < .5:      # heights must not matter for the correlation
                    t["ut_loc"][..., 2] = rng.uniform(1, 300, (b, nu))
                up(**sut.topo_args(t), los={"drawn": None, "true": True, "false": False}[c["los"]])
                if c["los"] == "drawn":
                    for _ in range(6):
                        x = np.asarray(s.los)
                        if x.any() and not x.all():
                            break
                        up(ut_loc=rays.T(t["ut_loc"]))
                ep.add("factors", cfg=rays.cfg_of(c), los=s.los, ut=t["ut_loc"],
                       cross=g._cross_lsp_correlation_matrix_sqrt, spatial=g._spatial_lsp_correlation_matrix_sqrt)
                b, nb, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
            ctx.count("links", c["b"] * c["nb"] * c["nu"])
        common.guarded(ep, go)

    cols = {}
    for c in common.pick(ctx, cases, None):
        cols[(c["scn"], c["dir"], c["f"], c["el"])] = c
    cols = common.cover(ctx, list(cols.values()), 40 if ctx.thorough else 5, keys=["scn", "dir", "f", "el"])
    for i, c in enumerate(cols):
        for what in ("alone", "near"):
            ep = ctx.episode(**c, kind=what, nomutate=True)

            def go():
                sut.seed(rng.integers(1 << 30))
                n = (12000 if ctx.thorough else 4000) if what == "alone" else (8000 if ctx.thorough else 2500)
                nb, nu = (1, 1) if what == "alone" else (2, 2)
                # UTs at about a correlation distance
                ut = np.array([[0., 0., 1.5], [float(rng.uniform(5, 30)), float(rng.uniform(-10, 10)), 2.5]])[:nu]
                s, g, t = rays.setup(rng, c, n, nb, nu, ut=np.broadcast_to(ut, (n, nu, 3)).copy(), los=None)
                g = sut.ntn.LSPGenerator(s)
                g.topology_updated_callback()
                r = g()
                x = [r.ds, r.asd, r.asa, r.sf, r.k_factor, r.zsa, r.zsd]
                ep.add("samples", cfg=rays.cfg_of(c), los=s.los, ut=ut, lsp=x)
                ctx.count("sampled_links", n * nb * nu)
            common.guarded(ep, go)
