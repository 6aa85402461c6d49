"""N10: cluster delays and powers.  TLC checks the normal form on a machine of the drawing steps and the
K-factor correction on a grid, and enumerates configurations; the stages of the real ray generator, its
public call and whole models over changing topologies are recorded and judged link by link, and large
samples against the exponential delays and log-normal powers of the specification."""
import numpy as np
from .. import common

TRACE = "Tr_N10"
MUTATE = ["powers@stages", "pfa@stages", "powers@rays"]
ASSUMPTIONS = ["statistical clauses use limits of 6 or more standard errors"]


def run(ctx):
    ctx.model_check("MC_N10", "MC_N10_full" if ctx.thorough else "MC_N10")
    cases = ctx.generate("MC_N10", "Gen_N10")
    from .. import sut, rays
    from ..rays import T
    rng = ctx.rng

    def stages(ep, c):
        b, nb, nu = c["b"], c["nb"], c["nu"]
        s, g, t = rays.setup(rng, c, b, nb, nu, los=c["los"])
        for _ in range(2):
            v = rays.lsp_values(rng, (b, nb, nu))
            ds2 = v["ds"] * 10 ** rng.uniform(-1, 1, (b, nb, nu))
            sd = int(rng.integers(1 << 30))
            sut.seed(sd)
            d, u = g._cluster_delays(T(v["ds"]), T(v["k_factor"]))
            p, q = g._cluster_powers(T(v["ds"]), T(v["k_factor"]), u)
            ep.add("stages", cfg=rays.cfg_of(c), los=s.los, ds=v["ds"], k=v["k_factor"], delays=d, unscaled=u,
                   powers=p, pfa=q)
            sut.seed(sd)
            _, u2 = g._cluster_delays(T(ds2), T(v["k_factor"]))
            ep.add("scaled", cfg=rays.cfg_of(c), los=s.los, ds=v["ds"], ds2=ds2, t1=u, t2=u2)

    def public(ep, c):
        b, nb, nu = c["b"], c["nb"], c["nu"]
        s, g, t = rays.setup(rng, c, b, nb, nu, los=c["los"])
        for _ in range(2):
            v = rays.lsp_values(rng, (b, nb, nu))
            r = g(sut.ntn.LSP(**{n: T(x) for n, x in v.items()}))
            ep.add("rays", cfg=rays.cfg_of(c), los=s.los, ds=v["ds"], k=v["k_factor"], delays=r.delays, powers=r.powers)
            # other LoS states, other numbers of UTs
            b, nb, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
            s.set_topology(**sut.topo_args(sut.random_topo(rng, b, nb, nu)), los=bool(rng.random() < .5))
            g.topology_updated_callback()

    def model(ep, c):
        m = sut.model({**c, "prec": "double"})
        b, nb, nu = c["b"], c["nb"], c["nu"]
        for k in range(3):
            los = {"drawn": None, "true": True, "false": False}[c["los"]] if k == 0 else bool(rng.random() < .5)
            a = sut.topo_args(sut.random_topo(rng, b, nb, nu))
            m.set_topology(**a, los=los)
            with sut.Recorder(phases=False) as rec:
                m(1, 1e3)
                x = rec.take("rays")[0]
            ep.add("rays", cfg=rays.cfg_of(c), los=m._scenario.los, ds=x["lsp"]["ds"], k=x["lsp"]["k_factor"],
                   delays=x["delays"], powers=x["powers"])
            if rng.random() < .5:
                b, nb, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 4))

    for c in common.cover(ctx, cases, 900 if ctx.thorough else 60):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            {"stages": stages, "rays": public, "model": model}[c["how"]](ep, c)
            ctx.count(c["how"])
        common.guarded(ep, go)

    cols = {}
    for c in common.pick(ctx, cases, None):
        cols[(c["scn"], c["dir"], c["f"], c["el"])] = c
    cols = list(cols.values())
    if not ctx.thorough:
        cols = common.cover(ctx, cols, 12, keys=["scn", "dir", "f", "el"])
    n = 5000 if ctx.thorough else 2000
    for i, c in enumerate(cols):
        ep = ctx.episode(**c, kind="stats", nomutate=True)

        def go():
            sut.seed(rng.integers(1 << 30))
            s, g, t = rays.setup(rng, c, n // 4, 2, 2)
            s.set_topology(**sut.topo_args(t))
            for los in (True, False):
                s.set_topology(los=los, ut_loc=T(t["ut_loc"]))
                g.topology_updated_callback()
                sh = (n // 4, 2, 2)
                ds = 10 ** rng.uniform(-9, -6, sh)
                k = 10 ** rng.uniform(-1, 2, sh)
                d, u = g._cluster_delays(T(ds), T(k))
                p, _ = g._cluster_powers(T(ds), T(k), u)
                u, p = np.asarray(u).reshape(n, -1), np.asarray(p).reshape(n, -1)
                ep.add("stats", cfg=rays.cfg_of(c), los=los, ds=ds.reshape(-1), u=u, p=p)
                v = rays.lsp_values(rng, sh)
                r = g(sut.ntn.LSP(**{x: T(y) for x, y in v.items()}))
                ep.add("stats", cfg=rays.cfg_of(c), los=los, ds=v["ds"].reshape(-1), k=v["k_factor"].reshape(-1),
                       u=np.asarray(r.delays).reshape(n, -1), p=np.asarray(r.powers).reshape(n, -1))
                ctx.count("sampled_links", 2 * n)
        common.guarded(ep, go)
