"""N11: ray angles, coupling, cross-polarisation.  TLC checks offsets, wrapping and angle constants on a
grid and enumerates configurations; the angle stages and the public call of the real ray generator are
recorded and judged cluster by cluster, and large samples against the specified random parts."""
import numpy as np
from .. import common

TRACE = "Tr_N11"
MUTATE = ["a@angles", "rays@rays"]
ASSUMPTIONS = ["statistical clauses use limits of 6 or more standard errors"]


def run(ctx):
    ctx.model_check("MC_N11", "MC_N11_full" if ctx.thorough else "MC_N11")
    cases = ctx.generate("MC_N11", "Gen_N11")
    from .. import sut, rays
    from ..rays import T
    rng = ctx.rng

    def heights(kind, b, nb):
        lo, hi = rng.uniform(8e3, 1.59e5, (b, nb)), rng.uniform(1.61e5, 1.2e6, (b, nb))
        return {"space": hi, "low": lo, "edge": rng.choice([159999., 160000., 160001.], (b, nb)),
                "mixed": np.where(rng.random((b, nb)) < .5, lo, hi)}[kind]

    def powers(s, shape):
        p = rng.gamma(.6, size=shape + (int(s.num_clusters_max),)) + 1e-5
        if rng.random() < .3:
            p[..., rng.integers(p.shape[-1])] *= 1e-7
        if rng.random() < .5:
            for n in range(p.shape[-1]):    # as after masking
                used = np.where(np.asarray(s.los), int(s.num_clusters_los), int(s.num_clusters_nlos))
                p[..., n] *= n < used
        return p / p.sum(-1, keepdims=True)

    for c in common.cover(ctx, cases, 700 if ctx.thorough else 90):
        c = common.vary(ctx, c, .1)
        ep = ctx.episode(**c)

        def go():
            sut.seed(rng.integers(1 << 30))
            b, nb, nu = c["b"], c["nb"], c["nu"]
            hb = heights(c["heights"], b, nb)
            # near: overhead UTs, where zeniths are folded; otherwise UTs far off
            s, g, t = rays.setup(rng, c, b, nb, nu, hb, spread=100. if c["near"] else 6e5, los=c["los"])
            sh = (b, nb, nu)
            v = rays.lsp_values(rng, sh)
            common_ = dict(cfg=rays.cfg_of(c), los=s.los, ut=t["ut_loc"], bs=t["bs_loc"])
            if c["how"] == "stages":
                for kind in rays.ANG:
                    sp = 10 ** rng.uniform(-.5, 1.9, sh)
                    P = powers(s, sh)
                    a = getattr(g, rays.CALL[kind])(T(sp), T(v["k_factor"]), T(P))
                    ep.add("angles", **common_, kind=kind, spread=sp, k=v["k_factor"], P=P, a=a)
            else:
                r = g(sut.ntn.LSP(**{n: T(x) for n, x in v.items()}))
                ep.add("rays", **common_, rays={n: getattr(r, n) for n in rays.ANG + ("xpr",)}, P=r.powers, k=v["k_factor"],
                       spreads={"aoa": v["asa"], "aod": v["asd"], "zoa": v["zsa"], "zod": v["zsd"]})
            ctx.count("links", b * nb * nu)
        common.guarded(ep, go)

    # large samples
    cols = {}
    for c in common.pick(ctx, cases, None):
        cols[(c["scn"], c["dir"], c["f"], c["el"])] = c
    cols = list(cols.values())
    cols = common.cover(ctx, cols, 60 if ctx.thorough else 6, keys=["scn", "dir", "f", "el"])
    n = 3000 if ctx.thorough else 1200
    for i, c in enumerate(cols):
        for los in (True, False):
            ep = ctx.episode(**c, kind="stats", nomutate=True, state=los)

            def go():
                sut.seed(rng.integers(1 << 30))
                # zeniths near 90 degrees: far-off UTs of a low BS
                q = n // 4
                hb = rng.uniform(8e3, 1e5, (q, 2))
                az = rng.uniform(-np.pi, np.pi, (q, 2))
                ut = np.stack([3e6 * np.cos(az), 3e6 * np.sin(az), rng.uniform(1, 9, (q, 2))], -1)
                bs = np.stack([0 * hb, 0 * hb, hb], -1)
                s, g, t = rays.setup(rng, c, q, 2, 2, ut=ut, bs=bs, los=str(los).lower())
                sh = (q, 2, 2)
                for kind in ([rays.ANG[(i + 2 * los) % 4]] if not ctx.thorough else rays.ANG):
                    P = rng.uniform(.02, .4, sh + (int(s.num_clusters_max),))
                    P[..., 0] = 1
                    k = 10 ** rng.uniform(0, 1.5, sh)
                    sp = rng.uniform(2., 8., sh)
                    P = P / P.sum(-1, keepdims=True)
                    a = getattr(g, rays.CALL[kind])(T(sp), T(k), T(P))
                    ep.add("astats", cfg=rays.cfg_of(c), los=los, kind=kind, spread=sp.reshape(-1), k=k.reshape(-1),
                           P=P.reshape(n, -1), a=np.asarray(a).reshape(n, P.shape[-1], -1),
                           ut=np.repeat(ut[:, None], 2, 1).reshape(n, 3), bs=np.repeat(bs, 2, 1).reshape(n, 3))
                    ctx.count("sampled_links", n)
            common.guarded(ep, go)
        ep = ctx.episode(**c, kind="coupling", nomutate=True)

        def go2():
            sut.seed(rng.integers(1 << 30))
            m = 120
            s, g, t = rays.setup(rng, c, m, 2, 1, los=c["los"])
            nc = int(s.num_clusters_max)
            tag = 100. * np.arange(m * 2 * nc).reshape(m, 2, 1, nc)
            a = T(tag[..., None] + np.arange(1., 21.))
            o = dict(zip(rays.ANG, g._random_coupling(a, a, a, a)))
            ep.add("couple", tag=tag.reshape(-1), out={k: np.asarray(v).reshape(-1, 20) for k, v in o.items()})
            s, g, t = rays.setup(rng, c, 100, 2, 2, los="drawn")
            x = np.asarray(g._cross_polarization_power_ratios())
            ep.add("xpr", cfg=rays.cfg_of(c), lospl=np.asarray(s.los).reshape(-1), x=x.reshape((-1,) + x.shape[3:]))
            # the same of the public call: far-off UTs of low BSs
            los = bool(rng.random() < .5)
            m, nl = 120, 2
            hb, az = rng.uniform(8e3, 1e5, (m, nl)), rng.uniform(-np.pi, np.pi, (m, 1))
            ut = np.stack([3e6 * np.cos(az), 3e6 * np.sin(az), rng.uniform(1, 9, (m, 1))], -1)
            s, g, t = rays.setup(rng, c, m, nl, 1, ut=ut, bs=np.stack([0 * hb, 0 * hb, hb], -1), los=str(los).lower())
            v = rays.lsp_values(rng, (m, nl, 1))
            for q in ("zsa", "zsd"):
                v[q] = rng.uniform(.1, .5, v[q].shape)
            r = g(sut.ntn.LSP(**{n: T(x) for n, x in v.items()}))
            used = int(s.num_clusters_los if los else s.num_clusters_nlos)
            flat = lambda x: np.asarray(x)[..., :used, :].reshape(-1, 20)
            ep.add("pcouple", cfg=rays.cfg_of(c), los=los, rays={q: flat(getattr(r, q)) for q in rays.ANG})
            x = np.asarray(r.xpr)
            ep.add("xpr", cfg=rays.cfg_of(c), lospl=np.asarray(s.los).reshape(-1), x=x.reshape((-1,) + x.shape[3:]))
        common.guarded(ep, go2)
