"""N04: table lookup.  TLC checks every table column (probabilities, positive definite correlations,
monotonicity) and enumerates all configurations and column limits; the parameters every link is given
are recorded with mixed LoS states and judged entry by entry."""
import json, os
import numpy as np
from .. import common, tlc

TRACE = "Tr_N04"
MUTATE = ["par@params", "mean@params", "std@params", "p@params", "ncl@params", "ncm@params"]
EXHAUSTIVE = True


def run(ctx):
    ctx.model_check("MC_N04")
    cases = ctx.generate("MC_N04", "Gen_N04")
    tab = json.load(open(os.path.join(tlc.SPEC, "data", "tables38811.json")))
    names = sorted(set(tab["dur"]["LOS"]["S"]["downlink"]) - {"LoS_p", "numClusters"})
    from .. import sut
    rng = ctx.rng
    # every (scenario, direction, band, column) at least once, the rest by pairwise cover
    if ctx.thorough:
        sel = common.pick(ctx, cases, None)
    else:
        groups = {}
        for c in common.pick(ctx, cases, None):
            groups.setdefault((c["scn"], c["dir"], float(c["f"]) < 5, round(float(c["el"]) / 10)), []).append(c)
        sel = [g[rng.integers(len(g))] for g in groups.values()]
    for c in sel:
        ep = ctx.episode(**c)
        cfg = {"scn": c["scn"], "dir": c["dir"], "f": float(c["f"]), "el": float(c["el"]), "prec": c["prec"]}

        def go():
            sut.seed(rng.integers(1 << 30))
            s = sut.scenario(c)
            gen = sut.ntn.LSPGenerator(s)
            b, nb, nu = [(1, 2, 3), (2, 1, 3), (2, 2, 2)][rng.integers(3)]
            t = sut.random_topo(rng, b, nb, nu, 600e3)
            # UTs on the ground lie beyond any breakpoint distance
            t["ut_loc"][..., 2] *= rng.random((b, nu)) < .6
            if rng.random() < .3:
                t["bs_loc"][..., 2] = rng.uniform(8e3, 1e5, (b, nb))
                t["ut_loc"][..., :2] *= 10 ** rng.uniform(0, 4)
            a = sut.topo_args(t, c["prec"])
            los = None
            for k in range(8):         # until both LoS states occur
                s.set_topology(**a)
                los = np.asarray(s.los)
                if los.any() and not los.all():
                    break
            par = {n: s.get_param(n) for n in names}
            ep.add("params", **cfg, los=s.los, indoor=a["in_state"], names=names, par=par,
                   mean=s.lsp_log_mean, std=s.lsp_log_std, d2=s.distance_2d,
                   p=s.los_probability, zodoff=s.zod_offset,
                   ncl=int(s.num_clusters_los), ncn=int(s.num_clusters_nlos), ncm=int(s.num_clusters_max))
            gen.topology_updated_callback()
            r = gen()
            ep.add("lsp", **cfg, los=s.los, lsp=[r.ds, r.asd, r.asa, r.sf, r.k_factor, r.zsa, r.zsd])
            ctx.count("links", b * nb * nu)
            ctx.count("mixed_topologies", int(los.any() and not los.all()))
        common.guarded(ep, go)
