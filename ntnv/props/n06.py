"""N06: slant range and LoS angles.  TLC proves the theorems of the geometry on a grid, enumerates
configurations; the scenarios' derived geometry for them is recorded and judged link by link."""
import numpy as np
from .. import common

TRACE = "Tr_N06"
MUTATE = ["d2", "d3", "aod", "aoa", "zod", "zoa", "dut", "d2in", "d2out", "d3in", "d3out", "cor"]


def run(ctx):
    ctx.model_check("MC_N06", "MC_N06_full" if ctx.thorough else "MC_N06")
    cases = ctx.generate("MC_N06", "Gen_N06")
    from .. import sut
    sel = common.cover(ctx, cases, 600 if ctx.thorough else 70)
    for c in sel:
        c = common.vary(ctx, c, .15, 200)
        rng = ctx.rng
        ep = ctx.episode(**c)

        def go():
            s = sut.scenario(c)
            for rep in range(3):
                h = rng.choice([20e3, 159e3, 600e3, 1200e3, 35786e3], (c["b"], c["nb"])) * rng.uniform(.97, 1.03, (c["b"], c["nb"]))
                if rep == 2:      # the formulas hold for any coordinates: BSs around and below the UTs
                    h = rng.uniform(.5, 40, (c["b"], c["nb"]))
                if c["heights"] == "same":
                    h = np.full_like(h, h[0, 0])
                t = sut.random_topo(rng, c["b"], c["nb"], c["nu"], h, spread=10 ** rng.uniform(1, 5))
                if rng.random() < .3:      # axis-aligned and far-off links
                    t["ut_loc"][..., rng.integers(2)] = t["bs_loc"][0, 0, 0]
                t["in_state"] = rng.random((c["b"], c["nu"])) < rng.choice([0., .5, 1.])
                a = sut.topo_args(t, c["prec"])
                if rng.random() < .5:
                    a["los"] = bool(rng.random() < .5)
                s.set_topology(**a)
                cd = float(10 ** rng.uniform(.5, 3))
                ep.add("geo", ind=t["in_state"], d2in=s.distance_2d_in, d2out=s.distance_2d_out, d3in=s.distance_3d_in,
                       d3out=s.distance_3d_out, cd=cd, cor=s.spatial_correlation_matrix(cd), prec=c["prec"], el=float(c["el"]), ut=a["ut_loc"], bs=a["bs_loc"],
                       d2=s.distance_2d, d3=s.distance_3d, aod=s.los_aod, aoa=s.los_aoa, zod=s.los_zod,
                       zoa=s.los_zoa, dut=s.matrix_ut_distance_2d)
                ctx.count("links", c["b"] * c["nb"] * c["nu"])
        common.guarded(ep, go)
