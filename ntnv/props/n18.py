"""N18: generated topologies.  TLC checks the dropping machine (square, relocation, orientation) and enumerates
which parameters are given and how; the real topologies are judged UT by UT, and must be accepted by a model."""
import numpy as np
from .. import common

TRACE = "Tr_N18"
MUTATE = ["uto@topo", "bs@topo", "ind@topo", "bso@topo", "out@params", "out@relocate"]
NAMES = ("isd", "bs_height", "elevation_angle", "min_ut_height", "max_ut_height", "indoor_probability",
         "min_ut_velocity", "max_ut_velocity")


def run(ctx):
    ctx.model_check("MC_N18", "MC_N18" + ("_full" if ctx.thorough else ""))
    cases = ctx.generate("MC_N18", "Gen_N18")
    from .. import sut
    tf, rng, u = sut.tf, ctx.rng, sut.ntnutils

    def draw():
        h = float(rng.choice([6e5, rng.uniform(6e5, 2e6), rng.uniform(6e5, 2e6), rng.uniform(2e4, 4e5), 36e6]))
        lo, hi = sorted(rng.uniform(1, 60, 2))
        vlo, vhi = sorted(rng.uniform(0, 200, 2))
        return dict(isd=float(rng.choice([200, 500, 5000, rng.uniform(50, 2e4)])), bs_height=h,
                    elevation_angle=float(rng.choice([10, 30, 90, 45, 80, rng.uniform(10, 89)])), min_ut_height=float(lo),
                    max_ut_height=float(hi), indoor_probability=0.0, min_ut_velocity=float(vlo), max_ut_velocity=float(vhi))

    for c in common.cover(ctx, cases, 700 if ctx.thorough else 150):
        ep = ctx.episode(**c)

        def go():
            prec = c["prec"] if c["prec"] != "none" else None
            rd = sut.rdt(c["prec"])
            val = draw()
            if c["how"] == "int":
                val = {k: float(round(v)) for k, v in val.items()}
            if c["prec"] != "double":
                val = {k: float(np.float32(v)) for k, v in val.items()}
            keep = {"none": (), "one": (c["one"],), "all": NAMES, "heights": ("min_ut_height", "max_ut_height", "bs_height"),
                    "speeds": ("min_ut_velocity", "max_ut_velocity"), "isd": ("isd", "elevation_angle")}[c["give"]]
            # a single limit must leave the range consistent with the default of the other one
            if c["give"] == "one" and c["one"] == "min_ut_height":
                val["min_ut_height"] = 1.0
            if c["give"] == "one":
                val["min_ut_velocity"], val["max_ut_height"] = 0., max(2., val["max_ut_height"])
            if c["fn"].startswith("uts"):
                keep = NAMES
            given = {k: (val[k] if k in keep else None) for k in NAMES}
            conv = {"python": float, "int": int, "tensor": lambda v: tf.constant(v, rd)}[c["how"]]
            args = {k: conv(v) if k != "indoor_probability" else (tf.constant(v, rd) if c["how"] == "tensor" else v)
                    for k, v in given.items() if v is not None}
            if c["give"] == "one" and c["one"] == "min_ut_height" and c["how"] == "int":
                args["min_ut_height"] = 1
            b, nu = {"one": (1, 1), "small": (int(rng.integers(1, 4)), int(rng.integers(1, 6))),
                     "large": (int(rng.integers(1, 4)), int(rng.integers(100, 200)))}[c["sz"]]
            pt = c["prec"]
            base = dict(scn=c["scn"], given=given, prec=pt, b=b, nu=nu)
            ctx.count("calls")
            sut.seed(int(rng.integers(1 << 30)))
            dt = lambda **k: {n: (v.dtype.name if hasattr(v, "dtype") else "?") for n, v in k.items()}
            if c["fn"] == "params":
                out = u.set_3gpp_scenario_parameters(c["scn"], precision=prec, **args)
                ep.add("params", out=[float(x) for x in out], **base)
            elif c["fn"] == "drop":
                x = u.drop_uts_in_sector(b, nu, args["bs_height"], args["elevation_angle"], args["isd"], precision=prec)
                ep.add("drop", ut=x, types=dt(ut=x), **base)
            elif c["fn"] == "relocate":
                loc = rng.uniform(-1e5, 1e5, (b, nu, 2))
                form = rng.integers(4)
                sec = [rng.integers(0, 3), rng.integers(0, 3, (nu,)), rng.integers(0, 3, (b, nu)), rng.integers(0, 3, (b, 1))][form]
                cell = [rng.uniform(-1e6, 1e6, 2), rng.uniform(-1e6, 1e6, (b, nu, 2))][rng.integers(2)]
                out = u.relocate_uts(tf.constant(loc, rd), tf.constant(sec, tf.int32), tf.constant(cell, rd))
                base["given"] = {}
                ep.add("relocate", loc=loc, sector=np.broadcast_to(sec, (b, nu)), cell=np.broadcast_to(cell, (b, nu, 2)), out=out,
                       types=dt(out=out), **base)
            else:
                cell = np.zeros(2)
                if c["fn"] == "gen":
                    t = u.gen_single_sector_topology(batch_size=b, num_ut=nu, scenario=c["scn"], precision=prec, **args)
                    ut, bs, uto, bso, vel, ind = t
                    tp = dt(ut=ut, bs=bs, uto=uto, bso=bso, vel=vel, ind=ind)
                    area = "sector"
                else:
                    area = c["fn"][4:]
                    cell = rng.uniform(-1e5, 1e5, 2) * rng.integers(0, 2)
                    ut, uto, vel, ind = u.generate_uts_topology(b, nu, area, tf.constant(cell, rd), precision=prec, **args)
                    bs = bso = None
                    tp = dt(ut=ut, uto=uto, vel=vel, ind=ind)
                ep.add("topo", fn=c["fn"], area=area, cell=cell, ut=ut, bs=bs, uto=uto, bso=bso, vel=vel, ind=ind, types=tp, **base)
                ctx.count("uts", b * nu)
                if c["fn"] == "gen" and c["sz"] != "large":
                    el = given["elevation_angle"] or 80.
                    s = sut.scenario({"scn": c["scn"], "f": 2.0, "dir": "uplink", "el": el, "prec": "double" if pt == "double" else "single"})
                    s.set_topology(ut, bs, uto, bso, vel, ind)
                    ep.add("accepted", d3d=s.distance_3d, outdoor=not bool(np.any(np.asarray(s.indoor))), **base)
        common.guarded(ep, go)
