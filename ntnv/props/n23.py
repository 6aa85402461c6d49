"""N23: correlation matrices, angle conversions and Bernoulli samples.  TLC checks the theorems on the definitions
(Hermitian, positive semidefinite, unit diagonal, inverse conversions); the outputs of the real functions are compared
value by value, and Bernoulli samples by frequencies."""
import numpy as np
from .. import common

TRACE = "Tr_N23"
MUTATE = ["r@exp", "r@ring", "rad@angle", "deg@angle", "wrap@angle"]


def run(ctx):
    ctx.model_check("MC_N23", "MC_N23" + ("_full" if ctx.thorough else ""))
    cases = ctx.generate("MC_N23", "Gen_N23")
    from .. import sut
    tf, rng, u = sut.tf, ctx.rng, sut.ntnutils
    for c in common.cover(ctx, cases, 1500 if ctx.thorough else 300):
        ep = ctx.episode(**c)

        def go():
            prec = {"default": None}.get(c["prec"], c["prec"])
            base = {"prec": "single" if prec is None else prec}
            dims = [int(x) for x in rng.integers(1, 4, c["rank"])]
            rd = np.float64 if prec == "double" else np.float32
            cd = np.complex128 if prec == "double" else np.complex64
            kw = {} if c["defaults"] and prec is None else {"precision": prec}
            ctx.count(c["kind"])
            if c["kind"] in ("exp", "refused"):
                a = rng.uniform(0, 1, dims) * np.exp(2j * np.pi * rng.uniform(size=dims))
                a = np.asarray(a)
                if c["special"] == "zero":
                    a = np.where(rng.random(dims) < .6, 0, a)
                if c["special"] == "edge":
                    a = .9995 * a / np.abs(a)
                a = np.array(a)
                if c["kind"] == "refused":
                    a.flat[rng.integers(a.size)] = {"none": 1.0001, "zero": -2j, "edge": 1.}[c["special"]]
                a = a.astype(cd)
                arg = complex(a) if c["rank"] == 0 and rng.random() < .5 and c["kind"] == "exp" else tf.constant(a)
                if c["kind"] == "refused":
                    try:
                        u.exp_corr_mat(arg, c["n"], **kw)
                        ok = True
                    except (tf.errors.InvalidArgumentError, AssertionError, ValueError):
                        ok = False
                    ep.add("refused", ok=ok, **base)
                    return
                r = u.exp_corr_mat(arg, c["n"], **kw)
                ep.add("exp", a=a.reshape(-1), n=c["n"], dims=dims, out=list(r.shape), r=np.asarray(r).reshape(-1, c["n"], c["n"]),
                       type=r.dtype.name, **base)
            elif c["kind"] == "ring":
                phi = np.asarray(rng.uniform(-180, 180, dims), rd)
                if c["special"] == "edge":
                    phi = np.asarray(rng.choice([-180, -90, 0, 90, 180], dims), rd)
                sigma, d = (15., .5) if c["defaults"] else (float(rng.uniform(.1, 15)), float(rng.uniform(.1, 2)))
                if c["special"] == "zero":
                    sigma = 0.
                more = {} if c["defaults"] and sigma else {"d_h": d, "sigma_phi_deg": sigma}
                r = u.one_ring_corr_mat(tf.constant(phi) if dims else float(phi), c["n"], **more, **kw)
                ep.add("ring", phi=phi.reshape(-1), sigma=sigma, d=d, n=c["n"], dims=dims, out=list(r.shape),
                       r=np.asarray(r).reshape(-1, c["n"], c["n"]), type=r.dtype.name, **base)
            elif c["kind"] == "angle":
                x = np.asarray(rng.uniform(-1000, 1000, dims), rd)
                if c["special"] == "edge":
                    x = np.asarray(rng.choice([-720, -360, -180, 0, 180, 360, 540, 359.5], dims), rd)
                if c["special"] == "zero":
                    x = np.asarray(rng.uniform(-.01, .01, dims), rd)
                v, w, z = u.deg_2_rad(tf.constant(x)), u.rad_2_deg(tf.constant(x)), u.wrap_angle_0_360(tf.constant(x))
                same = v.shape == w.shape == z.shape and v.dtype == w.dtype == z.dtype
                ep.add("angle", x=x.reshape(-1), rad=np.asarray(v).reshape(-1), deg=np.asarray(w).reshape(-1),
                       wrap=np.asarray(z).reshape(-1), dims=dims, out=list(v.shape) if same else None, type=v.dtype.name, **base)
            else:
                sut.seed(int(rng.integers(1 << 30)))
                n, m = 2000, 3
                p = {"none": rng.uniform(0, 1, m), "zero": np.array([0., .5, 0.]), "edge": np.array([0., 1., .03])}[c["special"]]
                p = p.astype(rd)
                z = u.sample_bernoulli([n, m], tf.constant(p), **kw)
                y = np.asarray(z)
                i, j = (int(x) for x in rng.choice(m, 2, replace=False))
                ep.add("coin", p=p, n=n, hits=y.sum(0), both=float(p[i]) * float(p[j]), pairs=int((y[:, i] & y[:, j]).sum()),
                       dims=[n, m], out=list(z.shape), type=z.dtype.name, **base)
        common.guarded(ep, go)
