"""Helpers shared by the property drivers."""
import traceback
import numpy as np


def pick(ctx, cases, n):
    """n of the cases enumerated by TLC (all in the thorough tier if n is None)."""
    cases = sorted(cases, key=lambda c: sorted((k, str(v)) for k, v in c.items()))
    if n is None or n >= len(cases):
        return cases
    return [cases[i] for i in sorted(ctx.rng.choice(len(cases), n, replace=False))]


def cover(ctx, cases, n, keys=None):
    """n cases chosen greedily so that every pair of values of every two keys is covered early."""
    cases = pick(ctx, cases, None)
    perm = [cases[i] for i in ctx.rng.permutation(len(cases))]
    if n >= len(perm):
        return perm
    keys = keys or sorted({k for c in perm for k in c})
    pool = perm[:3000]

    def pairs(c):
        return {(a, str(c.get(a)), b, str(c.get(b))) for i, a in enumerate(keys) for b in keys[i:]}
    ps = [pairs(c) for c in pool]
    seen, out, left = set(), [], list(range(len(pool)))
    while len(out) < n and left:
        cand = left if len(left) <= 120 else [left[i] for i in ctx.rng.choice(len(left), 120, replace=False)]
        j = max(cand, key=lambda i: len(ps[i] - seen))
        seen |= ps[j]
        out.append(pool[j])
        left.remove(j)
    return out


def vary(ctx, c, sizes=0., most=24):
    """The case with carrier and elevation moved inside their band and table column; with probability `sizes`, with more
    batch examples, BSs and UTs than TLC enumerates."""
    rng, c = ctx.rng, dict(c)
    if "f" in c and rng.random() < .6:
        hz = 1e9 if float(c["f"]) > 1e6 else 1.
        c["f"] = "%.10g" % (hz * round(rng.uniform(*((1.95, 3.95) if float(c["f"]) / hz < 5 else (19.5, 39.5))), 4))
    if "el" in c and rng.random() < .6:
        m = 10 * round(float(c["el"]) / 10)
        c["el"] = "%.3f" % rng.uniform(max(m - 4.9, 10), min(m + 4.9, 90))
    if rng.random() < sizes:
        nb = "nbs" if "nbs" in c else "nb"
        while True:
            z = {"b": int(rng.integers(1, 7)), nb: int(rng.integers(1, 5)), **({"nu": int(rng.integers(1, 13))} if "nu" in c else {})}
            if z["b"] * z[nb] * z.get("nu", 2) <= most:
                break
        c.update({k: v for k, v in z.items() if k in c})
    return c


def guarded(ep, fn, *a, **k):
    """Run code under test; an exception becomes an event no specification accepts."""
    try:
        return fn(*a, **k)
    except Exception as x:  # noqa: BLE001
        ep.add("exception", what="%s: %s" % (type(x).__name__, str(x)[:300]),
               where=traceback.format_exc()[-700:])
        return None
