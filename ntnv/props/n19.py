"""N19: tapped delay lines.  TLC checks the machine of a model's life (the delay spread in force), the profiles and
the theorems on correlated samples, and enumerates configurations; delays, powers, correlation, aging and statistics of
the real model are judged."""
import numpy as np
from .. import common

TRACE = "Tr_N19"
MUTATE = ["ok@create", "delays@props", "powers@props", "plos@props", "k@props", "ds@props", "tau@call", "y@gram", "a@evolve"]
C0 = 299792458.0


def corr(rng, n):
    """a random correlation matrix, well away from singular"""
    a = rng.normal(size=(n, 2 * n)) + 1j * rng.normal(size=(n, 2 * n))
    r = a @ a.conj().T
    d = np.sqrt(np.real(np.diag(r)))
    return .8 * r / np.outer(d, d) + .2 * np.eye(n)


def run(ctx):
    ctx.model_check("MC_N19", "MC_N19" + ("_full" if ctx.thorough else ""))
    cases = ctx.generate("MC_N19", "Gen_N19")
    from .. import sut
    tf, rng, TDL = sut.tf, ctx.rng, sut.ntn.TDL
    good, bad = [], []
    for c in cases:
        c = {**c, "ants": list(c["ants"])}
        isbad = c["name"] in "EF" or c["speed"] == "wrong" or c["el"] in ("90.1", "-1") or c["h"] == "159999"
        (bad if isbad else good).append(c)

    def kwargs(c, rd=float):
        nrx, ntx = c["ants"]
        vmin = {"zero": 0., "fixed": float(rng.uniform(.5, 50)), "range": float(rng.uniform(0, 20)), "wrong": 10.}[c["speed"]]
        vmax = {"zero": None, "fixed": None if rng.random() < .5 else vmin, "range": vmin + float(rng.uniform(1, 50)), "wrong": 9.}[c["speed"]]
        kw = dict(num_sinusoids=c["sin"], min_speed=vmin, max_speed=vmax, num_rx_ant=nrx, num_tx_ant=ntx, basestation_height=float(c["h"]),
                  elevation_angle=float(c["el"]), precision=c["prec"], los_angle_of_arrival=float(rng.uniform(-1.2, 1.2)))
        return kw, float(rng.choice([2e9, 20e9, rng.uniform(1e9, 3e10)]))

    def create(ep, c, kw, ds, fc, **more):
        try:
            m, err = TDL(c["name"], ds, fc, **kw, **more), ""
        except AssertionError as x:
            m, err = None, str(x)
        ep.add("create", name=c["name"], ds=ds, h=c["h"], el=c["el"], vmin=kw["min_speed"], vmax=kw["max_speed"] or 0,
               vmaxgiven=kw["max_speed"] is not None, ok=m is not None, err=err)
        return m

    def props(ep, m, c):
        los = bool(m.los)
        ep.add("props", prec=c["prec"], los=los, delays=m.delays, powers=m.mean_powers, ds=float(np.asarray(m.delay_spread)), ncl=int(m.num_clusters),
               **(dict(k=float(m.k_factor), plos=float(m.mean_power_los)) if los else {}))

    def call(ep, m, c, kw, gain, b=None):
        b, nt, fs = b or int(rng.integers(1, 4)), int(rng.integers(1, 5)), float(10 ** rng.uniform(2, 6))
        a, tau = m(b, nt, fs)
        av = np.asarray(a)
        ep.add("call", prec=c["prec"], b=b, nt=nt, rx=c["ants"][0], tx=c["ants"][1], shape=list(a.shape), tau=tau, sin=c["sin"], gain=gain,
               a=av.ravel(), peak=(np.abs(av) ** 2).max((0, 1, 2, 3, 4, 6)), types=[a.dtype.name, tau.dtype.name])

    for c in common.cover(ctx, bad, 400 if ctx.thorough else 40):
        ep = ctx.episode(**c)
        common.guarded(ep, lambda: create(ep, c, *(lambda k, f: (k, 1e-7, f))(*kwargs(c))))
        ctx.count("refused")
    for c in common.cover(ctx, good, 1500 if ctx.thorough else 130):
        ep = ctx.episode(**c)

        def go():
            kw, fc = kwargs(c)
            nrx, ntx = c["ants"]
            ds = float(10 ** rng.uniform(-9, -5))
            if c["corr"] == "full":
                rr, rt = corr(rng, nrx * ntx), np.ones((1, 1))
                more = {"spatial_corr_mat": rr}
            else:
                rr = corr(rng, nrx) if c["corr"] in ("rx", "both") else np.eye(nrx)
                rt = corr(rng, ntx) if c["corr"] in ("tx", "both") else np.eye(ntx)
                more = {k: v for k, v, on in (("rx_corr_mat", rr, c["corr"] in ("rx", "both")), ("tx_corr_mat", rt, c["corr"] in ("tx", "both"))) if on}
            gain = 1. if c["corr"] == "none" else float(np.sqrt(nrx * ntx))
            if more:
                s = int(rng.integers(1 << 30))
                ref, m = TDL(c["name"], ds, fc, **kw), create(ep, c, kw, ds, fc, **more)
                out = []
                for x in (ref, m):
                    sut.seed(s)
                    v = np.asarray(x(2, 2, 1e3)[0])[:, 0, :, 0, :].transpose(0, 3, 4, 1, 2).reshape(-1, nrx, ntx)
                    out.append(v[::max(1, len(v) // 6)][:6])
                if c["corr"] == "full":
                    out = [v.reshape(len(v), nrx * ntx, 1) for v in out]
                z = lambda v: np.asarray(v, complex)
                ep.add("gram", prec=c["prec"], x=out[0], y=out[1], rr=z(rr), rt=z(rt), qr=z(np.linalg.inv(rr)), qt=z(np.linalg.inv(rt)))
                ctx.count("correlated")
            else:
                m = create(ep, c, kw, ds, fc)
            props(ep, m, c)
            call(ep, m, c, kw, gain)
            for k in range({"none": 0, "one": 1, "two": 2}[c["set"]]):
                v = float(10 ** rng.uniform(-9, -4.5))
                m.delay_spread = v if rng.random() < .5 else tf.constant(v, sut.rdt(c["prec"]))
                ep.add("set", v=v)
                if rng.random() < .8 or k == 1:
                    call(ep, m, c, kw, gain)
                props(ep, m, c)
            ctx.count("lives")
        common.guarded(ep, go)

    # one sinusoid, satellite in the zenith: every tap turns at its own constant rate
    n = 12 if ctx.thorough else 2
    for name in ("A", "B", "C", "D", "A30", "B100", "C300"):
        for i in range(n):
            ants = [[1, 2], [2, 2], [3, 1]][int(rng.integers(3))]
            c = dict(name=name, ants=ants, sin=1, speed=("range", "fixed", "zero")[i % 3], el="90", h="600e3", prec="double", kind="evolve")
            ep = ctx.episode(**c)

            def go():
                kw, fc = kwargs(c)
                if abs(np.cos(kw["los_angle_of_arrival"])) < .3:
                    kw["los_angle_of_arrival"] = .4
                m = create(ep, c, kw, 1e-7, fc)
                wmin, wmax = (2 * np.pi * v * fc / C0 for v in (kw["min_speed"], kw["max_speed"] if kw["max_speed"] is not None else kw["min_speed"]))
                fs = max(wmax, 1e-3) * float(rng.uniform(.7, 4))
                a, _ = m(4, 5, fs)
                a = np.asarray(a)[:, 0, :, 0].reshape(4, -1, a.shape[5], 5)
                for b in range(4):
                    ep.add("evolve", name=name, a=a[b].transpose(1, 0, 2), fs=fs, wmin=wmin, wmax=wmax, aoa=kw["los_angle_of_arrival"])
            common.guarded(ep, go)
    # every batch example moves at a speed of its own
    for name in ("A", "B", "C", "D", "A30", "B100", "C300") if ctx.thorough else ("A", "D", "C300"):
        c = dict(name=name, ants=[1, 1], sin=1, speed="range", el="90", h="600e3", prec="double", kind="speeds")
        ep = ctx.episode(nomutate=True, **c)

        def go():
            kw, fc = kwargs(c)
            kw["max_speed"] = 3 * kw["min_speed"] + 10.
            m = create(ep, c, kw, 1e-7, fc)
            wmin, wmax = (2 * np.pi * v * fc / C0 for v in (kw["min_speed"], kw["max_speed"]))
            fs = wmax * float(rng.uniform(.7, 4))
            a, _ = m(80, 2, fs)
            a = np.asarray(a)[:, 0, 0, 0, 0]
            ep.add("speeds", z=a[:, 1:] if m.los else a, fs=fs, wmin=wmin, wmax=wmax)
        common.guarded(ep, go)
    # ensembles
    for name in ("A", "B", "C", "D", "A30", "B100", "C300") if ctx.thorough else ("A", "C", "D", "B100"):
        for sins in (1, 2, 20) if ctx.thorough else (int(rng.choice([1, 2, 20])),):
            c = dict(name=name, ants=[1, 2] if rng.random() < .5 else [2, 1], sin=sins, speed="range" if rng.random() < .5 else "fixed", el="90", h="600e3",
                     prec="double" if rng.random() < .5 else "single", kind="stats")
            ep = ctx.episode(nomutate=True, **c)

            def go():
                kw, fc = kwargs(c)
                m = create(ep, c, kw, 1e-7, fc)
                wmin, wmax = (2 * np.pi * v * fc / C0 for v in (kw["min_speed"], kw["max_speed"] if kw["max_speed"] is not None else kw["min_speed"]))
                k = int(rng.integers(1, 4))
                fs = wmax * k / float(rng.uniform(.3, 4))
                a, _ = m(3000, 5, fs)
                t0 = int(rng.integers(0, 5 - k))
                a = np.asarray(a)[:, 0, :, 0].reshape(3000, 2, -1, 5)
                ep.add("stats", name=name, s=a[..., t0], later=a[:, 0, :, t0 + k], wmin=wmin, wmax=wmax, lag=k / fs, aoa=kw["los_angle_of_arrival"])
            common.guarded(ep, go)
            ctx.count("ensembles")
