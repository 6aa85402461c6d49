"""N20: conversions between impulse response, frequency response and taps.  TLC checks the OFDM sampling machine and
the agreement of both ways to the frequency response, and enumerates configurations; the outputs of the real
functions are compared value by value."""
import numpy as np
from .. import common

TRACE = "Tr_N20"
MUTATE = ["out@freq", "out@taps", "out@ofdm", "freq@ranges", "t@ranges", "f@ranges", "lmax@ranges"]


def run(ctx):
    ctx.model_check("MC_N20", "MC_N20" + ("_full" if ctx.thorough else ""))
    cases = ctx.generate("MC_N20", "Gen_N20")
    from .. import sut
    from sionna.phy.ofdm import ResourceGrid
    tf, rng, u = sut.tf, ctx.rng, sut.ntnutils
    skip = [c for c in cases if c["kind"] == "ranges" and (c["norm"] or c["tau6"] or c["zero"] or c["ants"] == "mimo")]
    cases = [c for c in cases if c not in skip]
    for c in common.cover(ctx, cases, 900 if ctx.thorough else 160):
        ep = ctx.episode(**c)

        def go():
            dbl = c["prec"] == "double"
            cd, rd = (tf.complex128, tf.float64) if dbl else (tf.complex64, tf.float32)
            rnd = lambda x: float(x) if dbl else float(np.float32(x))
            base = {"prec": c["prec"]}
            ctx.count("conversions")
            num = {"even": 2 * int(rng.integers(1, 9)), "odd": 2 * int(rng.integers(1, 9)) + 1, "one": 1}[c["size"]]
            if c["kind"] == "ranges":
                m = {"even": 2 * int(rng.integers(1, 40)), "odd": 2 * int(rng.integers(1, 40)) + 1, "one": 1}[c["size"]]
                if c["links"] == "many":
                    num = num * 64 if num % 2 == 0 else num + 600
                sp, dur, tm = float(rng.choice([15e3, 30e3, 120e3, rng.uniform(1, 1e5)])), float(rng.uniform(1e-6, 3)), rng.uniform(0, 2e-5)
                if not dbl:
                    dur = rnd(dur)
                w = float(rng.choice([1e6, 30.72e6, rng.uniform(1e5, 1e8)]))
                fr = u.subcarrier_frequencies(num, sp, c["prec"])
                t, f = u.time_frequency_vector(m, dur, c["prec"])
                l0 = u.time_lag_discrete_time_channel(w)
                l1 = u.time_lag_discrete_time_channel(w, tm)
                ep.add("ranges", n=num, m=m, spacing=sp, dur=dur, freq=fr, t=t, f=f, w=w, tmax=tm, lmin=int(l1[0]), lmax=int(l1[1]),
                       lmin0=int(l0[0]), lmax0=int(l0[1]), types=[fr.dtype.name, t.dtype.name, f.dtype.name], **base)
                return
            nl = (1, 1, 1) if c["links"] == "one" else tuple(int(x) for x in rng.integers(1, 4, 3))
            na = (1, 1) if c["ants"] == "siso" else tuple(int(x) for x in rng.integers(1, 4, 2))
            nt = 1 if c["times"] == "one" else int(rng.integers(2, 5))
            w = rnd(rng.choice([1e6, 30.72e6, rng.uniform(1e5, 1e8)]))
            num = num if c["size"] != "one" else 1
            l_min = -int(rng.integers(0, 7))
            l_max = int(rng.integers(0, 9))
            fft = l_max - l_min + 1 + int(rng.integers(0, 6))
            cp = int(rng.integers(0, 4))
            nsym = int(rng.integers(1, 4))
            if c["kind"] == "chain":
                nt = nsym * (fft + cp) + (0 if rng.random() < .7 else int(rng.integers(1, 5)))
                nl, na = (1, 1, 1), (1, 1)
            npath = int(rng.integers(1, 7))
            dim = [nl[0], nl[1], na[0], nl[2], na[1], npath, nt]
            a = rng.normal(size=dim) + 1j * rng.normal(size=dim)
            tau = rng.uniform(0, 8 / w, dim[:6] if c["tau6"] else (dim[0], dim[1], dim[3], npath))
            tau[..., 0] = 0
            if rng.random() < .3:
                tau = np.round(tau * w) / w
            if c["zero"]:
                a[rng.integers(nl[0]), rng.integers(nl[1]), :, rng.integers(nl[2])] = 0
            if not dbl:
                a, tau = a.astype(np.complex64), tau.astype(np.float32)
            base.update(dim=dim, norm=bool(c["norm"]), tau6=bool(c["tau6"]))
            ta, tt = tf.constant(a, cd), tf.constant(tau, rd)
            if c["kind"] == "freq":
                x = np.asarray(u.subcarrier_frequencies(num, w / 16, c["prec"])) if rng.random() < .5 else rng.uniform(-w, w, num)
                x = x.astype(np.float64 if dbl else np.float32)
                out = u.cir_to_ofdm_channel(tf.constant(x, rd), ta, tt, normalize=c["norm"])
                ep.add("freq", x=x, a=a, tau=tau, out=out, type=out.dtype.name, **base)
                return
            if rng.random() < .5:
                out = u.cir_to_time_channel(w, ta, tt, l_min, l_max, normalize=c["norm"])
            else:
                out = u.cir_to_time_channel(tf.constant(w, rd), ta, tt, tf.constant(l_min), tf.constant(l_max), normalize=c["norm"])
            if c["kind"] == "taps":
                ep.add("taps", x=list(range(l_min, l_max + 1)), w=w, a=a, tau=tau, out=out, type=out.dtype.name, **base)
                return
            rg = ResourceGrid(num_ofdm_symbols=nsym, fft_size=fft, subcarrier_spacing=w / fft, cyclic_prefix_length=cp)
            h = out
            out = u.time_to_ofdm_channel(h, rg, l_min)
            ep.add("ofdm", h=h[0, 0, 0, 0, 0], out=out[0, 0, 0, 0, 0], fft=fft, cp=cp, nts=int(rg.num_time_samples), lmin=l_min,
                   type=out.dtype.name, **base)
        common.guarded(ep, go)
