"""N26: channel models inside link-level chains.  TLC checks the machine of topologies and requests and the theorems on
both request forms and on the blocks, and enumerates configurations and histories of use; real chains of Sionna's blocks and
the channel models are run, what the blocks ask and get is recorded, and every response and received signal is judged."""
import numpy as np
from .. import common

TRACE = "Tr_N26"
MUTATE = ["a@call", "a@ofdm", "h@ofdm", "y@ofdm", "a@time", "h@time", "y@time", "args@ofdm"]


def run(ctx):
    ctx.model_check("MC_N26", "MC_N26" + ("_full" if ctx.thorough else ""))
    ctx.model_check("MC_N26", "MC_N26_link")
    cases = ctx.generate("MC_N26", "Gen_N26")
    cfgs, hist = [c["cfg"] for c in cases if "cfg" in c], [c["ops"] for c in cases if "ops" in c]
    from .. import sut
    from sionna.phy.channel import OFDMChannel, TimeChannel
    from sionna.phy.ofdm import ResourceGrid
    tf, rng, ntn = sut.tf, ctx.rng, sut.ntn

    class Asked:
        """Stands for the channel model in a block and notes what the block asks and gets."""

        def __init__(self, model):
            self.model, self.log = model, []

        def __call__(self, *args):
            r = self.model(*args)
            self.log.append((args, r))
            return r

    cfgs = [c for c in cfgs if c["model"] != "tdl" or (c["nb"] == 1 and c["nu"] == 1 and c["dir"] == "downlink" and c["doppler"])]
    slow = lambda c: c["mode"] != "eager" and c["model"] != "tdl"     # tracing takes its time
    chosen = common.cover(ctx, [c for c in cfgs if not slow(c)], 220 if ctx.thorough else 34) + \
        common.cover(ctx, [c for c in cfgs if slow(c)], 40 if ctx.thorough else 6)
    for c in chosen:
        ops = hist[rng.integers(len(hist))]
        ep = ctx.episode(ops=ops, **c)

        def go():
            prec, sys = c["prec"], c["model"] != "tdl"
            dt = sut.rdt(prec)
            cdt = tf.complex128 if prec == "double" else tf.complex64
            f, el = float(rng.choice([2.0, 3.5, 20.0, 30.0])), float(rng.uniform(30, 90))
            if sys:
                arr = lambda n: sut.array(f, cols=n, pol="dual" if c["dual"] else "single", ptype="VH" if c["dual"] else "V", prec=prec)
                ua, ba = arr(1), arr(1 if c["dual"] else int(rng.integers(1, 3)))
                model = sut.model({"scn": c["model"], "dir": c["dir"], "f": f, "el": el, "prec": prec}, ua, ba,
                                  enable_shadow_fading=False, doppler_enabled=bool(c["doppler"]), always_generate_lsp=bool(rng.random() < .5))
                nra, nta = (ua, ba) if c["dir"] == "downlink" else (ba, ua)
                nra, nta = int(nra.num_ant), int(nta.num_ant)
            else:
                nra, nta = int(rng.integers(1, 3)), int(rng.integers(1, 3))
                model = ntn.TDL(str(rng.choice(list("ABCD"))), 1e-7, f * 1e9, num_rx_ant=nra, num_tx_ant=nta,
                                min_speed=float(rng.uniform(1, 30)), elevation_angle=el, precision=prec)
            ep.add("cfg", nra=nra, nta=nta, f=f, el=el, **{k: c[k] for k in ("model", "dir", "prec", "doppler", "norm")})
            state = {}
            heights = [600e3, 35786e3]

            def update():
                b, nu, nb = 1 + int(rng.random() < .7), (1 + int(rng.integers(c["nu"])) if state else c["nu"]), c["nb"]
                if not sys:
                    nu = nb = 1
                h = heights[state.get("v", int(rng.integers(2))) % 2]
                t = sut.random_topo(rng, b, nb, nu, height=h, speed=0.)
                t["ut_orientations"] *= 0
                t["bs_orientations"] *= 0
                state.update(v=heights.index(h) + 1, b=b, nu=nu, nb=nb, t={k: v for k, v in sut.topo_args(t, prec).items()})
                if sys and c["mode"] == "eager":
                    model.set_topology(los=True, **state["t"])
                ep.add("topo", b=b, nu=nu, nb=nb, height=h)

            blocks = {}

            def compiled(key, fn):
                """fn(*inputs) of the present topology, eagerly or compiled (one function for all topologies)."""
                if c["mode"] == "eager":
                    return fn
                if key not in blocks:
                    def whole(topo, *inputs):
                        if sys:
                            model.set_topology(los=True, **topo)
                        return fn(*inputs)
                    blocks[key] = tf.function(whole, jit_compile=c["mode"] == "xla")
                return lambda *inputs: blocks[key](state["t"], *inputs)

            cplx = lambda s: tf.constant(rng.normal(size=s) + 1j * rng.normal(size=s), cdt)
            nsym, fft, cp, spacing = int(rng.integers(1, 4)), int(rng.integers(2, 7)), int(rng.integers(0, 3)), float(rng.choice([15e3, 60e3]))
            ns, w = int(rng.integers(1, 5)), float(rng.choice([1e6, 5e6]))
            lmin, lmax = -int(rng.integers(0, 3)), int(rng.integers(1, 4))
            n, fs = int(rng.integers(1, 5)), float(rng.choice([1e3, 1e5, 1e7]))
            kw = dict(normalize_channel=bool(c["norm"]), return_channel=True, precision=prec)
            chans = {}

            def block(kind):
                """One block of each kind serves the whole history."""
                if kind not in chans:
                    asked = Asked(model)
                    ntx = (state["nu"] if c["dir"] == "uplink" else state["nb"]) if sys else 1
                    if kind == "ofdm":
                        rg = ResourceGrid(num_ofdm_symbols=nsym, fft_size=fft, subcarrier_spacing=spacing, num_tx=ntx,
                                          num_streams_per_tx=nta, cyclic_prefix_length=cp, precision=prec)
                        ch = OFDMChannel(asked, rg, **kw)
                    else:
                        ch = TimeChannel(asked, w, ns, l_min=lmin, l_max=lmax, **kw)

                    def fn(x):
                        asked.log.clear()
                        y, h = ch(x)
                        (args, (a, tau)), = asked.log
                        state["args"] = args
                        return y, h, a, tau, [tf.cast(z, tf.float64) for z in args]
                    chans[kind] = compiled(kind, fn)
                return chans[kind]

            def direct(args, s):
                """The same request in the short form from the same random state."""
                if c["mode"] != "eager":
                    return {}
                sut.seed(s)
                a, tau = model(*(args[-2:] if sys else args))
                return {"a2": a, "tau2": tau}

            update()
            for op in ops:
                s = int(rng.integers(1 << 30))
                b, ntx = state["b"], (state["nu"] if c["dir"] == "uplink" else state["nb"]) if sys else 1
                sut.seed(s)
                if op == "update":
                    update()
                elif op in ("two", "three"):
                    m = b if rng.random() < .5 and c["mode"] == "eager" else n     # numbers that may be taken for each other
                    args = [m, fs] if op == "two" and sys else [b, m, fs]
                    a, tau = compiled("call%d" % len(args), lambda: model(*args))()
                    ctx.count("impulse responses")
                    ep.add("call", args=args, a=a, tau=tau, **(direct(args, s) if op == "three" else {}))
                else:
                    x = cplx((b, ntx, nta, nsym, fft) if op == "ofdm" else (b, ntx, nta, ns))
                    y, h, a, tau, args = block(op)(x)
                    again = direct(state["args"], s)
                    args = [float(z) for z in args]
                    args = [int(round(z)) for z in args[:-1]] + [args[-1]]
                    ctx.count("signals")
                    more = dict(nsym=nsym, fft=fft, cp=cp, spacing=spacing, grid=[(k - fft // 2 if fft % 2 == 0 else k - (fft - 1) // 2) * spacing
                                for k in range(fft)]) if op == "ofdm" else dict(w=w, grid=list(range(lmin, lmax + 1)))
                    ep.add(op, args=args, a=a, tau=tau, x=x, y=y, h=h, **more, **again)
        common.guarded(ep, go)
