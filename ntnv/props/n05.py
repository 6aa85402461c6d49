"""N05: admission.  TLC checks that examining the arguments of a model in any order gives the verdict of
Admission and that every accepted model is served by the tables, and enumerates requests at and beyond every
limit; the outcome of the real constructors is compared, and every accepted model must produce a finite channel."""
import numpy as np
from .. import common

TRACE = "Tr_N05"
MUTATE = ["ok@model", "ok@array", "ok@topology", "ok@element"]


def run(ctx):
    ctx.model_check("MC_N05", workers=6)
    cases = ctx.generate("MC_N05", "Gen_N05")
    from .. import sut
    tf, rng, ntn = sut.tf, ctx.rng, sut.ntn
    import sionna.phy.channel.tr38901 as other
    by = {}
    for c in cases:
        if c["kind"] == "model":
            k = "good" if c["ut"]["hz"] == c["hz"] == c["bs"]["hz"] and c["ut"]["kind"] != "foreign" else "pair"
            c = {**c, **{"%s_%s" % (a, b): c[a][b] for a in ("ut", "bs") for b in ("kind", "hz")}}
        else:
            k = c["kind"]
        by.setdefault(k, []).append(c)

    def attempt(f):
        try:
            return True, f(), ""
        except Exception as x:  # noqa: BLE001
            return False, None, "%s: %s" % (type(x).__name__, str(x)[:120])

    arrays = {}

    def make_array(a, prec):
        key = (a["kind"], a["hz"], prec)
        if key not in arrays:
            hz = float(a["hz"])
            if a["kind"] == "panel":
                r = ntn.PanelArray(1, 1, "single", "V", "omni", hz, precision=prec)
            elif a["kind"] == "antenna":
                r = ntn.Antenna("single", "H", "38.901", hz, precision=prec)
            elif a["kind"] == "array":
                r = ntn.AntennaArray(1, 1, "single", "V", "omni", hz, precision=prec)
            elif a["kind"] == "foreign":
                r = other.PanelArray(1, 1, "single", "V", "omni", hz, precision=prec)
            else:
                r = "omni" if a["kind"] == "string" else None
            arrays[key] = r
        return arrays[key]

    n = 1500 if ctx.thorough else 110
    kk = ["scn", "dir", "prec", "form", "hz", "el", "ut_kind", "bs_kind", "ut_hz", "bs_hz"]
    models = common.cover(ctx, by["good"], n * 2, keys=kk) + common.cover(ctx, by["pair"], n, keys=kk)
    for c in models:
        ep = ctx.episode(**c)

        def go():
            num = {"float": float, "int": lambda x: int(float(x)), "numpy": np.float64}[c["form"]]
            el = float(c["el"])
            el = int(el) if c["form"] == "int" and el == int(el) else np.float64(el) if c["form"] == "numpy" else el
            ut, bs = make_array(c["ut"], c["prec"]), make_array(c["bs"], c["prec"])
            ok, m, err = attempt(lambda: sut.MODELS[c["scn"]](
                carrier_frequency=num(c["hz"]), ut_array=ut, bs_array=bs, direction=c["dir"], elevation_angle=el,
                precision=c["prec"]))
            ep.add("model", dir=c["dir"], hz=c["hz"], el=c["el"], ut=c["ut"], bs=c["bs"], ok=ok, err=err)
            if not ok:
                ctx.count("refused")
                return
            ctx.count("accepted")
            if not ctx.thorough and rng.random() < .3:
                return
            b, nb, nu = [int(x) for x in rng.integers(1, 3, 3)]
            if rng.random() < .5:
                nb = 1
                t = sut.ntnutils.gen_single_sector_topology(b, nu, c["scn"], bs_height=float(rng.choice([2e4, 6e5, 35786e3])),
                                                            elevation_angle=float(c["el"]), precision=c["prec"])
                m.set_topology(*t)
            else:
                m.set_topology(**sut.topo_args(sut.random_topo(rng, b, nb, nu, float(rng.choice([2e4, 6e5, 35786e3]))), c["prec"]))
            a, tau = m(1, 1e4)
            nrx, ntx = (nb, nu) if c["dir"] == "uplink" else (nu, nb)
            av, tv = np.asarray(a), np.asarray(tau)
            ep.add("channel", b=b, nrx=nrx, ntx=ntx, np=int(a.shape[-2]), ashape=list(a.shape),
                   a=np.stack([av.real, av.imag]).ravel(), tau=tv.ravel(), energy=(np.abs(av.astype(np.complex128)) ** 2 * 1e20).ravel())
        common.guarded(ep, go)
    for c in common.cover(ctx, by["array"], n * 2):
        ep = ctx.episode(**c)

        def go():
            nr, nc = [int(x) for x in rng.integers(1, 4, 2)]
            ev, eh = [float(rng.uniform(.3, 1)) for _ in "ab"]
            if c["cls"] == "panel":
                def spacing(rel, n, e):
                    s = (n - 1) * e
                    return {"default": None, "above": s + .01 + float(rng.exponential()), "equal": s, "below": s - .2}[rel]
                f = lambda: ntn.PanelArray(nr, nc, c["pol"], c["ptype"], c["pattern"], 2e9, num_rows=int(rng.integers(1, 3)),
                                           num_cols=int(rng.integers(1, 3)), element_vertical_spacing=ev, element_horizontal_spacing=eh,
                                           panel_vertical_spacing=spacing(c["vrel"], nr, ev),
                                           panel_horizontal_spacing=spacing(c["hrel"], nc, eh), precision="double")
            elif c["cls"] == "antenna":
                f = lambda: ntn.Antenna(c["pol"], c["ptype"], c["pattern"], 2e9)
            else:
                f = lambda: ntn.AntennaArray(nr, nc, c["pol"], c["ptype"], c["pattern"], 2e9)
            ok, a, err = attempt(f)
            ep.add("array", **{k: c[k] for k in ("pol", "ptype", "pattern", "vrel", "hrel", "cls")}, ok=ok, err=err)
            if ok:
                ep.add("field", field=[np.asarray(x).ravel() for x in a.ant_pol1.field(tf.constant([.1, 1., 3.]), tf.constant([-3., 0.4, 2.]))]
                       if c["cls"] != "panel" else [np.asarray(x).ravel() for x in a.ant_pol1.field(
                           tf.constant([.1, 1., 3.], tf.float64), tf.constant([-3., 0.4, 2.], tf.float64))])
        common.guarded(ep, go)
    for c in by["element"] + by["topology"]:
        ep = ctx.episode(**c)

        def go():
            if c["kind"] == "element":
                ok, _, err = attempt(lambda: ntn.AntennaElement(c["pattern"], .3, c["prec"]))
                ep.add("element", pattern=c["pattern"], ok=ok, err=err)
            else:
                u = sut.ntnutils
                f = (lambda: u.gen_single_sector_topology(2, 3, c["name"], precision=c["prec"])) if c["fn"] == "sector" \
                    else (lambda: u.set_3gpp_scenario_parameters(c["name"], precision=c["prec"]))
                ok, _, err = attempt(f)
                ep.add("topology", name=c["name"], ok=ok, err=err)
        common.guarded(ep, go)
