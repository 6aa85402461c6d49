"""N25: figures.  TLC checks the machine of making figures and the theorems on scales, axes and polarizations, and enumerates
what to show; the artists of the real figures are read back (matplotlib without a display) and judged node by node."""
import re
import numpy as np
from .. import common

TRACE = "Tr_N25"
MUTATE = ["fig.bs@deployment", "fig.texts@deployment", "lines@array", "texts@array", "v.y@element", "h.y@element", "lines@panel"]


def run(ctx):
    ctx.model_check("MC_N25", "MC_N25" + ("_full" if ctx.thorough else ""))
    ctx.model_check("MC_N25", "MC_N25_scene")
    cases = ctx.generate("MC_N25", "Gen_N25")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.colors as mc
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import axes3d
    from .. import sut
    ntn, tf, rng = sut.ntn, sut.tf, ctx.rng

    def new(before):
        return [plt.figure(i) for i in plt.get_fignums() if i not in before]

    def scene(fig):
        ax = fig.axes[0]
        pts = {c.get_label(): np.stack([np.ma.filled(np.ma.asarray(x, float)) for x in c._offsets3d], -1) for c in ax.collections
               if hasattr(c, "_offsets3d")}
        axis = {"r": 1, "g": 2, "b": 3}
        lines = []
        for g in ax.lines:
            d = np.asarray(g.get_data_3d(), float)
            col = [k for k in axis if mc.same_color(g.get_color(), k)]
            lines.append({"axis": axis[col[0]] if col else 0, "p": d[:, 0], "q": d[:, -1]})
        unit = [re.search(r"[\[(](k?m)[\])]", f()).group(1) for f in (ax.get_xlabel, ax.get_ylabel, ax.get_zlabel)]
        none = np.zeros((0, 3))
        return unit, {"bs": pts.get("BS", none), "los": pts.get("UT LoS", none), "nlos": pts.get("UT NLoS", none), "lines": lines,
                      "texts": [{"n": int(t.get_text()), "p": [float(x) for x in t.get_position_3d()]} for t in ax.texts]}

    def angle(m):
        """Direction of a marker in the plane, in degrees."""
        m = m.get_marker() if hasattr(m, "get_marker") else m
        return {"|": 90., "_": 0.}[m] if isinstance(m, str) else 90. + m[2]

    def layout(fig):
        ax = fig.axes[0]
        return ([{"pts": np.stack([np.asarray(x, float) for x in g.get_data()], -1), "angle": angle(g.get_marker())} for g in ax.lines],
                [{"n": int(t.get_text()), "p": [float(x) for x in t.xy]} for t in ax.texts])

    groups = {}
    for c in cases:
        groups.setdefault(c["kind"], []).append(c)
    k = 6 if ctx.thorough else 1
    todo = [c for kind, n in (("deployment", 40), ("element", 24), ("array", 36), ("panel", 12)) for c in common.cover(ctx, groups[kind], k * n)]
    for c in todo:
        ep = ctx.episode(**c)

        def go():
            prec = c["prec"]
            before = list(plt.get_fignums())
            f = float(rng.choice([2e9, 3.5e9, 20e9, 28e9]))
            if c["kind"] == "deployment":
                b, nb, nu = c["b"], c["nb"], c["nu"]
                el = float(rng.uniform(10, 90))
                m = sut.model({"scn": c["scn"], "f": f / 1e9, "dir": str(rng.choice(["uplink", "downlink"])), "el": el, "prec": prec,
                               "pl": True, "sf": True})
                shown = []
                for _ in range(c["times"]):
                    w = 2e5 if c["far"] else 3e3
                    ut = np.concatenate([rng.uniform(-w, w, (b, nu, 2)), rng.uniform(1, 40, (b, nu, 1))], -1)
                    bs = np.concatenate([rng.uniform(-w, w, (b, nb, 2)) * (3 if c["high"] else 1),
                                         rng.uniform(3e5, 1e6, (b, nb, 1)) if c["high"] else rng.uniform(20, 900, (b, nb, 1))], -1)
                    t = dict(ut_loc=ut, bs_loc=bs, ut_orientations=rng.uniform(-np.pi, np.pi, (b, nu, 3)),
                             bs_orientations=rng.uniform(-np.pi, np.pi, (b, nb, 3)), ut_velocities=np.zeros((b, nu, 3)))
                    t = {k: tf.constant(v, sut.rdt(prec)) for k, v in t.items()}
                    sut.seed(int(rng.integers(1 << 30)))
                    m.set_topology(**t, in_state=tf.zeros((b, nu), tf.bool))
                    s = m._scenario
                    was = [np.asarray(x) for x in (s.ut_loc, s.bs_loc, s.ut_orientations, s.bs_orientations)]
                    i, j = int(rng.integers(b)), int(rng.integers(nb))
                    have = list(plt.get_fignums())
                    m.show_topology(bs_index=j, batch_index=i)
                    figs = new(have)
                    shown.append((figs, dict(i=i, j=j, los=np.asarray(s.los)[i, j], **{k: np.asarray(v)[i] for k, v in t.items()}),
                                  all(np.array_equal(a, np.asarray(x)) for a, x in
                                      zip(was, (s.ut_loc, s.bs_loc, s.ut_orientations, s.bs_orientations)))))
                for figs, t, same in shown:       # read after all of them were made
                    units, fig = scene(figs[-1])
                    ep.add("deployment", prec=prec, bs=t["bs_loc"], ut=t["ut_loc"], bso=t["bs_orientations"], uto=t["ut_orientations"],
                           los=t["los"], units=units, fig=fig, newfigs=len(figs), same=same)
                    ctx.count("deployments")
            elif c["kind"] == "element":
                if c["via"] == "array":
                    pol = "dual" if c["pt"] == "cross" else "single"
                    el = ntn.PanelArray(num_rows_per_panel=2, num_cols_per_panel=1, polarization=pol, polarization_type=c["pt"],
                                        antenna_pattern=c["pattern"], carrier_frequency=f, precision=prec)
                    show = el.show_element_radiation_pattern
                else:
                    show = ntn.AntennaElement(c["pattern"], {"V": 0., "H": np.pi / 2, "cross": .7}[c["pt"]], precision=prec).show
                surf, orig = [], axes3d.Axes3D.plot_surface

                def rec(self, X, Y, Z, *a, **kw):
                    surf.append(np.stack([np.asarray(X, float), np.asarray(Y, float), np.asarray(Z, float)], -1).reshape(-1, 3))
                    return orig(self, X, Y, Z, *a, **kw)
                axes3d.Axes3D.plot_surface = rec
                try:
                    show()
                finally:
                    axes3d.Axes3D.plot_surface = orig
                figs = new(before)

                def cut(fig):
                    x, y = (np.asarray(v, float) for v in fig.axes[0].lines[0].get_data())
                    i = np.sort(rng.choice(len(x), 60, replace=False))
                    return {"x": x[i], "y": np.maximum(y[i], -400.)}
                s = surf[0]
                ep.add("element", pattern=c["pattern"], prec=prec, v=cut(figs[0]), h=cut(figs[1]),
                       s=s[rng.choice(len(s), 150, replace=False)], newfigs=len(figs))
                ctx.count("patterns")
            else:
                pol = c.get("pol") or ("single" if c["pt"] in ("V", "H") else "dual")
                ev, eh = (float(x) for x in rng.uniform(.3, 1.2, 2))
                arr = {"pr": c.get("pr", 1), "pc": c.get("pc", 1), "nr": c["nr"], "nc": c["nc"], "pol": pol,
                       "ptype": c.get("pt", "V" if pol == "single" else "VH"), "pattern": "omni", "ev": ev, "eh": eh, "pv": None, "ph": None, "f": f}
                if c["kind"] == "array":
                    a = ntn.PanelArray(num_rows_per_panel=c["nr"], num_cols_per_panel=c["nc"], num_rows=c["pr"], num_cols=c["pc"], polarization=pol,
                                       polarization_type=c["pt"], antenna_pattern="omni", carrier_frequency=f, element_vertical_spacing=ev,
                                       element_horizontal_spacing=eh, precision=prec)
                else:
                    a = ntn.AntennaPanel(c["nr"], c["nc"], pol, ev, eh, precision=prec)
                a.show()
                figs = new(before)
                lines, texts = layout(figs[-1])
                ep.add(c["kind"], arr=arr, prec=prec, lines=lines, texts=texts, newfigs=len(figs))
                ctx.count("layouts")
        try:
            common.guarded(ep, go)
        finally:
            plt.close("all")
