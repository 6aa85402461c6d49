"""N17: arrays and elements.  TLC checks the element order as a placing machine and the pattern theorems
on a grid, and enumerates arrays; the real arrays' counts, positions, polarisations and the fields of their
elements over the sphere are compared with the specification."""
import numpy as np
from .. import common

TRACE = "Tr_N17"
MUTATE = ["pos@array", "ind1@array", "pos1@array", "ft@field", "fp@field"]
SLANT = {"V": [0.], "H": [np.pi / 2], "VH": [0., np.pi / 2], "cross": [-np.pi / 4, np.pi / 4]}


def run(ctx):
    sfx = "_full" if ctx.thorough else ""
    ctx.model_check("MC_N17", "MC_N17" + sfx)
    ctx.model_check("MC_N17", "MC_N17_pat" + sfx)
    cases = ctx.generate("MC_N17", "Gen_N17")
    from .. import sut
    ntn, rng = sut.ntn, ctx.rng

    def directions(pattern):
        n = 300 if ctx.thorough else 60
        t, p = np.arccos(rng.uniform(-1, 1, n)), rng.uniform(-np.pi, np.pi, n)
        # main lobe, limits of the side lobes and special directions
        t = np.concatenate([t, np.pi / 2 + rng.uniform(-.12, .12, n // 2), [0, np.pi / 2, np.pi, np.pi / 2, np.pi / 2, .3]])
        p = np.concatenate([p, rng.uniform(-.12, .12, n // 2), [0, 0, 0, np.pi, -np.pi, 0]])
        t = np.concatenate([t, np.pi / 2 + rng.uniform(-1.2, 1.2, n // 3)])
        p = np.concatenate([p, rng.uniform(-1.6, 1.6, n // 3)])
        return np.stack([t, p], -1)

    def field(ep, el, pattern, slant, prec):
        import tensorflow as tf
        d = directions(pattern)
        d = d.astype(np.float32).astype(float) if prec == "single" else d
        th, ph = tf.constant(d[:, 0], sut.rdt(prec)), tf.constant(d[:, 1], sut.rdt(prec))
        if rng.random() < .5:        # any shape of the inputs
            k = len(d) - len(d) % 4
            d = d[:k]
            f = el.field(tf.reshape(th[:k], [-1, 2, 2]), tf.reshape(ph[:k], [-1, 2, 2]))
        else:
            f = el.field(th, ph)
        ep.add("field", pattern=pattern, slant=float(slant), prec=prec, dirs=d, ft=np.asarray(f[0]).reshape(-1),
               fp=np.asarray(f[1]).reshape(-1))
        ctx.count("directions", len(d))

    for c in common.cover(ctx, cases, 1500 if ctx.thorough else 150):
        ep = ctx.episode(**c)

        def go():
            pol = "single" if c["pt"] in ("V", "H") else "dual"
            a = {"pr": c["pr"], "pc": c["pc"], "nr": c["nr"], "nc": c["nc"], "pol": pol, "ptype": c["pt"],
                 "pattern": c["pattern"], "ev": None, "eh": None, "pv": None, "ph": None,
                 "f": float(rng.choice([1.9e9, 2.4e9, 4e9, 19e9, 28e9, 40e9, 1e9]))}
            if c["spacing"] in ("element", "both"):
                a["ev"], a["eh"] = float(rng.uniform(.2, 1.5)), float(rng.uniform(.2, 1.5))
                if rng.random() < .3:
                    a[["ev", "eh"][rng.integers(2)]] = None
            if c["spacing"] in ("panel", "both"):
                a["pv"] = float((a["nr"] - 1) * (a["ev"] or .5) + rng.uniform(.05, 3))
                a["ph"] = float((a["nc"] - 1) * (a["eh"] or .5) + rng.uniform(.05, 3))
                if rng.random() < .3:
                    a[["pv", "ph"][rng.integers(2)]] = None
            pre = c["prec"]
            if c["cls"] == "antenna":
                x = ntn.Antenna(pol, c["pt"], c["pattern"], a["f"], precision=pre)
            elif c["cls"] == "array":
                x = ntn.AntennaArray(a["nr"], a["nc"], pol, c["pt"], c["pattern"], a["f"], a["ev"], a["eh"], precision=pre)
            else:
                x = ntn.PanelArray(num_rows_per_panel=a["nr"], num_cols_per_panel=a["nc"], polarization=pol,
                                   polarization_type=c["pt"], antenna_pattern=c["pattern"], carrier_frequency=a["f"],
                                   num_rows=a["pr"], num_cols=a["pc"], panel_vertical_spacing=a["pv"],
                                   panel_horizontal_spacing=a["ph"], element_vertical_spacing=a["ev"],
                                   element_horizontal_spacing=a["eh"], precision=pre)
            second = True
            if pol == "single":
                try:
                    x.ant_pol2
                except AssertionError:
                    second = False
            ep.add("array", arr=a, prec=pre, n=int(x.num_ant), panels=int(x.num_panels), perpanel=int(x.num_panels_ant),
                   dims=[int(x.num_rows), int(x.num_cols), int(x.num_rows_per_panel), int(x.num_cols_per_panel)],
                   spacings=[x.panel_vertical_spacing, x.panel_horizontal_spacing, x.element_vertical_spacing,
                             x.element_horizontal_spacing],
                   pos=x.ant_pos, pol=x.polarization, ptype=x.polarization_type, ind1=x.ant_ind_pol1,
                   pos1=x.ant_pos_pol1, ind2=x.ant_ind_pol2 if second else [], pos2=x.ant_pos_pol2 if second else [],
                   second=second)
            for el, s in zip([x.ant_pol1] + ([x.ant_pol2] if pol == "dual" else []), SLANT[c["pt"]]):
                field(ep, el, c["pattern"], s, pre)
            ctx.count("arrays")
        common.guarded(ep, go)
    for pattern in ("omni", "38.901", "aperture", "dlp"):
        for prec in ("single", "double"):
            ep = ctx.episode(pattern=pattern, prec=prec, kind="element")

            def el():
                for s in (0., float(rng.uniform(-np.pi, np.pi))):
                    field(ep, ntn.AntennaElement(pattern, s, precision=prec), pattern, s, prec)
            common.guarded(ep, el)
