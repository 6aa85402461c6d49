"""Access to the system under test (/repo's working tree) and recording of what it does."""
import os, sys
import numpy as np

import tensorflow as tf
import sionna
from sionna.phy import config as snconfig
import sionna.phy.channel.tr38811 as ntn
from sionna.phy.channel.tr38811 import utils as ntnutils

if os.path.realpath(os.path.dirname(ntn.__file__)) != os.path.realpath("/repo/OpenNTN"):
    raise RuntimeError("tr38811 is not /repo/OpenNTN: %s" % ntn.__file__)

MODELS = {"dur": ntn.DenseUrban, "urb": ntn.Urban, "sur": ntn.SubUrban}
SCENARIOS = {"dur": ntn.DenseUrbanScenario, "urb": ntn.UrbanScenario, "sur": ntn.SubUrbanScenario}
INPUTS = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")


def seed(n):
    snconfig.seed = int(n)
    tf.random.set_seed(int(n))


def rdt(prec):
    return tf.float64 if prec == "double" else tf.float32


def array(fghz, rows=1, cols=1, pol="single", ptype="V", pattern="omni", prec="double", hz=None, **k):
    return ntn.PanelArray(num_rows_per_panel=rows, num_cols_per_panel=cols, polarization=pol,
                          polarization_type=ptype, antenna_pattern=pattern,
                          carrier_frequency=hz if hz is not None else float(fghz) * 1e9, precision=prec, **k)


def model(cfg, ut_array=None, bs_array=None, **kw):
    """cfg: dict with scn, dir, f (GHz), el, prec"""
    prec = cfg.get("prec", "double")
    hz = float(cfg["f"]) * 1e9
    ut_array = ut_array or array(cfg["f"], prec=prec)
    bs_array = bs_array or array(cfg["f"], prec=prec)
    return MODELS[cfg["scn"]](carrier_frequency=hz, ut_array=ut_array, bs_array=bs_array,
                              direction=cfg["dir"], elevation_angle=float(cfg["el"]),
                              precision=prec, **kw)


def scenario(cfg, ut_array=None, bs_array=None, **kw):
    prec = cfg.get("prec", "double")
    hz = float(cfg["f"]) * 1e9
    ut_array = ut_array or array(cfg["f"], prec=prec)
    bs_array = bs_array or array(cfg["f"], prec=prec)
    return SCENARIOS[cfg["scn"]](carrier_frequency=hz, ut_array=ut_array, bs_array=bs_array,
                                 direction=cfg["dir"], elevation_angle=float(cfg["el"]),
                                 precision=prec, **kw)


def topo_args(d, prec="double"):
    """numpy dictionary -> tensors for set_topology"""
    r = {}
    for k, v in d.items():
        if v is None:
            continue
        if k == "in_state":
            r[k] = tf.constant(v, tf.bool)
        elif k in INPUTS:
            r[k] = tf.constant(v, rdt(prec))
        else:
            r[k] = v
    return r


def random_topo(rng, b, nb, nu, height=600e3, spread=300.0, speed=10.0, hut=(1.0, 30.0), indoor=None):
    """Random inputs of a topology; height may be a number or an array [b, nb]."""
    ut = np.concatenate([rng.uniform(-spread, spread, (b, nu, 2)), rng.uniform(hut[0], hut[1], (b, nu, 1))], -1)
    bs = np.concatenate([rng.uniform(-spread, spread, (b, nb, 2)),
                         np.broadcast_to(np.asarray(height, float), (b, nb))[..., None]], -1)
    return {"ut_loc": ut, "bs_loc": bs,
            "ut_orientations": rng.uniform(-np.pi, np.pi, (b, nu, 3)),
            "bs_orientations": rng.uniform(-np.pi, np.pi, (b, nb, 3)),
            "ut_velocities": rng.uniform(-speed, speed, (b, nu, 3)),
            "in_state": np.zeros((b, nu), bool) if indoor is None else np.asarray(indoor, bool)}


class Recorder:
    """Observes the stages of the channel models (class-level wrappers of public call operators)."""

    def __init__(self, phases=True):
        self.log = []
        self.phases = phases

    def __enter__(self):
        log, phases = self.log, self.phases
        self._old = []

        def patch(cls, name, fn):
            self._old.append((cls, name, cls.__dict__[name]))
            setattr(cls, name, fn)

        o_lsp = ntn.LSPGenerator.__call__

        def lsp(s, *a, **k):
            r = o_lsp(s, *a, **k)
            log.append(("lsp", {n: getattr(r, n) for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")}))
            return r

        o_pl = ntn.LSPGenerator.sample_pathloss

        def pl(s, *a, **k):
            r = o_pl(s, *a, **k)
            log.append(("pl", r))
            return r

        o_rays = ntn.RaysGenerator.__call__

        def rays(s, lsp_, *a, **k):
            r = o_rays(s, lsp_, *a, **k)
            log.append(("rays", {"lsp": {n: getattr(lsp_, n) for n in
                                         ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")},
                                 **{n: getattr(r, n) for n in
                                    ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}}))
            return r

        o_cc = ntn.ChannelCoefficientsGenerator.__call__

        def cc(s, num_time_samples, sampling_frequency, k_factor, rays_, topology, c_ds=None, debug=False):
            inp = {"k": k_factor, "c_ds": c_ds, "nt": num_time_samples, "fs": sampling_frequency,
                   "rays": {n: getattr(rays_, n) for n in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")},
                   "topo": {n: getattr(topology, n) for n in
                            ("velocities", "moving_end", "los_aoa", "los_aod", "los_zoa", "los_zod", "los",
                             "distance_3d", "tx_orientations", "rx_orientations")}}
            if phases:
                r = o_cc(s, num_time_samples, sampling_frequency, k_factor, rays_, topology, c_ds, debug=True)
                log.append(("cir", {**inp, "h": r[0], "delays": r[1], "phi": r[2], "t": r[3]}))
                return r if debug else (r[0], r[1])
            r = o_cc(s, num_time_samples, sampling_frequency, k_factor, rays_, topology, c_ds, debug)
            log.append(("cir", {**inp, "h": r[0], "delays": r[1]}))
            return r

        patch(ntn.LSPGenerator, "__call__", lsp)
        patch(ntn.LSPGenerator, "sample_pathloss", pl)
        patch(ntn.RaysGenerator, "__call__", rays)
        patch(ntn.ChannelCoefficientsGenerator, "__call__", cc)
        return self

    def __exit__(self, *a):
        for cls, name, old in reversed(self._old):
            setattr(cls, name, old)

    def take(self, kind=None):
        r = [x[1] for x in self.log if x[0] == kind] if kind else list(self.log)
        self.log.clear()
        return r
