"""Recording the ray generator and its stages."""
import numpy as np
import tensorflow as tf
from . import sut
from .sut import ntn

ANG = ("aoa", "aod", "zoa", "zod")
CALL = {"aoa": "_azimuth_angles_of_arrival", "aod": "_azimuth_angles_of_departure",
        "zoa": "_zenith_angles_of_arrival", "zod": "_zenith_angles_of_departure"}


def setup(rng, c, b, nb, nu, height=600e3, spread=3000., los=None, ut=None, bs=None):
    """A scenario with a topology, and its ray generator."""
    s = sut.scenario({**c, "prec": "double"})
    t = sut.random_topo(rng, b, nb, nu, height, spread=spread)
    if ut is not None:
        t["ut_loc"] = ut
    if bs is not None:
        t["bs_loc"] = bs
    a = sut.topo_args(t)
    if los in ("true", "false"):
        a["los"] = los == "true"
    s.set_topology(**a)
    if los == "drawn":
        for _ in range(8):
            x = np.asarray(s.los)
            if x.any() and not x.all():
                break
            s.set_topology(ut_loc=a["ut_loc"])
    g = ntn.RaysGenerator(s)
    g.topology_updated_callback()
    return s, g, t


def cfg_of(c):
    return {"scn": c["scn"], "dir": c["dir"], "f": float(c["f"]), "el": float(c["el"])}


def lsp_values(rng, shape):
    """Any values of large-scale parameters."""
    return {"ds": 10 ** rng.uniform(-9, -6, shape), "asd": 10 ** rng.uniform(-1, 1.5, shape),
            "asa": 10 ** rng.uniform(0, 2, shape), "sf": 10 ** rng.uniform(-1, 1, shape),
            "k_factor": 10 ** rng.uniform(-1, 2.5, shape), "zsa": 10 ** rng.uniform(0, 1.7, shape),
            "zsd": 10 ** rng.uniform(-1, 1, shape)}


def T(x):
    return tf.constant(x, tf.float64)
