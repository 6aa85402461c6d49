"""Small helpers of the demonstrations: models, topologies and their calls."""
import inspect
import sys
import numpy as np
import tensorflow as tf
import sionna
from sionna.phy import config
from sionna.phy.channel import tr38811

MODELS = {"dur": tr38811.DenseUrban, "urb": tr38811.Urban, "sur": tr38811.SubUrban}


def arg(f, name, a, kw):
    return inspect.signature(f).bind(*a, **kw).arguments[name]


def seed(s):
    config.seed = s
    tf.random.set_seed(s)


def array(fc=2e9, rows=1, cols=1, pol="single", ptype="V", pattern="omni", **kw):
    return tr38811.PanelArray(num_rows_per_panel=rows, num_cols_per_panel=cols,
                              polarization=pol, polarization_type=ptype,
                              antenna_pattern=pattern, carrier_frequency=fc, **kw)


def model(scen="urb", direction="downlink", fc=2e9, elevation=60.0, ut=None, bs=None, precision=None, **kw):
    ut = array(fc, precision=precision) if ut is None else ut
    bs = array(fc, precision=precision) if bs is None else bs
    return MODELS[scen](carrier_frequency=fc, ut_array=ut, bs_array=bs, direction=direction,
                        elevation_angle=elevation, precision=precision, **kw)


def topo(batch=1, nb=1, nu=1, height=600e3, s=0, dt=np.float32, speed=0.0, spread=500.0, ori=False, zut=1.5):
    """set_topology arguments; heights may be [batch, nb]"""
    r = np.random.default_rng(s)
    ut = np.zeros([batch, nu, 3])
    ut[..., :2] = r.uniform(-spread, spread, [batch, nu, 2]) + 5e4
    ut[..., 2] = zut
    bs = np.zeros([batch, nb, 3])
    bs[..., :2] = r.uniform(-1e4, 1e4, [batch, nb, 2])
    bs[..., 2] = height
    o = 1.0 if ori else 0.0
    c = lambda x: tf.constant(x, dt)
    return dict(ut_loc=c(ut), bs_loc=c(bs),
                ut_orientations=c(o*r.uniform(-1.5, 1.5, [batch, nu, 3])),
                bs_orientations=c(o*r.uniform(-1.5, 1.5, [batch, nb, 3])),
                ut_velocities=c(speed*r.uniform(-1, 1, [batch, nu, 3])),
                in_state=tf.zeros([batch, nu], tf.bool))


def check(ok, what):
    if not bool(ok):
        print("FAILED:", what)
        sys.exit(1)
    print("ok:", what)
