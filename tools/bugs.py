"""Writes /verif/seeded from the definitions below (edits of /repo's HEAD and their demonstrations)."""
import difflib, json, os, re, shutil, sys

REPO = "/repo"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
HERE = os.path.dirname(os.path.abspath(__file__))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


S, C, L, R, K, U, A = ("OpenNTN/" + n + ".py" for n in
                       ("system_level_scenario", "system_level_channel", "lsp", "rays", "channel_coefficients",
                        "utils", "antenna"))

bug("n01-bsloc", "N01", [(S, """            self._bs_loc = bs_loc
            need_for_update = True
""", """            self._bs_loc = bs_loc
            need_for_update = need_for_update or ut_loc is not None
""")], "an update that gives only the locations of the BSs",
    "distances, angles and losses stay those of the old BS locations", """
m = model()
t = topo()
m.set_topology(**t, los=True)
new = tf.constant([[[1e4, 0., 1.2e6]]], tf.float32)
m.set_topology(bs_loc=new)
t["bs_loc"] = new
f = model()
f.set_topology(**t, los=True)
check(np.allclose(m._scenario.distance_3d, f._scenario.distance_3d, rtol=1e-5), "slant range after BS-only update")
""")

bug("n01-reject", "N01", [(S, """        assert (ut_velocities is not None)\\
            or (self._ut_velocities is not None),\\
            "`ut_velocities` is None and was not previously set"

        # Boolean used""", """        # Boolean used"""),
                          (S, """            self._ut_velocities = ut_velocities

        if in_state""", """            self._ut_velocities = ut_velocities

        assert self._ut_velocities is not None,\\
            "`ut_velocities` is None and was not previously set"

        if in_state""")],
    "a first update without velocities (refused), followed by an update that gives only some of the inputs",
    "the refused update has already stored its locations and orientations, so a later incomplete update is accepted",
    """
m = model()
t = topo()
v = t.pop("ut_velocities")
try:
    m.set_topology(**t)
    check(False, "an incomplete update is refused")
except AssertionError:
    pass
try:
    m.set_topology(ut_velocities=v, in_state=t["in_state"])
    check(False, "a refused update stored nothing")
except AssertionError:
    check(True, "a refused update stored nothing")
""")

bug("n02-stale", "N02", [(C, """            self._lsp_sampler.topology_updated_callback()
""", """            if not (self._always_generate_lsp and self._set_topology_called):
                self._lsp_sampler.topology_updated_callback()
""")], "always_generate_lsp=True and a second topology of the same shape in which LoS states or locations changed",
    "large-scale parameters are drawn with the correlations of the first topology", """
m = model(always_generate_lsp=True)
t = topo(nu=2, spread=1.0)
m.set_topology(**t, los=True)
t2 = topo(nu=2, spread=5e4, s=1)
m.set_topology(**t2, los=True)
d = []
for i in range(40):
    seed(i)
    m._lsp_sampler
    d.append(np.log10(m._lsp_sampler().sf.numpy()[0, 0]))
d = np.array(d)
r = np.corrcoef(d[:, 0], d[:, 1])[0, 1]
check(abs(r) < 0.8, "shadow fading of UTs 50 km apart is not correlated (%g)" % r)
""")

bug("n02-inplace", "N02", [(C, """            k_factor = tf.transpose(lsp.k_factor, [0, 2, 1])
""", """            lsp.k_factor = tf.transpose(lsp.k_factor, [0, 2, 1])
            k_factor = lsp.k_factor
""")], "uplink, as many BSs as UTs (or broadcastable counts), two or more realisations of one topology",
    "every second realisation uses the K-factor of another link", """
seen = []
orig = tr38811.ChannelCoefficientsGenerator.__call__
def spy(*a, **kw):
    seen.append(np.array(arg(orig, "k_factor", a, kw)))
    return orig(*a, **kw)
tr38811.ChannelCoefficientsGenerator.__call__ = spy
m = model(direction="uplink")
m.set_topology(**topo(nb=2, nu=2), los=True)
m(1, 1e6)
m(1, 1e6)
check(np.array_equal(seen[0], seen[1]), "both realisations use the same K-factors")
""")

bug("n03-shared", "N03", [(S, """            los = sample_bernoulli([self.batch_size, self.num_bs,
                                        self.num_ut], los_probability,
                                        precision=self.precision)
""", """            los = sample_bernoulli([self.batch_size, 1,
                                        self.num_ut], los_probability,
                                        precision=self.precision)
""")], "two or more BSs and no requested LoS state", "the LoS states of a UT towards different BSs are the same draw", """
m = model("dur", elevation=30.0)
seed(3)
m.set_topology(**topo(batch=4, nb=2, nu=40))
los = m._scenario.los.numpy()
check(not np.array_equal(los[:, 0], los[:, 1]), "LoS states of two BSs are independent")
""")

bug("n03-forget", "N03", [(S, """            los = tf.fill([self.batch_size, self.num_bs, self.num_ut],
                            self._requested_los)
""", """            los = tf.fill([self.batch_size, self.num_bs, self.num_ut],
                            self._requested_los)
            self._requested_los = None
""")], "a LoS request followed by an update of locations that does not repeat it",
    "the requested LoS state is only kept for one update", """
m = model("dur", elevation=50.0)
t = topo(batch=2, nu=50)
m.set_topology(**t, los=True)
m.set_topology(ut_loc=t["ut_loc"] + 1.0)
check(np.all(m._scenario.los), "the requested state persists")
""")

bug("n04-4ghz", "N04", [("OpenNTN/sub_urban_scenario.py", """            if self.carrier_frequency >= 1.5e9 and self.carrier_frequency <= 4e9:
                return 'Sub_Urban_NLOS_S_band_UL.json'""",
                         """            if self.carrier_frequency >= 1.5e9 and self.carrier_frequency < 4e9:
                return 'Sub_Urban_NLOS_S_band_UL.json'""")],
    "suburban uplink at exactly 4 GHz", "NLoS links at the upper end of the S band use the Ka band's table", """
def muds(fc):
    m = model("sur", "uplink", fc=fc, elevation=50.0)
    m.set_topology(**topo(), los=False)
    return [float(np.array(m._scenario.get_param(p)).ravel()[0]) for p in ("muDS", "muASA", "muZSA", "corrDistDS", "corrDistSF")]
check(muds(4e9) == muds(3.9e9), "4 GHz belongs to the S band")
""")

bug("n06-utdist", "N06", [(S, """        ut_loc_xy = self._ut_loc[:,:,:2]
""", """        ut_loc_xy = self._ut_loc
""")], "UTs at different heights", "the 2D distance between UTs contains their height difference", """
m = model()
t = topo(nu=2)
loc = np.array([[[0., 0., 1.5], [3., 4., 201.5]]], np.float32)
t["ut_loc"] = tf.constant(loc)
m.set_topology(**t, los=True)
d = float(m._scenario.matrix_ut_distance_2d[0, 0, 1])
check(abs(d-5.0) < 1e-4, "2D distance of the UTs (%g)" % d)
""")

bug("n06-zod", "N06", [(S, """        los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
""", """        los_zod = PI - tf.atan(distance_2d/tf.abs(delta_loc[:,:,:,2]))
""")], "a BS that is lower than the UT", "the zenith angle points down instead of up", """
m = model()
t = topo(height=100.0, zut=500.0)
m.set_topology(**t, los=True)
d = np.array(t["ut_loc"] - t["bs_loc"])[0, 0]
z = np.rad2deg(np.arctan2(np.hypot(d[0], d[1]), d[2]))
got = float(m._scenario.los_zod[0, 0, 0])
check(abs(z-got) < 1e-2, "zenith of departure (%g, expected %g)" % (got, z))
""")

bug("n07-sfbatch", "N07", [(U, """        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean""",
                            """        SF_nlos = tf.random.normal(shape = tf.shape(self.los)[1:], mean""")],
    "two or more batch examples with NLoS links", "all batch examples share one draw of the NLoS shadowing", """
m = model()
t = topo()
t = {k: tf.concat([v, v], 0) for k, v in t.items()}
m.set_topology(**t, los=False)
p = m._scenario.basic_pathloss.numpy().ravel()
check(p[0] != p[1], "shadowing of batch examples differs")
""")

bug("n07-eff", "N07", [(U, "        Deff = math.sqrt(efficiency) * D\n", "        Deff = math.sqrt(efficiency * D) * math.sqrt(3.6)\n")],
    "Ka band and an antenna diameter other than the default", "the effective aperture grows with the root of the diameter", """
def loss(d):
    m = model(fc=20e9, ut=array(20e9), bs=array(20e9), elevation=30.0)
    t = topo()
    m.set_topology(**t, los=True)
    m._scenario.set_topology(diameter_earth_antenna=d)
    return float(np.array(m._scenario.scintillation_pathloss).ravel()[0])
import math
def ref(d):
    f, el, T, H, e, p = 20.0, 30.0, 273.0, 50.0, 0.5, 0.01
    es = 6.1121*math.exp(17.502*(T-273)/((T-273)+240.97))
    ref_ = 3.6e-3 + 3732*H*es/T**2*1e-4
    s = math.sin(math.radians(el))
    Lp = 2000/(math.sqrt(s*s+2.35e-4)+s)
    x = 1.22*e*d*d*f/Lp
    g = math.sqrt(max(0.0, 3.86*(x*x+1)**(11/12)*math.sin(11/6*math.atan(1/x))-7.08*x**(5/6)))
    q = math.log10(p)
    return abs((-0.061*q**3+0.072*q**2-1.71*q+3.0)*ref_*f**(7/12)*g/s**1.2)
for d in (3.6, 1.0, 5.0):
    check(abs(loss(d)-ref(d)) < 1e-3*ref(d), "scintillation with diameter %g: %g %g" % (d, loss(d), ref(d)))
""")

bug("n08-reshape", "N08", [(C, "                pl_db = tf.transpose(pl_db, [0,2,1])\n",
                            "                pl_db = tf.reshape(pl_db, tf.shape(sf))\n")],
    "uplink with at least two BSs and two UTs", "links get the pathloss of other links", """
m = model(direction="uplink", enable_shadow_fading=False)
t = topo(nb=2, nu=2, height=[[600e3, 36e6]])
m.set_topology(**t, los=True)
h = tf.ones([1, 2, 2, 1, 1, 1, 1], tf.complex64)
g = np.abs(m._step_12(h, tf.ones([1, 2, 2])).numpy()).reshape(2, 2)
pl = m._lsp_sampler.sample_pathloss().numpy()[0].T
check(np.allclose(-20*np.log10(g), pl, rtol=1e-4), "gain of every link is that of its own pathloss")
""")

bug("n09-powers", "N09", [(C, "            rays.powers = tf.transpose(rays.powers, [0, 2, 1, 3])\n",
                           "            rays.powers = tf.reshape(rays.powers, tf.shape(rays.delays))\n"),
                          (C, "            rays.delays = tf.transpose(rays.delays, [0, 2, 1, 3])\n", ""),
                          (C, "            rays.aod = tf.transpose(aoa, [0, 2, 1, 3, 4])\n",
                           "            rays.delays = tf.transpose(rays.delays, [0, 2, 1, 3])\n"
                           "            rays.aod = tf.transpose(aoa, [0, 2, 1, 3, 4])\n")],
    "uplink with at least two BSs and two UTs", "the ray powers of one link are used for another", """
seen = {}
r0 = tr38811.RaysGenerator.__call__
c0 = tr38811.ChannelCoefficientsGenerator.__call__
def rays(s, *a, **k):
    r = r0(s, *a, **k)
    seen["in"] = np.array(r.powers)
    return r
def coef(*a, **kw):
    seen["out"] = np.array(arg(c0, "rays", a, kw).powers)
    return c0(*a, **kw)
tr38811.RaysGenerator.__call__ = rays
tr38811.ChannelCoefficientsGenerator.__call__ = coef
m = model(direction="uplink")
m.set_topology(**topo(nb=2, nu=2))
m(1, 1e6)
check(np.array_equal(seen["in"].transpose(0, 2, 1, 3), seen["out"]), "powers are those of their own link")
""")

bug("n09-kfactor", "N09", [(C, "            c_ds = tf.transpose(c_ds, [0, 2, 1])\n",
                            "            c_ds = tf.reshape(c_ds, tf.shape(topology.los))\n")],
    "uplink, at least two BSs and two UTs, links in different LoS states, Ka band (where the cluster delay spread differs)",
    "sub-cluster delays use the delay spread of another link", """
seen = {}
c0 = tr38811.ChannelCoefficientsGenerator.__call__
def coef(*a, **kw):
    seen["c"] = np.array(arg(c0, "c_ds", a, kw))
    return c0(*a, **kw)
tr38811.ChannelCoefficientsGenerator.__call__ = coef
for fc in (2e9, 20e9):
  for sc in MODELS:
    for el in (20.0, 50.0, 80.0):
        m = model(sc, "uplink", fc=fc, elevation=el)
        seed(5)
        m.set_topology(**topo(batch=3, nb=2, nu=3))
        m(1, 1e6)
        ref = m._scenario.get_param("cDS").numpy().transpose(0, 2, 1)*1e-9
        check(np.allclose(seen["c"], ref, rtol=1e-5, atol=0), "cluster delay spread of each link")
""")

bug("n10-unscaled", "N10", [(R, """                                            lsp.k_factor, delays_unscaled)
""", """                                            lsp.k_factor, delays)
""")], "links in LoS", "the powers of LoS links are drawn from the K-scaled delays", """
m = model()
m.set_topology(**topo(), los=True)
rs = m._ray_sampler
seen = {}
d0, p0 = rs._cluster_delays, rs._cluster_powers
def dl(*a):
    r = d0(*a)
    seen["u"] = np.array(r[1])
    return r
def pw(ds, k, u):
    seen["p"] = np.array(u)
    return p0(ds, k, u)
rs._cluster_delays, rs._cluster_powers = dl, pw
m(1, 1e6)
check(np.array_equal(seen["u"], seen["p"]), "powers use the unscaled delays")
""")

bug("n10-mask", "N10", [(R, "        los_slice_mask = scenario.los\n",
                         "        los_slice_mask = scenario.los & scenario.los[:,:1,:]\n"),
                        (R, """        nlos_slice_mask = tf.logical_and(tf.logical_not(scenario.los),
            tf.logical_not(indoor))
        #nlos""", """        nlos_slice_mask = tf.logical_and(tf.logical_not(los_slice_mask),
            tf.logical_not(indoor))
        #nlos"""),
                        (R, """        los_slice_mask = tf.cast(los_slice_mask,
                                    self.rdtype)
        los_slice_mask = tf.expand_dims(los_slice_mask, axis=3)
        mask = mask + los_slice_mask*mask_los
""", """        los_slice = tf.cast(los_slice_mask,
                                    self.rdtype)
        los_slice = tf.expand_dims(los_slice, axis=3)
        mask = mask + los_slice*mask_los
""")], "two or more BSs, a UT in LoS of a later BS but not of the first",
    "LoS links of later BSs use the cluster count of NLoS", """
bad = 0
for el in (10.0, 20.0, 30.0, 40.0, 50.0, 60.0):
  for fc in (2e9, 20e9):
    m = model("dur", elevation=el, fc=fc)
    seed(1)
    m.set_topology(**topo(batch=2, nb=3, nu=8))
    m._lsp = m._lsp_sampler()
    p = m._ray_sampler(m._lsp).powers.numpy()
    n = np.sum(p > 0, axis=3)
    los = m._scenario.los.numpy()
    s = m._scenario
    want = np.where(los, int(s.num_clusters_los), int(s.num_clusters_nlos))
    bad += np.sum(n > want) + np.sum(n < want)
check(bad == 0, "every link has the clusters of its own state (%d wrong)" % bad)
""")

bug("n11-powers", "N11", [(R, """        zod = self._zenith_angles_of_departure(lsp.zsd, lsp.k_factor,
                                                powers_for_angles_gen)
""", """        zod = self._zenith_angles_of_departure(lsp.zsd, lsp.k_factor,
                                                powers)
""")], "LoS links of a BS below 160 km (where departure angles spread)",
    "zenith angles of departure of LoS links are computed from powers without the specular part", """
m = model()
m.set_topology(**topo(height=20e3), los=True)
rs = m._ray_sampler
seen = {}
f0, p0 = rs._zenith_angles_of_departure, rs._cluster_powers
def pw(*a):
    r = p0(*a)
    seen["angles"] = np.array(r[1])
    return r
def zd(s, k, p):
    seen["zod"] = np.array(p)
    return f0(s, k, p)
rs._zenith_angles_of_departure, rs._cluster_powers = zd, pw
m(1, 1e6)
check(np.array_equal(seen["angles"], seen["zod"]), "departure zeniths use the powers for angles")
""")

bug("n12-spread", "N12", [(K, """                offsets*tf.expand_dims(tf.expand_dims(c_ds, axis=-1), axis=-1))
""", """                offsets*tf.reduce_max(c_ds))
""")],
    "links with different cluster delay spreads (LoS and NLoS links) in one topology",
    "the sub-clusters of all links are spaced by the largest cluster delay spread", """
g = tr38811.ChannelCoefficientsGenerator(2e9, array(), array(), subclustering=True)
ray = lambda **k: type("R", (), k)()
h = tf.ones([1, 1, 2, 3, 20, 1, 1, 1], tf.complex64)
r = ray(powers=tf.constant([[[[.7, .2, .1], [.7, .2, .1]]]]), delays=tf.constant([[[[0., 1e-6, 2e-6]]*2]]))
hn, d = g._step_11_reduce_nlos(h, r, tf.constant([[[4e-9, 1e-9]]]))
for link, c in ((0, 4e-9), (1, 1e-9)):
    want = np.sort([0, 1.28*c, 2.56*c, 1e-6, 1e-6+1.28*c, 1e-6+2.56*c, 2e-6])
    check(np.allclose(d.numpy()[0, 0, link], want, atol=1e-11), "sub-cluster delays of link %d" % link)
""")

bug("n13-pol2", "N13", [(K, """            f_rx_pol2 = self._l2g_response(f_rx_pol2_prime, rx_orientations,
                zoa, aoa)
""", """            f_rx_pol2 = self._l2g_response(f_rx_pol2_prime, tx_orientations,
                zoa, aoa)
""")],
    "a dual-polarised receiver whose orientation differs from that of the transmitter",
    "the second polarisation of the receiver is rotated with the orientation of the transmitter", """
one = lambda x: tf.constant([[[x]]], tf.float32)
tp = tr38811.Topology(velocities=tf.zeros([1, 1, 3]), moving_end="rx", los_aoa=one(.4), los_aod=one(2.), los_zoa=one(1.1),
                      los_zod=one(2.2), los=tf.constant([[[True]]]), distance_3d=one(1e6),
                      tx_orientations=tf.constant([[[.3, -.5, .2]]]), rx_orientations=tf.constant([[[-1., .4, .9]]]),
                      bs_height=tf.constant([[6e5]]), elevation_angle=50., doppler_enabled=False)
los = lambda ut: tr38811.ChannelCoefficientsGenerator(2e9, array(), ut, subclustering=True)._step_11_los(
    tp, tf.zeros([1]), 2e9).numpy().ravel()
dual = los(array(pol="dual", ptype="VH"))
want = [los(array(ptype="V"))[0], los(array(ptype="H"))[0]]
check(np.allclose(dual, want, atol=1e-4), "both elements of a dual-polarised array respond as single ones")
""")

bug("n14-vertical", "N14", [(K, """        exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
""", """        exponent = 2*PI/lambda_0*tf.reduce_sum((r_hat_ut*v_uts_bar)[...,:2,:], -2)*t
""")], "a UT with a vertical velocity", "vertical motion causes no Doppler shift", """
m = model(doppler_enabled=False, enable_pathloss=False, enable_shadow_fading=False)
t = topo()
t["ut_velocities"] = tf.constant([[[0., 0., 30.]]], tf.float32)
m.set_topology(**t, los=True)
h, _ = m(8, 1e3)
h = h.numpy()[0, 0, 0, 0, 0]
check(np.max(np.abs(h - h[:, :1])) > 1e-3*np.max(np.abs(h)), "the channel of a rising UT changes in time")
""")

bug("n15-round", "N15", [(K, "        carrier_frequency_in_GHz = carrier_frequency/(1e9)\n",
                          "        carrier_frequency_in_GHz = tf.round(carrier_frequency/(1e8))/10.\n")],
    "a carrier frequency that is no multiple of 100 MHz", "the Faraday rotation is that of the next multiple of 100 MHz", """
fc = 1.95e9
m = model(fc=fc, ut=array(fc, pol="dual", ptype="VH"), bs=array(fc), enable_pathloss=False, enable_shadow_fading=False,
          doppler_enabled=False)
g = m._cir_sampler if hasattr(m, "_cir_sampler") else None
R = g._step_11_faraday_rotation(tf.constant(fc, tf.float32), [1]).numpy().reshape(2, 2)
psi = np.deg2rad(108/(fc/1e9)**2)
check(abs(R[0, 0].real-np.cos(psi)) < 1e-4, "rotation of 108 degrees over f^2")
""")

bug("n16-pair", "N16", [(L, """        los_pair_bool = tf.logical_and(tf.expand_dims(los_ut, axis=3),
                                       tf.expand_dims(los_ut, axis=2))
""", """        los_pair_bool = tf.logical_and(tf.expand_dims(los_ut, axis=3),
                                       tf.expand_dims(los_ut[:,:1,:], axis=2))
        los_pair_bool = tf.logical_and(los_pair_bool,
                                       tf.linalg.matrix_transpose(los_pair_bool))
""")], "two or more BSs, two UTs in LoS of a later BS but not of the first",
    "the parameters of two neighbours in LoS of that BS are not correlated", """
m = model("dur", "uplink", elevation=40.0)
bad = n = 0
seed(2)
t = topo(batch=6, nb=2, nu=3, spread=5.0)
m.set_topology(**t)
los = m._scenario.los.numpy()
c = m._lsp_sampler._spatial_lsp_correlation_matrix_sqrt.numpy()[:, :, 3]
c = c@c.transpose(0, 1, 3, 2)
for b in range(6):
    for s in range(2):
        for i in range(3):
            for j in range(i):
                same = los[b, s, i] == los[b, s, j]
                n += 1
                bad += (c[b, s, i, j] > 0.1) != same
check(bad == 0, "exactly UTs in the same state are correlated (%d of %d wrong)" % (bad, n))
""")

bug("n17-offset", "N17", [(A, """                    -(num_cols-1)*panel_horizontal_spacing/2,
                    (num_rows-1)*panel_vertical_spacing/2]
""", """                    -(num_cols-1)*panel_horizontal_spacing/2,
                    (num_cols-1)*panel_vertical_spacing/2]
""")], "an array with different numbers of panel rows and columns", "the array is not centred", """
a = array(rows=2, cols=1, num_rows=3, num_cols=1)
p = a.ant_pos.numpy()
check(np.allclose(p.mean(0), 0, atol=1e-6), "the array is centred on the origin")
""")

bug("n18-speed", "N18", [(U, """                                        minval=min_ut_velocity,
                                        maxval=max_ut_velocity,
                                        dtype=rdtype)
    ut_velocities""", """                                        minval=tf.zeros_like(max_ut_velocity),
                                        maxval=max_ut_velocity,
                                        dtype=rdtype)
    ut_velocities""")], "a minimum velocity above zero", "UTs are slower than the requested minimum", """
t = tr38811.utils.gen_single_sector_topology(batch_size=4, num_ut=50, scenario="urb", elevation_angle=60.0,
                                             bs_height=600000.0, min_ut_velocity=20.0, max_ut_velocity=30.0)
v = np.linalg.norm(t[4].numpy(), axis=-1)
check(v.min() >= 19.99 and v.max() <= 30.01, "speeds in the requested range (%g..%g)" % (v.min(), v.max()))
""")

bug("n20-norm", "N20", [(U, """        c = tf.reduce_mean(tf.reduce_sum(tf.square(tf.abs(hm)),
                                         axis=6, keepdims=True),
                           axis=(2,4,5), keepdims=True)
""", """        c = tf.reduce_mean(tf.reduce_sum(tf.square(tf.abs(hm)),
                                         axis=6, keepdims=True),
                           axis=(2,4), keepdims=True)
""")], "normalisation of a channel that changes in time",
    "every time sample is normalised on its own, which removes fading", """
rng = np.random.default_rng(0)
a = tf.constant(rng.normal(size=[2, 1, 1, 1, 1, 3, 4])*np.arange(1, 5), tf.complex64)
tau = tf.constant(rng.uniform(0, 1e-6, [2, 1, 1, 3]), tf.float32)
h1 = tr38811.utils.cir_to_time_channel(1e7, a, tau, -6, 20, normalize=True).numpy()
h0 = tr38811.utils.cir_to_time_channel(1e7, a, tau, -6, 20, normalize=False).numpy()
q = (h1/h0)[0].ravel()
check(np.max(np.abs(q-q[0])) < 1e-3*abs(q[0]), "one factor per link")
""")

bug("n21-times", "N21", [(K, """        sample_times = (tf.range(num_time_samples,
                dtype=self.rdtype)/sampling_frequency)
""", """        sample_times = tf.cast(tf.range(num_time_samples,
                dtype=tf.float32)/sampling_frequency, self.rdtype)
""")], "double precision and moving UTs or satellites", "time samples are only single-precision accurate", """
fs = 30e3
g = tr38811.ChannelCoefficientsGenerator(2e9, array(precision="double"), array(precision="double"),
                                         subclustering=True, precision="double")
m = model(precision="double")
m.set_topology(**topo(dt=np.float64), los=True)
seen = {}
c0 = tr38811.ChannelCoefficientsGenerator.__call__
def coef(s, *a, **k):
    r = c0(s, *a, debug=True, **k)
    seen["t"] = np.array(r[3])
    return r[0], r[1]
tr38811.ChannelCoefficientsGenerator.__call__ = coef
m(8, fs)
check(np.max(np.abs(seen["t"]-np.arange(8)/fs)) < 1e-15, "sample times in double precision")
""")

bug("n22-frozen", "N22", [(K, """        phi = tf.random.uniform(tf.concat([shape, [4]], axis=0), minval=-PI,
            maxval=PI, dtype=self.rdtype)
""", """        static = tf.get_static_value(shape)
        if static is not None:
            phi = config.np_rng.uniform(-PI, PI, [int(n) for n in static]+[4])
            return tf.constant(phi, self.rdtype)
        phi = tf.random.uniform(tf.concat([shape, [4]], axis=0), minval=-PI,
            maxval=PI, dtype=self.rdtype)
"""), (K, "from sionna.phy.block import Object\n", "from sionna.phy.block import Object\nfrom sionna.phy import config\n")],
    "repeated executions of a compiled function with static shapes",
    "the random phases are drawn when the function is traced and never again", """
m = model()
m.set_topology(**topo(), los=False)
seen = []
s0 = tr38811.ChannelCoefficientsGenerator._step_10
def s10(s, shape):
    r = s0(s, shape)
    seen.append(r)
    return r
tr38811.ChannelCoefficientsGenerator._step_10 = s10
@tf.function
def f():
    h, _ = m(1, 1e6)
    return h, seen[-1]
a, b = f()[1].numpy(), f()[1].numpy()
check(not np.array_equal(a, b), "phases of two executions differ")
""")

bug("n22-shared", "N22", [(R, """        x = tf.random.uniform(shape=[batch_size, num_bs, num_ut,
            num_clusters_max], minval=1e-6, maxval=1.0,
            dtype=self.rdtype)
""", """        x = tf.random.uniform(shape=[batch_size, 1, num_ut,
            num_clusters_max], minval=1e-6, maxval=1.0,
            dtype=self.rdtype)
""")], "two or more BSs", "the cluster delays of a UT's links to all BSs come from the same draw", """
m = model()
m.set_topology(**topo(nb=2, nu=2), los=False)
one = tf.ones([1, 2, 2])*1e-7
d, _ = m._ray_sampler._cluster_delays(one, one)
d = d.numpy()[0]
check(not np.array_equal(d[0], d[1]), "delays of two BSs are independent")
""")

T = "OpenNTN/tdl.py"
bug("n06-indoor", "N06", [(S, """        self._distance_2d_in = tf.random.uniform(shape=[self.batch_size,
            self.num_bs, self.num_ut], minval=self.min_2d_in,
            maxval=self.max_2d_in, dtype=self.rdtype)*indoor_mask
        # Compute the outdoor 2D distances
        self._distance_2d_out = self.distance_2d - self._distance_2d_in
        # Compute the indoor 3D distances
        self._distance_3d_in = ((self._distance_2d_in/self.distance_2d)
            *self.distance_3d)
""", """        self._distance_2d_in = tf.random.uniform(shape=[self.batch_size,
            self.num_bs, self.num_ut], minval=self.min_2d_in,
            maxval=self.max_2d_in, dtype=self.rdtype)*indoor_mask
        # Compute the outdoor 2D distances
        self._distance_2d_out = self.distance_2d - self._distance_2d_in
        # Compute the indoor 3D distances
        self._distance_3d_in = ((self._distance_2d_in/self.distance_2d)
            *tf.sqrt(self.distance_2d**2 + tf.expand_dims(self.h_bs, 2)**2))
""")], "an indoor UT", "the slant range of indoor links is not split in the proportion of the 2D distance", """
s = model(elevation=30.)._scenario
t = topo(nu=2)
t["in_state"] = tf.constant([[True, False]])
s.set_topology(**t)
a, b = (s.distance_2d_in/s.distance_2d).numpy(), (s.distance_3d_in/s.distance_3d).numpy()
check(np.allclose(a, b, rtol=1e-4) and a[0, 0, 0] > 0, "indoor parts in proportion")
""")

bug("n19-spread", "N19", [(T, """        # Delays
        if self._scale_delays:
            delays = self._delays*self._delay_spread
        else:
            delays = self._delays*1e-9 # ns to s
        delays = insert_dims(delays, 3, 0)
""", """        # Delays
        if self._path_delays is None:
            self._path_delays = insert_dims(self.delays, 3, 0)
        delays = self._path_delays
"""), (T, """            self._delay_spread = value
        else:
            print""", """            self._delay_spread = value
        else:
            print"""), (T, """        if spatial_corr_mat is not None:
            spatial_corr_mat = tf.cast(""", """        # Set on the first call
        self._path_delays = None

        if spatial_corr_mat is not None:
            spatial_corr_mat = tf.cast(""")], "a realisation, then a new delay spread, then another realisation",
    "paths keep the delays of the first delay spread", """
m = tr38811.TDL(model="A", delay_spread=100e-9, carrier_frequency=2e9)
m(1, 1, 1e3)
m.delay_spread = 300e-9
d = m(1, 1, 1e3)[1].numpy().ravel()
check(np.allclose(d, m.delays.numpy(), rtol=1e-5), "delays follow the delay spread in force")
""")

bug("n19-rxcorr", "N19", [(T, """                    h = tf.matmul(self._rx_corr_mat_sqrt, h)
""", """                    h = tf.matmul(self._rx_corr_mat_sqrt, h, transpose_a=True)
""")], "a correlation matrix at the receiver only", "the receive antennas have other powers and correlations than specified", """
c = tr38811.utils.exp_corr_mat(.9, 2)
m = tr38811.TDL(model="A", delay_spread=100e-9, carrier_frequency=2e9, num_rx_ant=2, rx_corr_mat=c)
seed(1)
h = m(20000, 1, 1e3)[0].numpy()[:, 0, :, 0, 0, 0, 0]
p = np.mean(np.abs(h)**2, 0)
check(abs(p[0]/p[1] - 1) < .1, "equal powers of the receive antennas: %s" % p)
""")

bug("n23-ring", "N23", [(U, """    b = -tf.cast(0.5, dtype=rdtype)*(sigma_phi*d*tf.cos(phi))**2
""", """    b = -tf.cast(0.5, dtype=rdtype)*(sigma_phi*d*tf.cos(phi[..., :1, :]))**2
""")], "several angles at once", "the decay of all one-ring matrices is that of the first angle", """
f = tr38811.utils.one_ring_corr_mat
a = f(tf.constant([0., 60.]), 4).numpy()
b = f(60., 4).numpy()
check(np.allclose(a[1], b, atol=1e-5), "matrix of an angle in a vector")
""")

bug("n24-repeat", "N24", [("post_install.py", """        line_present = any(line_to_add in line for line in lines)
""", """        line_present = line_to_add in lines
""")], "installing twice", "every installation adds another import to Sionna's channel module", """
import os, subprocess, tempfile
d = tempfile.mkdtemp()
c = d + "/sionna/phy/channel"
os.makedirs(c)
os.makedirs(d + "/sionna-1.2.2.dist-info")
open(d + "/sionna-1.2.2.dist-info/METADATA", "w").write("Metadata-Version: 2.1\\nName: sionna\\nVersion: 1.2.2\\n")
open(c + "/__init__.py", "w").write("from . import tr38901\\nx = 1\\n")
e = dict(os.environ, PYTHONPATH=d)
at = subprocess.run([sys.executable, "-c", "import pkg_resources as p; print(p.get_distribution('sionna').location)"], env=e, capture_output=True, text=True).stdout
check(at.strip() == d, "scratch installation")
for _ in range(3):
    subprocess.run([sys.executable, "/repo/post_install.py"], env=e, cwd=d)
check(open(c + "/__init__.py").read().count("import tr38811") == 1, "one import")
""")

bug("n24-first", "N24", [("post_install.py", """        if line_present:
            print(f"Already""", """        if insert_index is None and not line_present:
            # Other layout of the module
            insert_index = len(lines)

        if line_present:
            print(f"Already""")], "a version of Sionna whose channel module does not import tr38901",
    "the import is added to a channel module that does not import tr38901", """
import os, subprocess, tempfile
d = tempfile.mkdtemp()
c = d + "/sionna/phy/channel"
os.makedirs(c)
os.makedirs(d + "/sionna-1.2.2.dist-info")
open(d + "/sionna-1.2.2.dist-info/METADATA", "w").write("Metadata-Version: 2.1\\nName: sionna\\nVersion: 1.2.2\\n")
open(c + "/__init__.py", "w").write("from .awgn import AWGN\\n")
e = dict(os.environ, PYTHONPATH=d)
at = subprocess.run([sys.executable, "-c", "import pkg_resources as p; print(p.get_distribution('sionna').location)"], env=e, capture_output=True, text=True).stdout
check(at.strip() == d, "scratch installation")
subprocess.run([sys.executable, "/repo/post_install.py"], env=e, cwd=d)
check(open(c + "/__init__.py").read() == "from .awgn import AWGN\\n", "untouched")
""")

bug("n25-los", "N25", [(C, """        los = self._scenario.los.numpy()[batch_index,bs_index]
""", """        los = self._scenario.los.numpy()[batch_index].any(axis=0)
""")], "a topology of several BSs",
    "a UT is drawn as LoS if any BS, not the requested one, is in LoS", """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = model("dur", elevation=50.)
seed(3)
m.set_topology(**topo(batch=2, nb=2, nu=24))
los = m._scenario.los.numpy()
def shown(b, i):
    n = len(plt.get_fignums())
    m.show_topology(bs_index=i, batch_index=b)
    ax = plt.gcf().axes[0]
    c = [c for c in ax.collections if c.get_label() == "UT LoS"][0]
    return sorted(float(x) for x in np.asarray(c._offsets3d[0]))
ut = np.asarray(m._scenario.ut_loc)
for b in range(2):
    for i in range(2):
        x = np.sort(ut[b, los[b, i], 0])
        y = np.array(shown(b, i))
        check(len(x) == len(y) and (np.allclose(x, y, rtol=1e-5) or np.allclose(x, 1e3*y, rtol=1e-5)), "UTs in LoS of BS %d in example %d" % (i, b))
""")

bug("n25-number", "N25", [(A, """            fig.axes[0].annotate(self._ant_ind_pol1[i].numpy()+1, (p[1], p[2]))
""", """            fig.axes[0].annotate(i*(self._num_ant//pos_pol1.shape[0])+1, (p[1], p[2]))
""")], "a dual-polarized array of several elements per panel",
    "elements are numbered as if the polarizations of an element were neighbours in the antenna order", """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
for a in (array(rows=2, cols=2), array(rows=2, cols=2, pol="dual", ptype="cross"), array(rows=1, cols=2, pol="dual", ptype="VH", num_rows=2, num_cols=2)):
    a.show()
    pos = np.asarray(a.ant_pos)
    t = plt.gcf().axes[0].texts
    check(len(t) == len(np.asarray(a.ant_ind_pol1)), "one number per element")
    for x in t:
        check(np.allclose(pos[int(x.get_text()) - 1, 1:], np.asarray(x.xy, float), atol=1e-5), "number " + x.get_text())
""")

bug("n25-axes", "N25", [(C, """            y_ = np.array([ np.cos(a)*np.sin(b)*np.sin(c)-np.sin(a)*np.cos(c),
                            np.sin(a)*np.sin(b)*np.sin(c)+np.cos(a)*np.cos(c),
                            np.cos(b)*np.sin(c) ])
""", """            y_ = np.array([ np.cos(a)*np.sin(b)*np.sin(c)-np.sin(a)*np.cos(c),
                            np.sin(a)*np.sin(b)*np.cos(c)+np.cos(a)*np.cos(c),
                            np.cos(b)*np.sin(c) ])
""")], "nodes with bearing, downtilt and slant different from zero",
    "the y axis of an orientation is drawn in a wrong direction", """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = model("urb")
m.set_topology(**topo(batch=1, nb=1, nu=3, ori=True, height=600.))
m.show_topology()
ax = plt.gcf().axes[0]
d = {}
for g in ax.lines:
    p = np.asarray(g.get_data_3d(), float)
    d.setdefault(tuple(p[:, 0]), {})[g.get_color()] = p[:, -1] - p[:, 0]
check(len(d) == 4, "nodes")
for v in d.values():
    x, y, z = (v[k]/np.linalg.norm(v[k]) for k in "rgb")
    check(np.allclose(np.cross(x, y), z, atol=1e-2), "right-handed axes")
""")


bug("n26-lsp", "N26", [(C, """        if self._always_generate_lsp:
            lsp = self._lsp_sampler()
""", """        if self._always_generate_lsp and (foo is None or not hasattr(self, "_lsp")):
            lsp = self._lsp = self._lsp_sampler()
""")], "a model with always_generate_lsp=True which is asked in the form of Sionna's channel blocks (with the batch size) more than once",
    "inside OFDMChannel or TimeChannel the large-scale parameters stay those of the first request", """
m = model("urb", direction="downlink", elevation=40., always_generate_lsp=True)
m.set_topology(**topo(batch=2, nb=1, nu=2))
for s in (3, 4):
    seed(s)
    a, tau = m(2, 2, 1e6)
    seed(s)
    b, tau2 = m(2, 1e6)
    check(np.allclose(a, b, rtol=1e-3, atol=1e-4*np.abs(a).max()) and np.allclose(tau, tau2), "both forms of a request give the same response")
""")

bug("n26-square", "N26", [(C, """            num_time_samples = sampling_frequency
            sampling_frequency = foo
""", """            if num_time_samples is not sampling_frequency:
                num_time_samples = sampling_frequency
                sampling_frequency = foo
""")], "a request with the batch size in which batch size and number of samples are the same (small) number",
    "the number of samples is taken for the sampling frequency: the Doppler is wrong", """
m = model("dur", elevation=40., doppler_enabled=True)
m.set_topology(**topo(batch=2, nb=1, nu=2))
for n in (1, 2, 3):
    seed(5)
    a, _ = m(n, 1e6)
    seed(5)
    b, _ = m(2, n, 1e6)
    check(np.allclose(a, b, rtol=1e-3, atol=1e-4*np.abs(a).max()), "both forms of a request give the same response")
""")

bug("n12-cds", "N12", [(C, """        c_ds = self._scenario.get_param("cDS")*1e-9
""", """        c_ds = getattr(self, "_c_ds", None)
        if c_ds is None or c_ds.shape != self._scenario.los.shape:
            c_ds = self._scenario.get_param("cDS")*1e-9
            self._c_ds = c_ds
""")], "the dense urban scenario at Ka band and a topology update of the same sizes after a channel was generated, with other LoS states",
    "the strongest clusters are spread by the delay spread of the former LoS state", """
m = model("dur", fc=20e9, elevation=20.)
t = topo(batch=1, nb=1, nu=1)
m.set_topology(los=True, **t)
m(1, 1e6)
m.set_topology(los=False, **t)
seed(1)
x = m(1, 1e6)
f = model("dur", fc=20e9, elevation=20.)
f.set_topology(los=False, **t)
f._lsp = m._lsp
seed(1)
y = f(1, 1e6)
check(np.allclose(x[1], y[1], rtol=1e-5, atol=1e-12), "the delays are those of a fresh model")
""")

bug("n05-carrier", "N05", [(S, """        assert ut_array._lambda_0 == bs_array._lambda_0 == self._lambda_0, \\
""", """        assert abs(ut_array._lambda_0 - self._lambda_0) < 1e-5 and abs(bs_array._lambda_0 - self._lambda_0) < 1e-5, \\
""")], "Ka band: an array designed for another carrier within 10 um of wavelength (10 MHz off)",
    "arrays made for another carrier frequency are accepted", """
for ut, bs in ((29.99e9, 30e9), (30e9, 30.01e9), (30e9, 30e9)):
    try:
        model("urb", fc=30e9, ut=array(ut), bs=array(bs))
        ok = True
    except Exception:
        ok = False
    check(ok == (ut == bs == 30e9), "arrays for %.2f and %.2f GHz at 30 GHz are %s" % (ut/1e9, bs/1e9, "accepted" if ut == bs else "refused"))
""")


def edit(text, old, new, what):
    if text.count(old) != 1:
        raise SystemExit("%s: %d matches of %r" % (what, text.count(old), old))
    return text.replace(old, new)


def main():
    only = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in BUGS:
        if only and id not in only:
            continue
        d = os.path.join(OUT, id)
        os.makedirs(d, exist_ok=True)
        files = {}
        if isinstance(edits, str):
            _, name, key = edits.split(":")
            f = "OpenNTN/models/" + name
            t = open(os.path.join(REPO, f)).read()
            m = re.search(r'("%s"\s*:\s*)([-\d.]+)' % key, t)
            files[f] = (t, t[:m.start(2)] + "%.1f" % (float(m.group(2)) * 0.9) + t[m.end(2):])
            print(id, m.group(0))
        else:
            for f, old, new in edits:
                t0, t = files.get(f) or (open(os.path.join(REPO, f)).read(),) * 2
                files[f] = (t0, edit(t, old, new, id))
        patch = ""
        for f, (a, b) in files.items():
            patch += "diff --git a/%s b/%s\n" % (f, f)
            patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write("from lib import *\n" + demo)
        for n in ("lib.py", "demo.sh"):
            shutil.copy(os.path.join(HERE, "demo", n), d)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
