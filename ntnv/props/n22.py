"""N22: randomness.  TLC checks, on a machine of the random sources (generator, process counter, compiled functions),
that realisations are fresh in one epoch and reproduced by equal seeds and operations; plans it draws are executed on
real models, eager and compiled, and every realisation is compared with all others and with the specified content."""
import hashlib
import numpy as np
from .. import common

TRACE = "Tr_N22"
MUTATE = ["a@sys", "phi@sys", "tau@sys", "pl.g@sys", "a@sys"]

ASSUMPTIONS = ["a topology is not updated outside of a compiled function which was traced before",
               "TensorFlow's random operations start over in every compiled function: models compiled separately are not compared"]


def run(ctx):
    ctx.model_check("MC_N22", "MC_N22_full" if ctx.thorough else "MC_N22")
    cases = ctx.generate("MC_N22", "Gen_N22_long" if ctx.thorough else "Gen_N22", simulate=1500, depth=20)
    from .. import sut, cir
    tf, rng = sut.tf, ctx.rng
    quota = {"none": 60, "call": 24, "link": 24} if ctx.thorough else {"none": 8, "call": 1, "link": 2}
    picked = []
    for k, n in quota.items():
        picked += common.cover(ctx, [{**c["cfg"], "plan": c["plan"]} for c in cases
                                     if c["cfg"]["compiled"] == k and (k == "none" or k in c["plan"])],
                               n, keys=sorted(cases[0]["cfg"]))
    twins(ctx, cases)
    coins = ctx.episode(kind="coins", nomutate=True)
    for n, c in enumerate(picked):
        ep = ctx.episode(**c)
        common.guarded(ep, lambda: Plans(ctx, ep, c, coins, n).run())
    coins.add("end")


def twins(ctx, cases):
    """Links with the same inputs: every value drawn for them differs."""
    from .. import sut, rays
    rng = ctx.rng
    pick = common.cover(ctx, [{k: c["cfg"][k] for k in ("scn", "dir", "f", "el")} for c in cases],
                        80 if ctx.thorough else 10, keys=["scn", "dir", "f", "el"])
    for n, c in enumerate(pick):
        los = n % 2 == 0
        ep = ctx.episode(**c, kind="twins", los=los, nomutate=True)

        def go():
            sut.seed(rng.integers(1 << 30))
            b, nb, nu = 3, 3, 3
            az = rng.uniform(-np.pi, np.pi)     # far off: zeniths near 90 degrees
            ut = np.tile([3e6 * np.cos(az), 3e6 * np.sin(az), rng.uniform(1, 9)], (b, nu, 1))
            bs = np.tile([0, 0, rng.uniform(8e3, 1e5)], (b, nb, 1))
            s, g, t = rays.setup(rng, c, b, nb, nu, ut=ut, bs=bs, los=str(los).lower())
            one = np.ones((b, nb, nu))
            v = {k: float(x.flat[0]) * one for k, x in rays.lsp_values(rng, (1,)).items()}
            for q in ("asa", "asd", "zsa", "zsd"):
                v[q] = rng.uniform(.3, 1.) * one    # nothing is folded
            v["k_factor"] = rng.uniform(1., 10.) * one
            lsp = sut.ntn.LSP(**{k: rays.T(x) for k, x in v.items()})
            given = None
            for k in range(4):
                r = g(lsp)
                r = {q: np.asarray(getattr(r, q)) for q in rays.ANG + ("delays", "powers", "xpr")}
                if k > 1:
                    # each stage on its own, twice: even given all that came before, its values are drawn
                    if given is None:
                        u = np.asarray(g._cluster_delays(lsp.ds, lsp.k_factor)[1])
                        given = np.tile(u[:1, :1, :1], (b, nb, nu, 1)), np.tile(r["powers"][:1, :1, :1], (b, nb, nu, 1))
                    r["powers"] = np.asarray(g._cluster_powers(lsp.ds, lsp.k_factor, rays.T(given[0]))[0])
                    for q in rays.ANG:
                        r[q] = np.asarray(getattr(g, rays.CALL[q])(getattr(lsp, {"aoa": "asa", "aod": "asd", "zoa": "zsa", "zod": "zsd"}[q]),
                                                                   lsp.k_factor, rays.T(given[1]))) * np.pi / 180
                # centres of the clusters, whatever the order of the rays
                vals = {q: np.angle(np.exp(1j * r[q]).mean(-1)) for q in rays.ANG}
                vals.update(delays=r["delays"], powers=r["powers"], xpr=r["xpr"][..., 0])
                ep.add("twins", cfg=rays.cfg_of(c), los=s.los, height=bs[0, :, 2], power=r["powers"] > 0,
                       vals={q: np.vectorize("%.9e".__mod__, otypes=[object])(x).tolist() for q, x in vals.items()})
                ctx.count("twins", b * nb * nu)
        common.guarded(ep, go)


def texts(x):
    """Exact decimal texts of the elements of an array (nested lists)."""
    return np.vectorize(lambda v: float(v).hex(), otypes=[object])(np.asarray(x)).tolist()


def digest(tree):
    h = hashlib.sha256()
    for k in sorted(tree):
        v = np.ascontiguousarray(np.asarray(tree[k]))
        h.update(("%s%s%s" % (k, v.dtype, v.shape)).encode() + v.tobytes())
    return h.hexdigest()[:32]


class Plans:
    def __init__(self, ctx, ep, c, coins, n):
        from .. import sut, cir
        self.sut, self.cir, self.tf = sut, cir, sut.tf
        self.ctx, self.ep, self.c, self.plan, self.coins, self.n = ctx, ep, c, c["plan"], coins, n
        rng, c = ctx.rng, self.c
        self.b, self.nb, self.nu = (3 if c["compiled"] == "none" else 2), c["nb"], int(rng.integers(2, 4))
        self.hz = float(c["f"]) * 1e9
        self.prec = c["prec"]
        self.uta, self.bsa = [cir.arr_cfg(rng, self.hz, max_ant=2) for _ in "ab"]
        # batch examples with equal inputs
        hb = cir.heights_of(rng, c["heights"], 1, self.nb)
        if c["heights"] == "sat":
            hb[:] = hb[0, 0]
        t = sut.random_topo(rng, 1, self.nb, self.nu, hb, spread=10 ** rng.uniform(2, 4), speed=0.)
        self.topo = {k: np.repeat(v, self.b, 0) for k, v in t.items()}
        self.nt, self.fs = 2, 5e6
        s0 = int(rng.integers(1, 1 << 20))
        # (a TensorFlow generator counts from its seed: seeds next to each other give overlapping streams)
        self.epochs = [(s0, self.plan)] + ([((1 << 24) + s0, self.plan[:3])] if c["compiled"] == "none" else []) + [(s0, self.plan)]

    def inputs(self):
        a = self.sut.topo_args(self.topo, self.prec)
        if self.c["los"] != "drawn":
            a["los"] = self.c["los"] == "true"
        return a

    def make(self):
        c, sut = self.c, self.sut
        return sut.model({**c}, self.cir.make_array(self.uta, self.prec), self.cir.make_array(self.bsa, self.prec),
                         enable_pathloss=c["pl"], enable_shadow_fading=c["sf"], always_generate_lsp=c["always"])

    def realise(self, update):
        """One realisation and everything drawn for it, as a flat dictionary of tensors."""
        m = self.m
        if update:
            m.set_topology(**self.inputs())
        with self.sut.Recorder() as r:
            a, tau = m(self.nt, self.fs)
            log = {k: v for k, v in r.take()}
        s, y, g = m._scenario, log["rays"], log["cir"]
        out = {"a": a, "tau": tau, "los": s.los, "phi": g["phi"], "h": g["h"],
               "pl.b": s.basic_pathloss, "pl.g": s.gas_pathloss, "pl.s": s.scintillation_pathloss,
               "pl.e": s.entry_pathloss, "los_aoa": s.los_aoa, "los_aod": s.los_aod, "los_zod": s.los_zod}
        out.update({"lsp." + k: v for k, v in y["lsp"].items()})
        out.update({"rays." + k: y[k] for k in self.cir.RAYS})
        return out

    def run(self):
        c, tf = self.c, self.tf
        double = self.prec == "double"
        for k, (seed, plan) in enumerate(self.epochs):
            self.ep.add("epoch", seed=seed)
            self.sut.seed(seed)
            self.m = self.make()
            self.m.set_topology(**self.inputs())
            fns = {}
            for op in plan[1:]:
                if op == "update":
                    self.m.set_topology(**self.inputs())
                    self.ep.add("update")
                    continue
                if op == "eager":
                    r = self.realise(False)
                else:
                    if op not in fns:
                        fns[op] = tf.function(lambda link=(op == "link"): self.realise(link))
                    r = fns[op]()
                self.emit(op, {k: v.numpy() for k, v in r.items()}, double, k)
                if op == "link":        # the compiled update left symbolic tensors behind
                    self.m.set_topology(**self.inputs())
                    self.ep.add("update")
                self.ctx.count("realisations." + op)

    def emit(self, op, r, double, epoch):
        c, ep = self.c, self.ep
        if op == "link":
            ep.add("update")
        keep = r["rays.powers"] > 0
        first = {k: r["rays." + k] for k in ("delays", "powers")}
        first.update({k: r["rays." + k][..., 0] for k in ("aoa", "aod", "zoa", "zod", "xpr")})
        order = {k: np.apply_along_axis(lambda v: k + " " + " ".join(str(x) for x in np.argsort(v)), -1, r["rays." + k])
                 for k in ("aoa", "aod", "zoa", "zod")}
        h = r["h"]                       # [b, tx, rx, paths, rxant, txant, t]
        w = (h[..., 1] * np.conj(h[..., 0])).sum((3, 4, 5))[:, 0, 0]
        heading = ["%.9e" % np.angle(x) for x in w if abs(x) > 0] if c["heights"] == "sat" else []
        los = r["los"].astype(bool)
        lsp = np.concatenate([r["lsp." + k].ravel() for k in ("ds", "asd", "sf")])
        lsp = lsp[(lsp != 104.) & (lsp != 0)]
        free = bool(c["sf"])
        ep.add("real", op=op, digest=digest(r), double=double, always=c["always"], power=keep, los=los, cfg=self.cir.system_config(c), height=self.topo["bs_loc"][0, :, 2],
               vals={k: texts(v) for k, v in first.items()}, order={k: v.tolist() for k, v in order.items()},
               phases=[x.hex() for x in r["phi"][..., 0, :].ravel().tolist()], heading=heading,
               lsp=[float(x).hex() for x in lsp], free=free, loss=[float(x).hex() for x in r["pl.b"].ravel()])
        if epoch == 0:
            sg = {}
            for q in ("aoa", "aod", "zod"):
                d = r["rays." + q] - np.deg2rad(r["los_" + q])[..., None, None]
                sg[q] = np.sign(np.angle(np.exp(1j * d).mean(-1))).astype(int)
            self.coins.add("coins", id="%d%s" % (self.n, op), group="eager" if op == "eager" else "compiled",
                           sgn=sg, los=los, power=keep, cfg=self.cir.system_config(c), height=self.topo["bs_loc"][0, :, 2], free=c["los"] == "drawn" and op == "link")
            if double and (op != "eager" or self.ctx.rng.random() < .2):
                t = self.topo
                ep.add("sys", cfg=self.cir.system_config(c), hz=self.hz, uta=self.uta, bsa=self.bsa, ut=t["ut_loc"],
                       bs=t["bs_loc"], uo=t["ut_orientations"], bo=t["bs_orientations"], vel=t["ut_velocities"], los=los,
                       dop=True, plon=c["pl"], sfon=c["sf"], nt=self.nt, fs=self.fs, req=c["los"],
                       rays={n: r["rays." + n] for n in self.cir.RAYS}, k=r["lsp.k_factor"], sf=r["lsp.sf"],
                       phi=r["phi"], pl={k: r["pl." + k] for k in "bgse"}, a=r["a"], tau=r["tau"])
                self.ctx.count("contents")
