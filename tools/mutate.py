#!/usr/bin/env python3
"""mutate.py list | run N [seed] [file-regex]: syntactic mutants of OpenNTN, to find what the checks do not notice.
Each mutant is written into a private copy of /repo (bind-mounted in a user namespace), smoke-tested (mutants that crash any
ordinary use are dropped) and given to the checks of its file until one reports a violation.  Results: /tmp/x/mut/log.txt"""
import ast, os, random, re, shutil, subprocess, sys, json, time
SRC, W = "/repo/OpenNTN", "/tmp/x/mut"
FILES = {
    "utils.py": None, "lsp.py": ["N16", "N02", "N07"], "rays.py": ["N11", "N10", "N09"],
    "channel_coefficients.py": ["N13", "N12", "N14", "N15"], "system_level_channel.py": ["N09", "N08", "N02", "N22", "N05"],
    "system_level_scenario.py": ["N01", "N06", "N03", "N07", "N04", "N05", "N02", "N21"],
    "dense_urban_scenario.py": ["N04", "N05", "N03", "N21"], "urban_scenario.py": ["N04", "N05", "N03", "N21"],
    "sub_urban_scenario.py": ["N04", "N05", "N03", "N21"], "antenna.py": ["N17", "N05", "N13", "N21"], "tdl.py": ["N19", "N21"],
    "dense_urban.py": ["N05", "N02"], "urban.py": ["N05", "N02"], "sub_urban.py": ["N05", "N02"]}
UTIL = [("pathloss", ["N07"]), ("topology|sector|relocate|3gpp_scenario", ["N18", "N21"]), ("cir_to|time_|subcarrier", ["N20"]),
        ("corr_mat|deg|wrap|bernoulli", ["N23"]), ("satellite|stallite", ["N14"])]
SKIP = re.compile("interferers|compute_pathloss_additional|stallite|show|__str__|dtype$")


def checks(f, fn):
    if FILES[f]:
        return FILES[f]
    return next((c for p, c in UTIL if re.search(p, fn)), ["N20"])


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.off = [0]
        for l in src.encode().splitlines(True):
            self.off.append(self.off[-1] + len(l))

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def txt(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, ".".join(self.fn), n.lineno))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def visit_Assert(self, n):
        self.visit(n.test)
        if self.fn:
            self.rep(n, "pass", "del-assert")

    def visit_Raise(self, n):
        self.rep(n, "pass", "del-raise")

    def visit_BinOp(self, n):
        op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}.get(type(n.op))
        if op:
            self.rep(n, "((%s) %s (%s))" % (self.txt(n.left), op, self.txt(n.right)), "op" + op)
            self.rep(n, "(%s)" % self.txt(n.left), "left")
        self.generic_visit(n)

    def visit_Compare(self, n):
        op = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
        if op and len(n.ops) == 1:
            self.rep(n, "((%s) %s (%s))" % (self.txt(n.left), op, self.txt(n.comparators[0])), "cmp" + op)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.rep(n, "(%s)" % self.txt(n.values[0]), "bool-first")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.rep(n, str(not v), "flip")
        elif isinstance(v, int):
            self.rep(n, str(v + 1), "int+1")
            if v > 0:
                self.rep(n, str(v - 1), "int-1")
        elif isinstance(v, float):
            self.rep(n, repr(v * 1.03 + (v == 0) * .1), "float")

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Name, ast.Attribute)) and isinstance(n.value, ast.Call):
            name = self.txt(t)
            for a in list(n.value.args) + [k.value for k in n.value.keywords]:
                if self.txt(a) == name:      # x = f(x, ...) dropped
                    self.rep(n, "pass", "del-assign")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.rep(n, "pass", "del-call")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.txt(n.func)
        sw = {"sin": "cos", "cos": "sin", "minimum": "maximum", "maximum": "minimum", "reduce_sum": "reduce_mean",
              "logical_and": "logical_or", "logical_or": "logical_and", "less": "less_equal", "greater": "greater_equal",
              "greater_equal": "greater", "less_equal": "less", "normal": "uniform", "sqrt": "abs", "square": "abs", "expand_dims": None}
        last = f.split(".")[-1]
        if sw.get(last):
            self.rep(n.func, f[:len(f) - len(last)] + sw[last], "fn")
        if len(n.args) >= 2 and not any(isinstance(a, (ast.Constant, ast.List, ast.Starred)) for a in n.args[:2]):
            a, b = n.args[0], n.args[1]
            self.rep(n, self.src.encode()[self.pos(n)[0]:self.pos(a)[0]].decode() + self.txt(b) + ", " + self.txt(a)
                     + self.src.encode()[self.pos(b)[1]:self.pos(n)[1]].decode(), "swap")
        if f == "tf.where" and len(n.args) == 3:
            a, b, c = n.args
            self.rep(n, "tf.where(%s, %s, %s)" % (self.txt(a), self.txt(c), self.txt(b)), "where-swap")
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, "True", "if-true")
        self.rep(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        pairs = ["los_aoa los_aod", "los_zoa los_zod", "aoa aod", "zoa zod", "ut_orientations bs_orientations", "_tx_array _rx_array",
                 "tx_orientations rx_orientations", "_ut_loc _bs_loc", "num_ut num_bs", "distance_2d distance_3d", "asa asd", "zsa zsd"]
        for p in pairs:
            a, b = p.split()
            if n.attr in (a, b) and isinstance(n.ctx, ast.Load):
                self.rep(n, self.txt(n)[:-len(n.attr)] + (b if n.attr == a else a), "attr")
        self.generic_visit(n)


def points():
    out = []
    for f in FILES:
        src = open(os.path.join(SRC, f)).read()
        v = V(src)
        v.visit(ast.parse(src))
        for a, b, new, kind, fn, line in v.out:
            if fn and not SKIP.search(fn):
                out.append({"file": f, "a": a, "b": b, "new": new, "kind": kind, "fn": fn, "line": line,
                            "old": src.encode()[a:b].decode()})
    return out


SMOKE = r'''
import sys; sys.path.insert(0, "/verif")
from ntnv import sut
import numpy as np
rng = np.random.default_rng(1)
for scn, d, f, al in (("dur", "uplink", 2.2, False), ("urb", "downlink", 28., True), ("sur", "uplink", 28., False)):
    c = {"scn": scn, "dir": d, "f": f, "el": 40., "prec": "double"}
    m = sut.model(c, ut_array=sut.array(f, 1, 2, "dual", "cross"), always_generate_lsp=al)
    for b in (2, 3):
        m.set_topology(**sut.topo_args(sut.random_topo(rng, b, 2, 3), "double"))
        m(3, 1e4)
'''


def run(n, seed, rx):
    ps = [p for p in points() if re.search(rx, p["file"] + ":" + p["fn"])]
    rnd = random.Random(seed)
    by = {}
    for p in ps:
        by.setdefault((p["file"], p["fn"]), []).append(p)
    for v in by.values():
        rnd.shuffle(v)
    order, keys = [], list(by)
    while any(by.values()):       # round robin over functions, larger functions more often
        rnd.shuffle(keys)
        for k in keys:
            for _ in range(1 + len(by[k]) // 25):
                if by[k]:
                    order.append(by[k].pop())
    w = os.path.join(W, "w%s" % seed)
    shutil.rmtree(w, True)
    os.makedirs(w)
    subprocess.run("cp -a /repo/. %s/repo; mkdir -p %s/verif/evidence; cd /verif; cp -a --parents $(git ls-files | grep -v ^seeded/) %s/verif"
                   % (w, w, w), shell=True, check=True)
    c = w + "/verif/ntnv/core.py"
    s = open(c).read()
    s = s.replace('        """Exhaustive TLC run in the background; the specification must satisfy its properties."""\n', "        return\n")
    open(c, "w").write(s)
    open(w + "/smoke.py", "w").write(SMOKE)
    ns = "mount --bind %s/repo /repo; mount --bind %s/verif /verif; . /opt/vp/env.sh; " % (w, w)
    done = set(json.loads(l)["id"] for l in open(W + "/log.txt")) if os.path.exists(W + "/log.txt") else set()
    for p in order:
        if n <= 0:
            break
        i = "%s:%s:%d:%s:%s" % (p["file"], p["fn"], p["a"], p["kind"], p["old"][:20])
        if i in done:
            continue
        src = open(os.path.join(SRC, p["file"])).read().encode()
        new = src[:p["a"]] + p["new"].encode() + src[p["b"]:]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        open("%s/repo/OpenNTN/%s" % (w, p["file"]), "wb").write(new)
        t0 = time.time()
        sm = subprocess.run(["unshare", "-Urm", "bash", "-c", ns + "timeout 100 python %s/smoke.py" % w], capture_output=True, text=True)
        res = "crash"
        if sm.returncode == 0:
            res = "SURVIVED"
            for ck in checks(p["file"], p["fn"]):
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", ns + "cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh " + ck],
                                   capture_output=True, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = ck
                    break
                if r.returncode != 0:
                    res = "ERROR %s rc=%d %s" % (ck, r.returncode, (r.stdout + r.stderr)[-300:])
                    break
        open("%s/repo/OpenNTN/%s" % (w, p["file"]), "wb").write(src)
        if res != "crash":
            n -= 1
        with open(W + "/log.txt", "a") as o:
            o.write(json.dumps({"id": i, "res": res, "line": p["line"], "old": p["old"][:150], "new": p["new"][:150], "t": round(time.time() - t0)}) + "\n")
    shutil.rmtree(w, True)


if sys.argv[1] == "list":
    from collections import Counter
    print(Counter(p["file"] for p in points()))
else:
    run(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else "")
