"""Driver of one property check: model checking, generation, recording, validation."""
import concurrent.futures as cf
import copy, hashlib, importlib, json, os, re, shutil, sys, tempfile, time, traceback

from . import tlc

ROOT = tlc.ROOT
LEVEL = "model_checking"
KNOWN = os.path.join(ROOT, "known_findings.txt")


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, workdir):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, workdir
        self.thorough = tier == "thorough"
        self.classes = tlc.compile_java(workdir)
        self.pool = cf.ThreadPoolExecutor(8)
        self.mc_jobs, self.states, self.transitions = [], 0, 0
        self.mc_info, self.samples, self.notes, self.assumptions = [], [], [], []
        self.counters = {}
        self.episodes = []           # list of lists of events
        import numpy as np
        self.rng = np.random.default_rng([seed, int(hashlib.md5(pid.encode()).hexdigest()[:6], 16)])

    # --- specification side -------------------------------------------------
    def model_check(self, module, cfg=None, workers=4, env=None, expect_violation=None):
        """Exhaustive TLC run in the background; the specification must satisfy its properties."""
        def job():
            r = tlc.run(module, (cfg or module) + ".cfg", self.work, self.classes, env=env,
                        workers=workers, extra=("-deadlock",))
            if "Model checking completed. No error has been found" not in r.out:
                raise MachineryError("TLC on %s/%s:\n%s" % (module, cfg, r.out[-3000:]))
            return module, cfg or module, r
        self.mc_jobs.append(self.pool.submit(job))

    def generate(self, module, cfg=None, env=None, simulate=None, depth=None):
        """Run TLC to emit test cases (lines 'CASE <json>' printed by the specification)."""
        out = os.path.join(self.work, "gen_%s_%s.json" % (module, cfg or module))
        e = dict(env or {}, OUT=out)
        extra = ["-deadlock"]
        if simulate:
            extra += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
        r = tlc.run(module, (cfg or module) + ".cfg", self.work, self.classes, env=e, workers=1, extra=extra)
        cases = []
        for l in r.out.splitlines():
            if l.startswith('"CASE '):
                cases.append(json.loads(json.loads(l)[5:]))
        if not cases or "Error:" in r.out:
            raise MachineryError("TLC generation %s:\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_info.append({"generator": module, "cfg": cfg or module, "cases": len(cases)})
        return cases

    # --- implementation side ------------------------------------------------
    def episode(self, *events, **meta):
        ep = Episode(meta)
        ep.events += events
        self.episodes.append(ep)
        return ep

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


class Episode:
    def __init__(self, meta):
        self.meta = meta
        self.events = []
        self.mutant = None

    def add(self, ev, **f):
        d = {"ev": ev}
        d.update({k: jsonable(v) for k, v in f.items()})
        self.events.append(d)
        return d


def jsonable(x):
    import numpy as np
    if hasattr(x, "numpy"):
        x = x.numpy()
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        if np.iscomplexobj(x):
            x = np.stack([x.real, x.imag], -1)
        if x.dtype.kind == "f":
            x = x.astype(np.float64)
        if x.dtype.kind == "S" or x.dtype.kind == "U":
            return str(x)
        return jsonable(x.tolist())
    if isinstance(x, float):
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        return x
    if isinstance(x, complex):
        return [jsonable(x.real), jsonable(x.imag)]
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    return x


def leaf_paths(x, path=()):
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaf_paths(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from leaf_paths(v, path + (k,))
    else:
        yield path


def mutate(ep, fields, rng, how=None):
    """A copy of the episode with one leaf of one observed field changed, or None."""
    cand = []
    for i, e in enumerate(ep.events):
        for f in fields:
            name, _, ev = f.partition("@")
            if ev and e["ev"] != ev:
                continue
            path, o = tuple(name.split(".")), e
            for k in path:
                o = o.get(k) if isinstance(o, dict) else None
            if o is not None:
                cand.append((i, path, o))
    if not cand:
        return None
    i, f, o = cand[rng.integers(len(cand))]
    new = Episode(dict(ep.meta))
    new.events = copy.deepcopy(ep.events)
    leaves = list(leaf_paths(o, f))
    if not leaves:
        return None
    p = leaves[rng.integers(len(leaves))]
    o = new.events[i]
    for k in p[:-1]:
        o = o[k]
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
    elif isinstance(v, int):
        o[p[-1]] = v + 1
    elif isinstance(v, float):
        o[p[-1]] = v * 1.37 + 0.731 if abs(v) > 1e-6 else v * 5 + 0.731
    else:
        return None
    new.mutant = "%d:%s" % (i, "/".join(map(str, p)))
    return new


def write_trace(path, eps):
    """Write episodes; returns, per line (1-based), the index of its episode."""
    owner = [None]
    with open(path, "w") as f:
        for n, ep in enumerate(eps):
            f.write(json.dumps(jsonable({"ev": "begin", "ep": n, **ep.meta})) + "\n")
            owner.append(n)
            for e in ep.events:
                f.write(json.dumps(jsonable(e)) + "\n")
                owner.append(n)
    return owner


FAIL = re.compile(r'^<<"FAIL", (\d+), "([^"]*)">>', re.M)
DONE = re.compile(r'^<<"DONE", (\d+)>>', re.M)


def validate(ctx, module, eps, env=None):
    """Validate episodes with TLC.  Returns {episode index: set(clauses)}, stats."""
    groups = [[] for _ in range(min(7, max(1, len(eps))))]
    sizes = [0] * len(groups)
    weights = [len(json.dumps(jsonable([e for e in ep.events]))) + 200 for ep in eps]
    for i in sorted(range(len(eps)), key=lambda i: -weights[i]):
        g = sizes.index(min(sizes))
        groups[g].append(i)
        sizes[g] += weights[i]

    def job(gi):
        idx = groups[gi]
        path = os.path.join(ctx.work, "trace_%s_%d.ndjson" % (module, gi))
        bad, stats = {}, [0, 0]
        todo = list(idx)
        while todo:
            owner = write_trace(path, [eps[i] for i in todo])
            r = tlc.run(module, module + ".cfg", ctx.work, ctx.classes, workers=1,
                        env=dict(env or {}, TRACE=path), extra=("-deadlock",))
            for l, c in FAIL.findall(r.out):
                bad.setdefault(todo[owner[int(l)]], set()).add(c)
            stats[0] += r.distinct
            stats[1] += r.generated
            d = DONE.findall(r.out)
            if d and int(d[-1]) == len(owner) - 1 and "Error:" not in r.out:
                break
            # The specification cannot interpret some event of the trace: the trace is
            # not a behaviour of the specification.  Continue behind that episode.
            m = re.findall(r"^/?\\?\s*l = (\d+)$", r.out, re.M)
            # the interpretation error happens while leaving the state with the largest l
            if "Error:" not in r.out or "OutOfMemory" in r.out or "TIMEOUT" in r.out \
                    or "Parsing or semantic analysis failed" in r.out or not re.search(r'"AT", (\d+)', r.out):
                raise MachineryError("TLC on trace %s:\n%s" % (module, r.out[-3500:]))
            at = int(re.findall(r'"AT", (\d+)', r.out)[-1])
            k = owner[at]
            ctx.notes.append("uninterpretable event in %s line %d: %s" %
                             (module, at, " ".join(re.findall(r"Error: .*(?:\n.*){0,3}", r.out))[:600]))
            bad.setdefault(todo[k], set()).add("Uninterpretable")
            todo = todo[k + 1:]
        return bad, stats

    bad, st = {}, [0, 0]
    with cf.ThreadPoolExecutor(7) as pool:
        for b, s in pool.map(job, range(len(groups))):
            bad.update(b)
            st[0] += s[0]
            st[1] += s[1]
    return bad, st


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main(pid, tier, seed, replay=None):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="ntnv_%s_" % pid)
    try:
        return _main(pid, tier, seed, work, t0, replay)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s check machinery failed" % pid)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(pid, tier, seed, work, t0, replay):
    ctx = Ctx(pid, tier, seed, work)
    mod = importlib.import_module("ntnv.props.%s" % pid.lower())
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    if replay:
        for l in open(replay):
            e = json.loads(l)
            if e["ev"] == "begin":
                e.pop("ev"), e.pop("ep", None)
                ep = ctx.episode(**e)
            else:
                ep.events.append(e)
        bad, _ = validate(ctx, mod.TRACE, ctx.episodes, getattr(mod, "TRACE_ENV", None))
        for i, c in bad.items():
            print("episode %d: %s" % (i, sorted(c)))
        return 1 if bad else 0

    mod.run(ctx)                       # submits model checking, generates and records
    eps = ctx.episodes
    n_real = len(eps)
    if n_real == 0:
        raise MachineryError("no episode recorded")
    t_rec = time.time()
    # conformance demonstration: corrupted recordings must be rejected
    muts = []
    spec = getattr(mod, "MUTATE", None)
    if spec:
        want = 10 if tier == "quick" else 30
        ok = [e for e in eps if not e.meta.get("nomutate")]
        for k in range(want * 6):
            if len(muts) >= want or not ok:
                break
            m = mutate(ok[ctx.rng.integers(len(ok))], [spec[k % len(spec)]], ctx.rng)
            if m:
                muts.append(m)
    all_eps = eps + muts
    bad, st = validate(ctx, mod.TRACE, all_eps, getattr(mod, "TRACE_ENV", None))
    for j in ctx.mc_jobs:
        m, c, r = j.result()
        ctx.states += r.distinct
        ctx.transitions += r.generated
        ctx.mc_info.append({"model": m, "cfg": c, "distinct_states": r.distinct,
                            "transitions": r.generated, "depth": r.depth,
                            "wall_s": round(r.wall, 1)})
    real_bad = {i: c for i, c in bad.items() if i < n_real}
    vac = [m.mutant for i, m in enumerate(muts) if not bad.get(n_real + i)]
    if vac:
        ctx.notes.append("corrupted recordings accepted: %s" % vac[:5])
    if 2 * len(vac) > len(muts) and not real_bad:
        raise MachineryError("corrupted recordings were accepted: %s" % vac[:5])

    # findings
    new, known_hit = {}, {}
    kf = known_findings(pid)
    for i, c in real_bad.items():
        key = eps[i].meta.get("key", "")
        for x in c:
            hit = [k for k in kf if k[0] == "%s/%s" % (key, x)]
            if hit:
                known_hit[hit[0]] = True
            else:
                new.setdefault(i, set()).add(x)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    viol_path = None
    if new:
        rp = os.path.join(ev_dir, "replays")
        os.makedirs(rp, exist_ok=True)
        viol_path = os.path.join(rp, "%s_%s_%d.ndjson" % (pid, tier, seed))
        write_trace(viol_path, [eps[i] for i in sorted(new)[:20]])

    cov = {
        "states": ctx.states + st[0], "transitions": ctx.transitions + st[1],
        "traces_validated_against_impl": n_real,
        "evaluations": sum(len(e.events) for e in eps),
        "corrupted_traces_rejected": len(muts) - len(vac),
        "models": ctx.mc_info,
        "trace_spec": mod.TRACE,
        "trace_states": st[0],
        "counters": ctx.counters,
        "exhaustive": bool(getattr(mod, "EXHAUSTIVE", False)),
        "samples": [jsonable({**e.meta, "events": [ev.get("ev") for ev in e.events][:12]}) for e in eps[:3]]
                   + ctx.samples[:5],
        "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
    }
    evd = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("property=%s tier=%s seed=%d episodes=%d events=%d model_states=%d mutants=%d/%d record=%.1fs wall=%.1fs" %
          (pid, tier, seed, n_real, cov["evaluations"], ctx.states, len(muts) - len(vac), len(muts),
           t_rec - t0, time.time() - t0))
    for n in ctx.notes[:5]:
        print("note:", n)
    if new:
        for i in sorted(new)[:15]:
            print("  episode %d %s: fails %s" % (i, json.dumps(jsonable(eps[i].meta))[:300], sorted(new[i])))
        print("VIOLATION property=%s replay=%s" % (pid, viol_path))
        return 1
    return 0
