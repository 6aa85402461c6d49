"""Running TLC: model checking, simulation, case generation, trace validation."""
import os, re, subprocess, shutil, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.generated = self.distinct = 0
        m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"(\d[\d,]*) states generated", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def compile_java(workdir):
    """Compile the FloatMath override; returns the class directory."""
    cls = os.path.join(workdir, "classes")
    os.makedirs(cls, exist_ok=True)
    subprocess.run(["javac", "-cp", JARS, "-d", cls,
                    os.path.join(SPEC, "java", "FloatMath.java")],
                   check=True, capture_output=True)
    return cls


def run(module, cfg, workdir, classes, env=None, workers=1, extra=(), timeout=800,
        heap="3g", cfg_text=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns a TlcResult."""
    meta = os.path.join(workdir, "meta_%s_%d" % (module, time.time_ns()))
    os.makedirs(meta)
    if cfg_text is not None:
        cfgp = os.path.join(meta, "generated.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg_text)
    else:
        cfgp = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e["SPECDIR"] = SPEC
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-DTLA-Library=" + SPEC,
           "-cp", ":".join([classes, JARS]), "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgp, *extra,
           os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t0)
