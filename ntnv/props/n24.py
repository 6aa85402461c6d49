"""N24: integration into Sionna.  TLC checks the machine of installing (failing writes, crashes, repetition) and enumerates
contents of Sionna's channel module, links and histories; the real scripts are run on scratch installations, as an
unprivileged user, with stand-ins for pip and curl."""
import ast, hashlib, os, resource, shutil, stat, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from .. import common

TRACE = "Tr_N24"
MUTATE = ["after@op", "link@op", "mode1@op"]
NOBODY = 65534
I8, I9 = "from . import tr38811", "from . import tr38901"
OTHER = ['"""Channel"""', "from .awgn import AWGN", "# comment on tr", "", "import os as _os", "from .x import a,\\\n    b",
         "from . import optical", "X = 'tr38811'", "# D\u00fcsseldorf", "from .tr38811x import y", "def f():\n    pass"]
ASSUMPTIONS = ["pip and curl are stand-ins: pip shows the scratch folder, curl copies the scripts of /repo"]


class Site:
    """A scratch installation of Sionna with the given channel module."""

    def __init__(self, c, rng):
        self.c, self.root = c, tempfile.mkdtemp(prefix="ntnv_inst_")
        os.chmod(self.root, 0o755)
        self.site = os.path.join(self.root, "site")
        sub = "channel" if c["legacy"] else "phy/channel"
        self.chan = os.path.join(self.site, "sionna", *sub.split("/"))
        os.makedirs(self.chan)
        p = self.chan
        while p != self.site:
            open(os.path.join(p, "__init__.py"), "a").close()
            p = os.path.dirname(p)
        d = os.path.join(self.site, "sionna-1.2.2.dist-info")
        os.makedirs(d)
        open(d + "/METADATA", "w").write("Metadata-Version: 2.1\nName: sionna\nVersion: 1.2.2\n")
        open(d + "/RECORD", "w").write("")
        open(d + "/INSTALLER", "w").write("pip\n")
        d = os.path.join(self.site, "openntn-0.1.0.dist-info")
        os.makedirs(d)
        open(d + "/METADATA", "w").write("Metadata-Version: 2.1\nName: OpenNTN\nVersion: 0.1.0\n")
        open(d + "/RECORD", "w").write("")
        open(d + "/INSTALLER", "w").write("pip\n")
        self.pkg, self.old = os.path.join(self.site, "OpenNTN"), os.path.join(self.root, "old", "OpenNTN")
        for x in (self.pkg, self.old):
            os.makedirs(x)
            open(x + "/__init__.py", "w").write("# OpenNTN\n")
        self.init, self.lnk = os.path.join(self.chan, "__init__.py"), os.path.join(self.chan, "tr38811")
        if c["real"]:
            import importlib.util
            text = open(os.path.join(os.path.dirname(importlib.util.find_spec("sionna").origin), "phy/channel/__init__.py")).read()
            lines = [x for x in text.split("\n")[:-1] if x != I8]
        else:
            lines = []
            for x in c["file"]:
                lines += OTHER[rng.integers(len(OTHER))].split("\n") if x == "other" else [x]
        open(self.init, "w", encoding="utf-8").write("\n".join(lines) + ("\n" if c["eol"] and lines else ""))
        os.chmod(self.init, int(rng.choice([0o644, 0o664, 0o640])))
        to = {"right": self.pkg, "stale": self.old, "dangling": os.path.join(self.root, "gone", "OpenNTN")}.get(c["link"])
        if to:
            os.symlink(to, self.lnk)
        self.bin, self.cwd, self.scripts = (os.path.join(self.root, x) for x in ("bin", "cwd", "scripts"))
        for x in (self.bin, self.cwd, self.scripts, os.path.join(self.root, "tmp")):
            os.makedirs(x)
        for x in ("install.sh", "install_legacy.sh", "post_install.py", "post_install_legacy.py"):
            shutil.copy("/repo/" + x, self.scripts)
        shutil.copy(os.path.join(os.path.dirname(os.path.dirname(__file__)), "install_kill.py"), self.root)

        def stub(name, text):
            open(os.path.join(self.bin, name), "w").write("#!/bin/bash\n" + text)
            os.chmod(os.path.join(self.bin, name), 0o755)
        py = 'exec %s "$@"\n' % sys.executable
        pip = 'if [ "$1" = show ]; then for p in "${@:2}"; do echo "Name: $p"; echo "Version: 1"; echo "Location: %s"; done; fi\nexit 0\n' % self.site
        for n in ("pip", "pip3"):
            stub(n, pip)
        for n in ("python", "python3"):
            stub(n, py)
        stub("curl", 'o=; u=\nwhile [ $# -gt 0 ]; do case "$1" in -o) o=$2; shift;; -*) ;; *) u=$1;; esac; shift; done\n'
                     'cp "%s/$(basename "$u")" "${o:-/dev/stdout}"\n' % self.scripts)
        stub("wget", 'exit 1\n')
        for p, ds, fs in os.walk(self.root):
            for x in [p] + [os.path.join(p, f) for f in fs + ds]:
                os.lchown(x, NOBODY, NOBODY)
        self.env = {"PATH": self.bin + ":/usr/bin:/bin", "PYTHONPATH": self.site, "HOME": self.cwd, "LANG": "C.UTF-8",
                    "TMPDIR": os.path.join(self.root, "tmp"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore"}

    def exec(self, args, limit=None):
        def pre():
            if limit is not None:
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.run(args, cwd=self.cwd, env=self.env, user=NOBODY, group=NOBODY, extra_groups=[], umask=0o022,
                              preexec_fn=pre, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)

    def state(self):
        raw = open(self.init, "rb").read()
        text = raw.decode("utf-8")
        lines = text.split("\n")
        eol = lines[-1] == ""
        if eol:
            lines = lines[:-1]
        try:
            ast.parse(text)
            ok = True
        except SyntaxError:
            ok = False
        if not os.path.islink(self.lnk):
            link = "none" if not os.path.exists(self.lnk) else "other"
        else:
            to = os.path.realpath(self.lnk)
            link = {os.path.realpath(self.pkg): "right", os.path.realpath(self.old): "stale"}.get(to, "other" if os.path.exists(to) else "dangling")
        rest = sorted(os.path.relpath(os.path.join(p, f), self.root) for top in (self.site, os.path.dirname(self.old), self.cwd)
                      for p, ds, fs in os.walk(top) for f in fs + ds if os.path.join(p, f) != self.lnk)
        return {"lines": lines, "eol": eol, "bytes": raw.hex() if len(raw) < 400 else hashlib.sha256(raw).hexdigest(), "ok": ok, "link": link,
                "mode": stat.S_IMODE(os.stat(self.init).st_mode), "rest": rest}

    def op(self, o, rng):
        leg = "_legacy" if self.c["legacy"] else ""
        ps = os.path.join(self.scripts, "post_install%s.py" % leg)
        py = os.path.join(self.bin, "python")
        if o == "run":
            r = self.exec([py, ps])
        elif o == "script":
            r = self.exec(["/bin/bash", os.path.join(self.scripts, "install%s.sh" % leg)])
        elif o == "full":
            n = len(open(self.init, "rb").read()) + 22
            r = self.exec([py, ps], limit=int(rng.integers(0, n)) if rng.random() < .7 else int(rng.integers(0, 3)))
        else:
            save = self.root + "/save"
            shutil.copytree(self.site, save, symlinks=True, copy_function=shutil.copy2)
            env, self.env = self.env, dict(self.env, PYTHONPATH=save)
            for p, ds, fs in os.walk(save):
                for x in [p] + [os.path.join(p, f) for f in fs + ds]:
                    os.lchown(x, NOBODY, NOBODY)
            t = self.exec([py, self.root + "/install_kill.py", ps, "0"])
            self.env = env
            shutil.rmtree(save)
            n = int(([0] + [int(x[6:]) for x in t.stdout.split("\n") if x.startswith("LINES ")])[-1])
            r = self.exec([py, self.root + "/install_kill.py", ps, str(rng.integers(max(1, n - 12), n + 1))])
        return (r.stdout + r.stderr)[-300:]

    def close(self):
        assert self.root.startswith(tempfile.gettempdir() + "/ntnv_inst_")
        shutil.rmtree(self.root, True)


def run(ctx):
    ctx.model_check("MC_N24", "MC_N24" + ("_full" if ctx.thorough else ""))
    cases = ctx.generate("MC_N24", "Gen_N24")
    for c in cases:
        c["n"], c["h"] = len(c["file"]), "-".join(c["hist"])
    jobs = []
    keys, n = ["n", "real", "eol", "link", "h", "legacy", "file"], 1200 if ctx.thorough else 90
    new = [c for c in cases if I9 in c["file"] and I8 not in c["file"]]
    old = [c for c in cases if not (I9 in c["file"] and I8 not in c["file"])]
    for c in common.cover(ctx, new, 3 * n // 4, keys) + common.cover(ctx, old, n // 4, keys):
        jobs.append((c, ctx.episode(**{k: c[k] for k in ("real", "eol", "link", "h", "legacy")}), np.random.default_rng(ctx.rng.integers(1 << 31))))

    def play(job):
        c, ep, rng = job

        def go():
            s = Site(c, rng)
            try:
                a = first = s.state()
                for o in c["hist"]:
                    out = s.op(o, rng)
                    b = s.state()
                    ep.add("op", op=o, before=a["lines"], after=b["lines"], eol0=a["eol"], eol1=b["eol"], same=a["bytes"] == b["bytes"],
                           ok0=a["ok"], ok1=b["ok"], link0=a["link"], link=b["link"], mode0=a["mode"], mode1=b["mode"],
                           rest0=a["rest"], first=first["rest"], rest1=b["rest"], out=out)
                    a = b
            finally:
                s.close()
        common.guarded(ep, go)
        ep.add("end")
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(play, jobs))
    ctx.count("installations", sum(len(j[0]["hist"]) for j in jobs))
