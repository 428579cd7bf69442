"""Builds /repo, runs April programs, and validates the recorded executions with TLC."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 8
MAXLINES = 3000                 # no generated program prints as much


class CheckError(Exception):
    """The check itself could not be carried out."""


class Sandbox:
    """A scratch directory with a private copy of the April binary and core library."""

    def __init__(self, build=True):
        if build:
            with open("/tmp/.april-verif.lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise CheckError("build failed:\n" + r.stdout.decode("utf8", "replace")[-3000:])
                self._copy()
        else:
            self._copy()
        self.n = 0
        self.timeouts = 0

    def _copy(self):
        self.dir = tempfile.mkdtemp(prefix="april-verif.")
        self.april = os.path.join(self.dir, "april")
        self.system = os.path.join(self.dir, "System.apl")
        shutil.copy2(REPO + "/bin/april", self.april)
        shutil.copy2(REPO + "/System.apl", self.system)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def newdir(self):
        self.n += 1
        d = os.path.join(self.dir, "w", "d%d" % self.n)
        os.makedirs(d)
        return d

    def _exec(self, args, d, timeout):
        """Runs a command with bounded time, memory and output."""
        out = os.path.join(d, "stdout.txt")
        try:
            with open(out, "wb") as f:
                r = subprocess.run(["prlimit", "--fsize=2000000", "--as=6000000000", "--core=0"]
                                   + args, cwd=d, stdin=subprocess.DEVNULL, stdout=f,
                                   stderr=subprocess.DEVNULL, timeout=timeout,
                                   env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": d})
            with open(out, "rb") as f:
                return r.returncode, f.read().decode("utf8", "replace"), ""
        except subprocess.TimeoutExpired:
            return None, "", ""

    def april_run(self, src, opt=0, timeout=10, lib=None):
        """Runs one program; returns its trace, a list of lines.  With lib, that source is
        compiled to a library assembly first and imported by the program."""
        d = self.newdir()
        try:
            md = os.path.join(d, "m")
            os.mkdir(md)
            with open(os.path.join(md, "p.cs"), "w") as f:
                f.write(src)
            extra = []
            if lib is not None:
                ld = os.path.join(d, "lb")
                os.mkdir(ld)
                with open(os.path.join(ld, "l.cs"), "w") as f:
                    f.write(lib)
                rc, out, err = self._exec([self.april, "compile", "lb/l.cs", self.system, "-O",
                                           str(opt)], d, timeout)
                if rc != 0 or not os.path.exists(os.path.join(d, "lb.apl")):
                    return ["<library not compiled> " + clean(out)[:200]]
                extra = ["lb.apl"]
            # A run takes well under a second; after several that do not end, wait less.
            for t in (timeout, 2 * timeout) if self.timeouts < 8 else (3,):
                rc, out, err = self._exec([self.april, "run", "m/p.cs"] + extra +
                                          [self.system, "-O", str(opt)], d, t)
                if rc is not None:
                    break
                self.timeouts += 1
            return to_trace(rc, out, err)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def clean(s):
    return re.sub("\x1b\\[[0-9;]*m", "", s).replace("\r", "")


def to_trace(rc, out, err):
    if rc is None:
        return ["<timeout>"]
    out = clean(out)
    if "* error" in out:
        m = re.search(r"\* error (\w+): ([^\n]*)", out)
        return ["<compile error %s>" % (m.group(0)[8:] if m else "")]
    lines = out.split("\n")
    last = lines.pop()
    if last:
        lines.append(last + "<no newline>")
    res, fatal = [], False
    for l in lines:
        m = re.match(r"(.*)Uncaught Exception: (\w+)( \[[^\]]*\])?$", l)
        if m:
            if m.group(1):
                res.append(m.group(1) + "<unfinished>")
            res.append("Uncaught Exception: " + m.group(2))
            continue
        if l == "call stack:":
            fatal = True
            break
        res.append(l)
    if fatal and res and not res[-1]:
        res.pop()
    if fatal and res:
        res[-1] = re.sub(r"\[[\w./]+:\d+\]", "[]", res[-1])
        res.append("<internal error>")
    elif rc != 0:
        res.append("<exit %d>" % rc)
    else:
        res.append("<end>")
    if len(res) > MAXLINES:
        res = res[:MAXLINES] + ["<more lines>"]
    return res


class Case:
    """A program with the configurations it is run in."""

    def __init__(self, prog, opts=(0,), known=""):
        self.prog, self.opts, self.known = prog, opts, known
        self.src = prog.source()
        self.libsrc = prog.libsource()

    def view(self, trace):
        """The trace as the specification of the program sees it."""
        f = getattr(self.prog, "view", None)
        return f(trace) if f else list(trace)


class Result:
    def __init__(self):
        self.programs = self.runs = self.lines = self.traces = 0
        self.accepted = self.undefined = 0
        self.states = self.transitions = 0
        self.rejected = []          # (case, opt, trace, verdict line)
        self.samples = []


def record(sb, cases, res):
    """Runs every case in every configuration; returns [(case, {trace: [opts]})]."""
    jobs = [(i, o) for i, c in enumerate(cases) for o in c.opts]
    t = {}

    def one(job):
        i, o = job
        c = cases[i]
        t[job] = tuple(sb.april_run(c.src, o, lib=c.libsrc))

    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, jobs))
    out = []
    for i, c in enumerate(cases):
        by = {}
        for o in c.opts:
            by.setdefault(t[(i, o)], []).append(o)
        out.append((c, by))
        res.programs += 1
        res.runs += len(c.opts)
        res.lines += sum(len(t[(i, o)]) for o in c.opts)
    return out


def tlc(sb, module, cfg, env, timeout=600, workers=None, extra=()):
    """Runs TLC on a module of /verif/spec; returns its output."""
    d = sb.newdir()
    try:
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        e = dict(os.environ)
        e.update(env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers or CPUS), "-metadir", d + "/states",
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish in %d s" % timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(sb, recorded, res, grain=None, timeout=600, keep=None):
    """TLC decides for every distinct recorded trace whether it is a behaviour."""
    progs, runs, back = [], [], []
    for c, by in recorded:
        progs.append(c.prog.table())
        for tr, opts in by.items():
            runs.append(dict(p=len(progs), trace=c.view(tr)))
            back.append((c, opts, tr))
    res.traces += len(runs)
    d = sb.newdir()
    inp = os.path.join(d, "input.json")
    with open(inp, "w") as f:
        json.dump(dict(progs=progs, runs=runs), f)
    if keep:
        shutil.copy(inp, keep)
    mod = getattr(recorded[0][0].prog, "module", "AprilTrace")
    rc, out = tlc(sb, mod + ".tla", mod + ".cfg", {"APRIL_INPUT": inp}, timeout)
    shutil.rmtree(d, ignore_errors=True)
    seen = {}
    for m in re.finditer(r'VERDICT (\w+) (\d+) (\d+) (.*?)"?$', out, re.M):
        seen[int(m.group(2))] = (m.group(1), int(m.group(3)), m.group(4))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or m is None or len(seen) != len(runs):
        raise CheckError("TLC failed (rc=%s, %d of %d verdicts):\n%s" % (
            rc, len(seen), len(runs),
            "\n".join(l for l in out.split("\n") if "VERDICT" not in l)[-4000:]))
    res.transitions += int(m.group(1))
    res.states += int(m.group(2))
    for i, (c, opts, tr) in enumerate(back, 1):
        kind, pos, txt = seen[i]
        if kind == "ACCEPT":
            res.accepted += 1
        elif kind == "STUCK":
            res.undefined += 1          # the program leaves the specified language: says nothing
        else:
            res.rejected.append((c, opts, list(tr), "line %d: %s" % (pos + 1, txt)))
    for c, by in recorded[:1]:
        res.samples.append(dict(source=c.src[:1500], trace=list(next(iter(by)))[:20]))
