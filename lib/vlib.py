"""Shared machinery of the checks: building /repo, running TLC, recording evidence, reporting violations.

Everything is done in a private scratch directory that is removed when the check ends."""

import atexit
import concurrent.futures
import errno
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TOOLS = os.path.join(VERIF, "tools")
EVIDENCE = os.path.join(VERIF, "evidence")
JOBS = os.cpu_count() or 4
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check could not do its work (not a verdict on the code)."""


_scratch = None


def scratch(name=None):
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.environ.get("VERIF_SHM") else None
        _scratch = tempfile.mkdtemp(prefix="verif_", dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    if name is None:
        return _scratch
    d = os.path.join(_scratch, name)
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- building

def _tags(path):
    lines = []
    for line in open(path, encoding="utf-8", errors="surrogateescape").read().split("\n"):
        if not line.startswith("//@"):
            break
        lines.append(line[3:])
    try:
        return json.loads("\n".join(lines)) if lines else {}
    except ValueError:
        return {}


def _deps(node):
    if isinstance(node, dict):
        for key, val in node.items():
            if key in ("dependencies", "dependencies_extra") and isinstance(val, list):
                yield from (d for d in val if isinstance(d, dict))
            yield from _deps(val)
    elif isinstance(node, list):
        for val in node:
            yield from _deps(val)


ABOUT = """#ifndef VERIF_ABOUT
#define VERIF_ABOUT
char const* Maike::Self::BuildId = "0";
char const* Maike::Self::BuildStartTime = "0";
char const* Maike::Self::BuildHost = "localhost";
char const* Maike::Self::VcsRevisionId = "0";
char const* Maike::Self::VcsTag = "0";
char const* Maike::Self::Copyright = "";
char const* Maike::Self::DescriptionShort = "";
char const* Maike::Self::LegalBrief = "";
#endif
"""


def core_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "core")):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".cpp")]
    return sorted(f for f in out if not f.endswith(".test.cpp"))


def tree_hash(flags):
    h = hashlib.sha256(("v3 " + " ".join(flags)).encode())
    for d, ds, fs in os.walk(os.path.join(REPO, "core")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".hpp", ".h", ".ipp", ".inl")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:24]


def _run_many(cmds):
    """Runs the commands in parallel; raises with the output of the first one that fails."""
    def one(c):
        r = subprocess.run(c, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        return r.returncode, c, r.stdout
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for code, c, out in ex.map(one, cmds):
            if code:
                raise CheckError("build failed: %s\n%s" % (" ".join(c), out[-4000:]))


def build(flags=("-O0",), objects_only=False):
    """Builds maike2 and libcore.a from /repo's working tree. Returns the folder they lie in.

    Products are kept in /verif/.build under a hash of every source file, so an unchanged tree is built once
    where the folder survives, and a changed tree is always rebuilt."""
    flags = list(flags)
    cache = os.path.join(VERIF, ".build")
    key = tree_hash(flags)
    done = os.path.join(cache, key)
    if os.path.exists(done + "/bin/maike2") and os.path.exists(done + "/libcore.a"):
        return done
    out = scratch("build_" + key)
    gen = os.path.join(out, "gen")
    srcs = core_sources()
    cmds, objs = [], []
    for f in srcs:
        d = os.path.dirname(f)
        extra = []
        for dep in _deps(_tags(os.path.join(REPO, f))):
            if dep.get("rel") == "include":
                p = os.path.normpath(os.path.join(d, dep["ref"]))
                if os.path.exists(os.path.join(REPO, p)):
                    extra.insert(0, "-include" + p)
                else:
                    g = os.path.join(gen, p)
                    os.makedirs(os.path.dirname(g), exist_ok=True)
                    with open(g, "w") as fh:
                        fh.write(ABOUT)
                    extra.append("-include" + g)
        obj = os.path.join(out, "obj", f + ".o")
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        objs.append(obj)
        cmds.append(["g++", "-w", *flags, *extra, "-iquote" + d, "-iquote.", "-iquote" + gen + "/" + d,
                     "-iquote" + gen, "-c", f, "-o", obj])
    cmds.sort(key=lambda c: "maike.cpp" not in c[-3])
    _run_many(cmds)
    main = [o for o in objs if o.endswith("core/bin/maike.cpp.o")]
    rest = [o for o in objs if o not in main]
    if not main:
        raise CheckError("core/bin/maike.cpp is not there")
    os.makedirs(out + "/bin")
    lflags = [f for f in flags if f.startswith("-fsanitize")]
    _run_many([["ar", "rcs", out + "/libcore.a", *rest]])
    _run_many([["g++", *lflags, *main, out + "/libcore.a", "-ljansson", "-lpthread", "-rdynamic", "-o",
                out + "/bin/maike2"]])
    shutil.rmtree(out + "/obj")
    try:
        os.makedirs(cache, exist_ok=True)
        old = sorted(glob.glob(cache + "/*"), key=os.path.getmtime)
        for o in old[:-5]:
            shutil.rmtree(o, True)
        tmp = done + ".tmp%d" % os.getpid()
        shutil.copytree(out, tmp)
        os.rename(tmp, done)
        return done
    except OSError:
        return out


_tools = {}


def tool(name, flags=(), libs=()):
    """Compiles /verif/tools/<name>.c (or .cpp) into scratch."""
    if name in _tools:
        return _tools[name]
    src = os.path.join(TOOLS, name + ".c")
    cc = "gcc"
    if not os.path.exists(src):
        src, cc = src + "pp", "g++"
    out = os.path.join(scratch("tools"), name + (".so" if "-shared" in flags else ""))
    r = subprocess.run([cc, "-O1", "-w", *flags, src, "-o", out, *libs], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("tool %s: %s" % (name, r.stdout))
    _tools[name] = out
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"(\d[\d,]*) states checked", out)
            self.generated = self.distinct = int(m[-1].replace(",", "")) if m else 0
        self.violated = re.search(r"Error: (Invariant|Action property|Temporal properties|Deadlock)", out)

    def printed(self, tag):
        """Lines printed from the model as PrintT("tag " \\o json)."""
        pre = '"%s ' % tag
        return [json.loads(line)[len(tag) + 1:] for line in self.out.split("\n")
                if line.startswith(pre) and line.endswith('"')]


def tlc(module, cfg=None, workers=None, timeout=600, extra=(), env=None, defs=None, heap="4g", data=None):
    """Runs TLC on specs/<module>.tla. `defs` (dict name -> TLA+ text) overrides constants in the cfg;
    `data` (dict file name -> value) are JSON files the model reads."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    for f in glob.glob(SPECS + "/*.tla"):
        shutil.copy(f, d)
    cfg_text = open(os.path.join(SPECS, (cfg or module) + ".cfg")).read()
    if defs:
        for k, v in defs.items():
            cfg_text, n = re.subn(r"(?m)^(\s*(?:CONSTANT[S]?\s+)?%s\s*=\s*).*$" % re.escape(k),
                                  lambda m: m.group(1) + str(v), cfg_text)
            if n != 1:
                raise CheckError("constant %s not in %s.cfg" % (k, cfg or module))
    with open(os.path.join(d, "M.cfg"), "w") as fh:
        fh.write(cfg_text)
    for k, v in (data or {}).items():
        with open(os.path.join(d, k), "w") as fh:
            json.dump(v, fh)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-Djava.io.tmpdir=" + d,
           "-cp",
           TLA_JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers or JOBS), "-config", "M.cfg", *extra, module + ".tla"]
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, errors="replace")
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        code = -1
    shutil.rmtree(os.path.join(d, "meta"), True)
    res = TlcResult(out, code, time.time() - t)
    res.dir = d
    return res


def tlc_ok(module, **kw):
    """A model run that has to succeed: a failure here is an error of the specification, not of the code."""
    r = tlc(module, **kw)
    if r.code != 0:
        raise CheckError("TLC on %s ended with %d:\n%s" % (module, r.code, r.out[-6000:]))
    return r


def judge(module, items, file="traces.json", cfg=None, defs=None, batch=4000, **kw):
    """Lets a trace specification judge recorded items. It prints ACCEPT <i> or REJECT {i, why, ..} for each.

    Returns (rejections as (item, record)), TLC results). An item without verdict is an error of the check."""
    rejected, results = [], []
    for a in range(0, len(items), batch):
        part = items[a:a + batch]
        r = tlc_ok(module, cfg=cfg, defs=defs, data={file: part}, **kw)
        acc = {json.loads(x) for x in r.printed("ACCEPT")}
        rej = {}
        for x in r.printed("REJECT"):
            x = json.loads(x)
            rej[x["i"]] = x
        if acc | set(rej) != set(range(1, len(part) + 1)):
            raise CheckError("%s gave no verdict on %s\n%s" % (
                module, sorted(set(range(1, len(part) + 1)) - acc - set(rej))[:10], r.out[-3000:]))
        rejected += [(part[i - 1], rej[i]) for i in sorted(rej)]
        results.append(r)
    return rejected, results


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", prop)))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def model(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def violation(self, what, detail):
        """Records a confirmed violation. `what` is a one-line description, `detail` a JSON-able replay."""
        for k in self.known:
            if k["match"] in what:
                if k["text"] not in self.known_seen:
                    self.known_seen.add(k["text"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
                return
        self.violations.append((what, detail))

    def finish(self):
        code = 0
        os.makedirs(EVIDENCE, exist_ok=True)
        if self.violations:
            rd = os.path.join(EVIDENCE, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as fh:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:20]], fh, indent=1, default=repr)
            for w, _ in self.violations[:5]:
                print("  " + (w if len(w) < 400 else w[:400] + " ..."))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            code = 1
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none recorded)"]
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        tmp = os.path.join(EVIDENCE, self.prop + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=repr)
        os.rename(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        print("%s: %s after %.1f s: %s" % (self.prop, "VIOLATED" if code else "held", time.time() - self.t0,
              json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return code


def load_known(prop):
    """known_findings.txt: lines 'property=<id> match=<text in the report> :: <what fails>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m[1] == prop:
                out.append({"match": m[2], "text": m[3]})
    return out


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        if c.violations:
            sys.exit(c.finish())
        sys.exit(3)
    sys.exit(c.finish())


# ---------------------------------------------------------------- running maike2

class Run:
    def __init__(self, code, out, err, wall, timed_out):
        self.code, self.out, self.err, self.wall, self.timed_out = code, out, err, wall, timed_out

    def brief(self):
        return {"exit": self.code, "timed_out": self.timed_out, "stdout": self.out[-1500:], "stderr": self.err[-1500:]}


# A process that is being forked holds what other threads have open for writing, and that makes a program or
# script just written one that cannot be started: programs are not written while processes are made.
FORK = threading.RLock()


def popen(cmd, **kw):
    for _ in range(100):
        try:
            with FORK:
                return subprocess.Popen(cmd, **kw)
        except OSError as e:
            if e.errno != errno.ETXTBSY:
                raise
            time.sleep(.02)
    raise CheckError("cannot start %s" % cmd[0])


def copy_program(frm, to):
    with FORK:
        shutil.copy(frm, to)


def run(cmd, cwd, timeout=60, env=None, stdin=subprocess.DEVNULL, raw=False):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}
    e.update(env or {})
    t = time.time()
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    p = popen(cmd, cwd=cwd, stdin=stdin, stdout=fo, stderr=fe, env=e, start_new_session=True)
    timed_out = False
    try:
        code = p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed_out, code = True, None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    fo.seek(0)
    fe.seek(0)
    o, er = fo.read(), fe.read()
    fo.close()
    fe.close()
    if not raw:
        o, er = o.decode("utf-8", "surrogateescape"), er.decode("utf-8", "surrogateescape")
    return Run(code, o, er, time.time() - t, timed_out)


def pmap(fn, items, n=None):
    items = list(items)
    with concurrent.futures.ThreadPoolExecutor(n or JOBS) as ex:
        return list(ex.map(fn, items))
