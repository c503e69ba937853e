"""Builds of scenario projects, recorded as traces for specs/BuildTrace.tla."""

import json
import os
import select
import subprocess
import tempfile
import time

import proj
import vlib

J = json.dumps


class Dag:
    """A task graph, and a project that has it.

    `direct[i]` are the tasks task i depends on. The project realises every task with some loader and every
    dependency in some way a user can write it; folders add tasks of their own."""

    def __init__(self, direct, rng, kinds=None, folders=True, unstart=(), lines=0, always=()):
        self.direct, self.rng = direct, rng
        n = len(direct)
        self.files, self.srcs, self.extra = {}, [], [set() for _ in range(n)]
        self.dirs = ["."]
        self.unstart, self.always = set(unstart), set(always)
        where = []
        for i in range(n):
            d = rng.choice(["", "", "d1", "d1/d2", "e"]) if folders else ""
            where.append(d)
            self.use_dir(d)
        # names may be those of files in other folders
        self.stem, local, used = [], rng.random() < .5, {}
        for i in range(n):
            k = used.get(where[i], 0) if local else i
            used[where[i]] = k + 1
            self.stem.append("t%d" % k)
        self.kinds = []
        for i in range(n):
            if kinds:
                k = kinds[i]
            elif i in self.unstart:
                k = "ext"
            elif not direct[i]:
                k = rng.choice(["rule", "rule", "cpp", "ext", "lnk", "lib"])
            else:
                k = rng.choice(["rule", "rule", "cpp", "cpp", "ext", "lnk", "lnk", "lib"])
            self.kinds.append(k)
        self.where, self.rev, self.fdeps = where, 0, {}
        self.srcs = [None] * n
        for i in range(n):
            self.make(i, where)
        self.tasks = list(self.srcs) + self.dirs
        self.index = {s: k for k, s in enumerate(self.tasks)}
        self.close()
        self.lines = [lines and rng.randrange(lines + 1) for _ in range(n)] + [0] * len(self.dirs)

    def remake(self, i, direct):
        """Rewrites the source file of task i so that it depends on `direct`. Returns the files written."""
        self.direct[i], self.rev, before = set(direct), self.rev + 1, dict(self.files)
        self.extra[i] = set()
        dirs = list(self.dirs)
        self.make(i, self.where, keep_dirs=True)
        assert self.dirs == dirs
        self.close()
        return [f for f in self.files if self.files[f] != before.get(f)]

    def use_dir(self, d):
        while d:
            if d not in self.dirs:
                self.dirs.append(d)
            d = os.path.dirname(d)

    def ref(self, frm, to):
        """A reference to `to` (relative to the source folder) as written in a file in folder `frm`."""
        if self.rng.random() < 0.5:
            r = os.path.relpath(to, frm or ".")
            return "./" + r
        return to

    def make(self, i, where, keep_dirs=False):
        rng, d, k = self.rng, where[i], self.kinds[i]
        base = os.path.join(d, self.stem[i])
        tags = {"targets": [{"name": self.stem[i] + ".out"}, {"name": self.stem[i] + ".gen.hpp"}]}
        if i in self.always:
            tags["rebuild"] = "always"
        deps, tdeps, incl = [], [], []
        fd = set()
        for j in self.direct[i]:
            tgt = os.path.join(where[j], self.stem[j] + ".")
            ways = ["tag"]
            if k in ("cpp", "lnk"):
                ways += ["include", "header", "header2"]
            if k == "lnk":
                ways += ["inherit", "target"]
            if k == "lib":
                ways += ["target"]
            way = rng.choice(ways)
            fd.add(tgt + ("gen.hpp" if way == "include" else "out"))
            if way == "tag":
                deps.append({"ref": self.ref(d, tgt + "out"), "origin": "generated"})
                if rng.random() < 0.3:
                    del deps[-1]["origin"]
            elif way == "target":
                tdeps.append({"ref": self.ref(d, tgt + "out"), "origin": "generated", "rel": "implementation"})
            elif way == "include":
                incl.append(self.ref(d, tgt + "gen.hpp"))
            else:
                hd = rng.choice([d, d, where[j]] if keep_dirs else [d, d, where[j], "inc"])
                self.use_dir(hd)
                self.extra[i].add(hd or ".")
                r = "_%d" % self.rev if self.rev else ""
                h = os.path.join(hd, "h%d_%d%s.hpp" % (i, j, r))
                fd.discard(tgt + "out")
                fd.add(h)
                if way == "inherit":
                    fd.add(tgt + "out")
                    self.fdeps[h] = set()
                    text = '//@{"dependencies_extra":[{"ref":%s,"rel":"implementation"}]}\n' % J(self.ref(hd, tgt + "out"))
                else:
                    self.fdeps[h] = {tgt + "gen.hpp"}
                    text = '#include "%s"\n' % self.ref(hd, tgt + "gen.hpp")
                if way == "header2":
                    h2 = os.path.join(hd, "g%d_%d%s.hpp" % (i, j, r))
                    self.fdeps[h2] = self.fdeps[h]
                    self.fdeps[h] = {h2}
                    self.files[h2] = text
                    text = '#include "%s"\n' % self.ref(hd, h2)
                self.files[h] = text
                incl.append(self.ref(d, h))
        if tdeps:
            tags["targets"][0]["dependencies"] = tdeps
        if deps:
            tags["dependencies"] = deps
        if k in ("rule", "lib"):
            name, text = base + "." + k, J(tags)
        elif k == "ext":
            name, text = base + ".ext", proj.ext_script(tags)
        else:
            name = base + (".cpp" if k == "cpp" else ".lnk.cpp")
            text = "".join("//@ %s\n" % x for x in json.dumps(tags, indent=1).split("\n"))
            text += "".join('#include "%s"\n' % x for x in incl)
        self.files[name] = text
        self.srcs[i] = name
        fd.add("vrecipe")  # that of the folder, if not its own
        self.fdeps[name] = fd
        for t in self.targets(i):
            self.fdeps[t] = {name}

    def targets(self, i):
        base = os.path.join(self.where[i], self.stem[i] + ".")
        return [base + "out", base + "gen.hpp"]

    def inputs(self, i):
        """Every file task i depends on, with its source file; targets are named as in the target folder."""
        seen, todo = set(), [self.srcs[i]]
        while todo:
            f = todo.pop()
            if f not in seen:
                seen.add(f)
                todo += self.fdeps.get(f, ())
        return seen

    def close(self):
        ix = self.index
        d = [set(self.direct[i]) for i in range(len(self.srcs))] + [set() for _ in self.dirs]
        for i, s in enumerate(self.srcs):
            d[i] |= {ix[x] for x in self.extra[i]} | {ix[os.path.dirname(s) or "."]}
        for x in self.dirs:
            if x != ".":
                d[ix[x]].add(ix[os.path.dirname(x) or "."])
        done = False
        while not done:
            done = True
            for s in d:
                n = set().union(*[d[x] for x in s]) if s else set()
                if not n <= s:
                    s |= n
                    done = False
        self.deps = d

    def project(self, top=None):
        p = proj.Project(top or proj.fresh(), self.files, proj.default_config())
        for i in self.unstart:
            os.chmod(os.path.join(p.dir, self.srcs[i]), 0o644)
        return p

    def out_directive(self, i):
        n = self.lines[i]
        return ["rawout " + "".join("o:%d:%d\n" % (i + 1, k) for k in range(n)).encode().hex()] if n else []

    def header(self, w):
        return {"deps": [sorted(x + 1 for x in s) for s in self.deps], "w": w,
                "unstart": [x + 1 for x in sorted(self.unstart)],
                "exp": [[[i + 1, k] for k in range(self.lines[i])] for i in range(len(self.tasks))]}

    def describe(self):
        return {"files": self.files, "tasks": self.tasks, "deps": [sorted(s) for s in self.deps]}


def parse_log(out, index):
    """maike2's standard output as log entries; the second value tells whether every line made sense."""
    entries, intact = [], True
    for line in out.split("\n"):
        if line == "" or line.startswith("#"):
            continue
        m = proj.LOG_LINE.match(line)
        if m:
            if m["path"] not in index:
                intact = False
                continue
            entries.append({"t": index[m["path"]] + 1, "ok": m["st"] == "✓", "ran": m["t0"] != "-", "out": []})
        elif line.startswith(" ... o:") and entries:
            try:
                _, a, b = line[5:].split(":")
                entries[-1]["out"].append([int(a), int(b)])
            except ValueError:
                intact = False
        else:
            intact = False
    return entries, intact


def trace(dag, p, run, w, hang=False, with_log=True, skip=()):
    """The trace of one build. `skip` are the tasks that can be expected to be up to date."""
    ev = []
    for kind, src, status in p.events():
        if kind == "R":
            ev.append({"k": "R"})
        elif src in dag.index:
            t = dag.index[src] + 1
            ev.append({"k": "S", "t": t} if kind == "S" else {"k": "E", "t": t, "ok": status == "0"})
    t = dag.header(w)
    ran = {e["t"] for e in ev if e["k"] == "S"}
    t["skip"] = sorted({x + 1 for x in skip} - ran)
    for k in t["skip"]:
        t["exp"][k - 1] = []
    t["log"] = []
    if hang:
        ev.append({"k": "H"})
    else:
        entries, intact = parse_log(run.out, dag.index)
        if with_log and not intact:
            ev.append({"k": "M"})
        t["log"] = entries
        ev.append({"k": "X", "c": "ok" if run.code == 0 else "error"})
    t["ev"] = ev
    return t


# ---------------------------------------------------------------- hang detection

def _threads(pid):
    """(state, cpu) of all threads of a process, and whether it has children; None if it is gone."""
    res = []
    kids = False
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            res.append((t, f[0], f[11], f[12]))
            try:
                c = open("/proc/%d/task/%s/children" % (pid, t)).read().split()
                for k in c:
                    st = open("/proc/%s/stat" % k).read().rsplit(")", 1)[1].split()[0]
                    if st != "Z":
                        kids = True
            except OSError:
                pass
    except OSError:
        return None
    return sorted(res), kids


class HangWatch:
    """Tells that a process can do nothing any more: no child runs, all threads sleep and use no time for long."""

    def __init__(self, pid, need=6.0):
        self.pid, self.need, self.last, self.since = pid, need, None, time.time()

    def stuck(self):
        now = _threads(self.pid)
        if now is None:
            return False
        th, kids = now
        if kids or any(x[1] not in "SDt" for x in th) or th != self.last:
            self.last, self.since = th, time.time()
            return False
        return time.time() - self.since > self.need


def wait_or_hang(p, limit=120.0, need=6.0):
    """Waits for a process. Returns its exit status, or None if it hangs."""
    t0, step, watch = time.time(), 0.002, None
    while True:
        try:
            return p.wait(step)
        except subprocess.TimeoutExpired:
            pass
        step = min(step * 1.5, 0.25)
        if time.time() - t0 > 1:
            watch = watch or HangWatch(p.pid, need)
            if watch.stuck() or time.time() - t0 > limit:
                return None


def free_run(p, maike2, *opts, workers=2, limit=120.0, env=None, pre=(), need=6.0, stdin=subprocess.DEVNULL):
    """A build at its own pace. Returns (Run, hang)."""
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}
    e.update(p.env())
    e.update(env or {})
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        t = time.time()
        q = vlib.popen([*pre, maike2, "--num-workers=%d" % workers, *opts], cwd=p.dir,
                             stdin=stdin, stdout=fo, stderr=fe, env=e, start_new_session=True)
        code = wait_or_hang(q, limit, need)
        kill_group(q)
        fo.seek(0)
        fe.seek(0)
        r = vlib.Run(code, fo.read().decode("utf-8", "surrogateescape"), fe.read().decode("utf-8", "surrogateescape"),
                     time.time() - t, code is None)
    return r, code is None


def kill_group(q):
    try:
        os.killpg(q.pid, 9)
    except OSError:
        pass
    q.wait()


# ---------------------------------------------------------------- gated builds

def gated_run(dag, p, maike2, w, prio, fate, patience=10.0, opts=()):
    """A build whose recipes end in the order of `prio`, with the given fates (k, f or s).

    A recipe is let go only when nothing else can start by itself. Returns (trace, Run)."""
    ctl = p.ctl
    n = len(dag.srcs)
    os.makedirs(ctl + "/gate")
    os.mkfifo(ctl + "/started")
    gates = {}
    for i, s in enumerate(dag.srcs):
        e = s.replace("/", "!")
        os.mkfifo(ctl + "/gate/" + e)
        gates[i] = os.open(ctl + "/gate/" + e, os.O_RDWR)
        p.directive(s, *dag.out_directive(i), "gate")
    log = os.open(ctl + "/log", os.O_WRONLY | os.O_APPEND)
    fd = os.open(ctl + "/started", os.O_RDWR | os.O_NONBLOCK)
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}
    e.update(p.env())
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    t0 = time.time()
    q = vlib.popen([maike2, "--num-workers=%d" % w, *opts], cwd=p.dir, stdin=subprocess.DEVNULL, stdout=fo,
                         stderr=fe, env=e, start_new_session=True)
    running, done, failed, started = set(), set(), set(), set()
    code, hang, buf = "none", False, b""
    quiet_since = time.time()
    watch = None
    try:
        while True:
            ready = {i for i in range(len(dag.tasks)) if i not in started and i not in dag.unstart
                     and all(d in done for d in dag.deps[i])}
            held = {i for i in running if i < n}
            want = 0 if failed or dag.unstart else min(w, len(running | ready))
            complete = len(held) >= want
            if failed or dag.unstart:
                # Other recipes may or may not start; let those that run go, after a moment for others to start.
                complete = time.time() - quiet_since > 0.003
            if held and (complete or time.time() - quiet_since > patience):
                if not complete:
                    patience = min(patience, .5)    # there is nothing more to be seen by waiting as long again
                os.write(log, b"R\n")
                i = min(held, key=lambda x: prio[x])
                os.write(gates[i], fate[i].encode())
                # wait for its end
                end = time.time() + 30
                while i in running and time.time() < end:
                    if select.select([fd], [], [], 0.5)[0]:
                        buf += os.read(fd, 65536)
                        buf = consume(buf, dag, running, started, done, failed, fate)
                    elif q.poll() is not None:
                        break
                if i in running:
                    raise vlib.CheckError("a recipe that was let go did not end")
                quiet_since = time.time()
                continue
            if select.select([fd], [], [], 0.002)[0]:
                buf += os.read(fd, 65536)
                k = (len(started), len(done), len(failed))
                buf = consume(buf, dag, running, started, done, failed, fate)
                if (len(started), len(done), len(failed)) != k:
                    quiet_since = time.time()
                continue
            c = q.poll()
            if c is not None:
                code = c
                break
            if time.time() - quiet_since > 1 and not running:
                watch = watch or HangWatch(q.pid, min(6.0, patience))
                if watch.stuck() or time.time() - quiet_since > 60 + patience:
                    hang = True
                    break
    finally:
        kill_group(q)
        for g in gates.values():
            os.close(g)
        os.close(fd)
        os.close(log)
    fo.seek(0)
    fe.seek(0)
    r = vlib.Run(None if hang else code, fo.read().decode("utf-8", "surrogateescape"),
                 fe.read().decode("utf-8", "surrogateescape"), time.time() - t0, hang)
    fo.close()
    fe.close()
    return trace(dag, p, r, w, hang), r


def consume(buf, dag, running, started, done, failed, fate):
    while b"\n" in buf:
        line, buf = buf.split(b"\n", 1)
        i = dag.index.get(line[1:].decode().replace("!", "/"))
        if i is None:
            continue
        if line[:1] == b"+":
            running.add(i)
            started.add(i)
        else:
            running.discard(i)
            (done if i >= len(dag.srcs) or fate[i] == "k" else failed).add(i)
    return buf
