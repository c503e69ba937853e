"""Histories of a project, recorded as traces for specs/IncTrace.tla."""

import copy
import os
import random
import shutil
import signal
import subprocess
import tempfile
import time

import buildfam as B
import proj
import vlib

BASE = proj.BASE_TIME


def graph(dag):
    """The graph of a Dag as IncDefs has it."""
    tasks = []
    n = len(dag.srcs)
    for i, s in enumerate(dag.tasks):
        if i < n:
            tasks.append({"src": s, "targets": dag.targets(i), "ins": sorted(dag.inputs(i)), "dir": False,
                          "always": i in dag.always, "deps": sorted(x + 1 for x in dag.deps[i])})
        else:
            tasks.append({"src": "dir:" + s, "targets": ["dir:" + s], "ins": [], "dir": True, "always": False,
                          "deps": sorted(x + 1 for x in dag.deps[i])})
    used = set()
    for i in range(n):
        used |= dag.inputs(i)
    tg = {f for i in range(n) for f in dag.targets(i)}
    return {"tasks": tasks, "inputs": sorted(used - tg)}


class History:
    def __init__(self, dag, seed):
        self.dag = copy.deepcopy(dag)
        self.rng = random.Random(seed)
        self.scale = self.rng.choice([1, 1000, 10**6, 10**9, 3 * 10**9])
        self.p = self.dag.project()
        self.tgts = {f for i in range(len(self.dag.srcs)) for f in self.dag.targets(i)}
        with open(self.p.ctl + "/scale", "w") as f:
            f.write("%d %d" % (BASE, self.scale))
        self.set_clock(1)
        for d, _, fs in os.walk(self.p.dir):
            for f in fs:
                self.stamp(os.path.join(d, f), 1)
        self.graphs = [graph(self.dag)]
        self.ev = []
        self.runs = []
        self.counts = {}

    # -- files

    def path(self, f):
        if f.startswith("dir:"):
            return os.path.join(self.p.dir, "__targets", f[4:])
        return os.path.join(self.p.dir, "__targets" if f in self.tgts else "", f)

    def stamp(self, path, tick):
        t = BASE * 10**9 + tick * self.scale
        os.utime(path, ns=(t, t))

    def clock(self):
        return int(open(self.p.ctl + "/clock").read())

    def set_clock(self, v):
        with open(self.p.ctl + "/clock", "w") as f:
            f.write("%-12d\n" % v)

    def mtimes(self):
        out = {}
        g = self.graphs[-1]
        names = set(g["inputs"]) | {f for t in g["tasks"] for f in t["targets"]}
        for f in names:
            try:
                st = os.stat(self.path(f))
                t = (st.st_mtime_ns - BASE * 10**9) // self.scale
                out[f] = 1 if f.startswith("dir:") else max(1, min(t, 1 << 30))
            except OSError:
                pass
        return out

    # -- operations

    def apply(self, op, bins):
        k = op["op"]
        self.counts[k] = self.counts.get(k, 0) + 1
        if k == "edit":
            self.edit(op["f"])
        elif k == "touch":
            self.stamp(self.path(op["f"]), self.clock())
        elif k == "wait":
            self.set_clock(self.clock() + 1)
        elif k == "del":
            if os.path.exists(self.path(op["f"])):
                os.remove(self.path(op["f"]))
            self.ev.append({"k": "del", "f": op["f"]})
        elif k == "back":
            if os.path.exists(self.path(op["f"])):
                self.stamp(self.path(op["f"]), 1)
        elif k == "clean":
            shutil.rmtree(os.path.join(self.p.dir, "__targets"), True)
            self.ev += [{"k": "del", "f": f} for f in sorted(self.tgts)]
        elif k == "restructure":
            self.restructure()
        elif k == "build":
            self.build(op, bins)
        else:
            raise vlib.CheckError("bad operation %s" % k)

    def edit(self, f):
        path = self.path(f)
        with open(path, "ab") as fh:
            if f == "vrecipe":
                fh.write(b"x")
            elif f.endswith((".hpp", ".cpp")):
                fh.write(b"// %d\n" % self.rng.randrange(10**6))
            elif f.endswith(".ext"):
                fh.write(b"# %d\n" % self.rng.randrange(10**6))
            else:
                fh.write(b" " * self.rng.randint(1, 3) + b"\n")
        if f in self.dag.files:
            self.dag.files[f] = open(path, errors="surrogateescape").read()
        self.stamp(path, self.clock())
        self.ev.append({"k": "edit", "f": f})

    def restructure(self):
        """Gives a source file other dependencies."""
        i = self.rng.randrange(len(self.dag.srcs))
        for f in self.dag.remake(i, {j for j in range(i) if self.rng.random() < .5}):
            self.p.write(f, self.dag.files[f])
            self.stamp(self.path(f), self.clock())
            self.ev.append({"k": "edit", "f": f})
        self.graphs.append(graph(self.dag))

    def build(self, op, bins):
        dag, rng, p = self.dag, self.rng, self.p
        n = len(dag.srcs)
        sel = sorted(op["sel"])
        all_ = len(sel) == len(dag.tasks)
        opts = ["--num-workers=%d" % rng.randint(1, 4)]
        unknown = bool(op.get("unknown"))
        if not all_ or unknown:
            names = [rng.choice(dag.targets(t - 1)) for t in sel if t <= n]
            names = [x if rng.random() < .8 else rng.choice(["./" + x, "zz/../" + x, x.replace("/", "//")]) for x in names]
            rng.shuffle(names)
            if unknown:
                names.insert(rng.randint(0, len(names)), rng.choice(["nosuch", "t0.outx", "d1/nosuch.o", "t0.rule",
                                                                     "vrecipe", "t0.ou"]))
            opts.append("--targets=" + ",".join(names))
        if op["force"]:
            opts.append("--force-rebuild")
        garbage = None
        if op["victim"]:
            v = dag.srcs[op["victim"] - 1]
            p.directive(v, *{"fail": ["exit 1"], "garbage": ["garbage", "exit 1"], "kill": ["killp", "exit 1"],
                             "killok": ["killp"]}[op["how"]])
            garbage = v if op["how"] == "garbage" else None
        self.ev.append({"k": "build", "g": len(self.graphs), "sel": sel, "all": all_ and not unknown,
                        "force": bool(op["force"]), "mt": self.mtimes()})
        p.clear_log()
        r = self.run(bins["plain"], opts, op.get("after"))
        self.runs.append({"opts": opts, "exit": r.code, "err": r.err[-300:]})
        for kind, src, status, tick in p.events(ticks=True):
            if src in dag.index:
                t = dag.index[src] + 1
                if kind == "S":
                    self.ev.append({"k": "S", "t": t})
                else:
                    self.ev.append({"k": "E", "t": t, "ok": status == "0", "m": max(tick, 1), "garbage": src == garbage})
        if op["victim"]:
            os.remove(os.path.join(p.ctl, "ctl", v.replace("/", "!")))
        res = "ok" if r.code == 0 else "killed" if r.code == -9 else "error"
        self.ev.append({"k": "done", "r": res, "mt": self.mtimes(), "differ": [], "unknown": unknown})
        self.counts["build_" + res] = self.counts.get("build_" + res, 0) + 1

    def run(self, maike2, opts, after=None):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}
        e.update(self.p.env())
        with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
            q = vlib.popen([maike2, *opts], cwd=self.p.dir, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e,
                                 start_new_session=True)
            timed_out = False
            try:
                if after is not None:
                    time.sleep(after)
                    if q.poll() is None:
                        os.kill(q.pid, signal.SIGKILL)
                code = q.wait(60)
            except subprocess.TimeoutExpired:
                timed_out, code = True, 1
            # Recipes that run on without maike2 end by themselves.
            end = time.time() + 10
            while code == -9 and time.time() < end:
                ev = self.p.events()
                if sum(k == "S" for k, _, _ in ev) == sum(k == "E" for k, _, _ in ev):
                    if after is None or time.time() > end - 9.9:
                        break
                time.sleep(0.005)
            B.kill_group(q)
            fo.seek(0)
            fe.seek(0)
            return vlib.Run(code, fo.read().decode("utf-8", "replace"), fe.read().decode("utf-8", "replace"), 0, timed_out)

    def compare_with_scratch(self, bins):
        """Builds a copy from scratch and notes which targets differ, in the last build's event."""
        if not self.ev or self.ev[-1]["k"] != "done" or self.ev[-1]["r"] != "ok":
            return
        top = proj.fresh("c")
        d = os.path.join(top, "p")
        with vlib.FORK:
            shutil.copytree(self.p.dir, d, ignore=lambda a, ns: [x for x in ns if x == "__targets"])
        try:
            r = vlib.run([bins["plain"]], d, timeout=60)
            if r.code != 0:
                raise vlib.CheckError("build from scratch failed: " + r.err[-500:])
            g = self.graphs[-1]
            for t in g["tasks"]:
                if not t["dir"]:
                    for f in t["targets"]:
                        try:
                            a = open(self.path(f), "rb").read()
                        except OSError:
                            a = None
                        if a != open(os.path.join(d, "__targets", f), "rb").read():
                            self.ev[-1]["differ"].append(f)
        finally:
            shutil.rmtree(top, True)

    def trace(self):
        return {"graphs": self.graphs, "ev": self.ev}
