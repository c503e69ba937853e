"""Histories of invocations of maike2 with all kinds of command lines, for C25 and C26."""

import ctypes
import json
import os
import platform
import re
import select
import shutil
import subprocess
import tempfile
import time

import proj
import vlib

QUERIES = ["--help", "--version", "--about", "--configdump", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv"]
HEAD = re.compile(r"# Build job with (\d+) workers started\n#\n# Start time: (-?\d+)-(\d+)-(\d+) (\d+):(\d+):(\d+) UTC\n"
                  r"# +Id: (.*)\n# Source dir: (.*)\n# Target dir: (.*)\n#\n")


def lines(text):
    x = text.split("\n")
    return x[:-1] if not x[-1] else x


class World:
    """A project in which two folders can be the source folder."""

    def __init__(self, rng):
        self.rng = rng
        cfg = proj.default_config(recursive=0)
        self.p = proj.Project(proj.fresh("j"), {}, cfg)
        self.p.put_recipe("sub/vrecipe")
        self.p.write("sub/maikeconfig.json", json.dumps(cfg))
        self.cwd = [x for x in os.path.realpath(self.p.dir).split("/") if x]
        self.projects = []
        for d, stem in (("", "a"), ("sub", "b")):
            files, known = [], []
            for i in range(rng.choice([1, 2, 3, 5])):
                f = {"name": "%s%d.rule" % (stem, i), "targets": ["%s%d.o%s" % (stem, i, k) for k in range(rng.choice([1, 1, 2]))],
                     "uses": rng.sample(known, min(len(known), rng.choice([0, 1, 2])))}
                known += f["targets"]
                files.append(f)
                tags = {"targets": [{"name": t} for t in f["targets"]], "dependencies": [{"ref": "./" + u} for u in f["uses"]]}
                self.p.write(os.path.join(d, f["name"]), json.dumps(tags))
            self.projects.append({"dir": self.cwd + ([d] if d else []), "files": files})
        os.mkdir(self.p.dir + "/tq")
        self.p.record_args()

    def remove(self):
        self.p.remove()

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.p.top):
            if d == self.p.top:
                ds.remove("v")
            for n in ds:
                out[os.path.join(d, n)] = None
            for n in fs:
                s = os.stat(os.path.join(d, n))
                out[os.path.join(d, n)] = (s.st_mtime_ns, s.st_size, s.st_ino)
        return out

    def run(self, maike2, args, tty):
        """One invocation. Returns what is recorded of it, and the run."""
        shutil.rmtree(self.p.ctl + "/args")
        self.p.record_args()
        args = [a.replace("=@", "=" + self.p.dir) for a in args]
        before = self.snapshot()
        pair = None
        if tty:
            try:
                pair = os.openpty()
            except OSError:
                tty = False
        t0 = int(time.time())
        r = self.tty(maike2, args, *pair) if tty else self.p.maike(maike2, *args, workers=None)
        t1 = int(time.time())
        after = self.snapshot()
        changed = [x for x in sorted(set(before) | set(after)) if x not in before or x not in after or before[x] != after[x]]
        out = r.out
        h = HEAD.match(out)
        header = []
        if h:
            header = [{"workers": int(h[1]), "time": [int(h[i]) for i in range(2, 8)], "id": h[8], "sd": h[9], "td": h[10]}]
            out = out[h.end():]
        told = []
        for argv in self.p.args().values():
            a = json.loads(argv[-1])
            b = a["build_info"]
            told.append({"src": a["source_file"], "id": str(b["build_id"]), "start": str(b["start_time"]), "sd": b["source_dir"],
                         "td": b["target_dir"], "host": b["build_host"], "fmt": a["log_format"], "task": a["task_id"]})
        files = [a.split("=", 1)[1] for a in args if a.split("=", 1)[0] in QUERIES and "=" in a]
        answer = []
        for f in files:
            p = os.path.join(self.p.dir, f)
            if f and os.path.isfile(p) and p.replace("/./", "/") in changed:
                answer = lines(open(p, errors="surrogateescape").read())
                os.remove(p)
        obs = {"exit0": r.code == 0, "changed": [[y for y in os.path.realpath(x).split("/") if y] for x in changed], "header": header,
               "rest": lines(out),
               "file": answer, "ran": told,
               "entries": [{"id": e["id"], "src": e["path"], "ran": e["ran"], "cmd": e["cmd"] is not None} for e in proj.log_lines(out)]}
        return {"args": args, "tty": tty, "before": t0, "after": t1, "obs": obs}, r

    def tty(self, maike2, args, a, b):
        """The same with standard error on a terminal."""
        try:
            cmd = [maike2, *args]
            env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", **self.p.env()}
            with tempfile.TemporaryFile() as fo:
                pr = vlib.popen(cmd, cwd=self.p.dir, stdin=subprocess.DEVNULL, stdout=fo, stderr=b, env=env, start_new_session=True)
                os.close(b)
                b = -1
                err, end = b"", time.time() + 60
                while time.time() < end:
                    if select.select([a], [], [], .05)[0]:
                        try:
                            part = os.read(a, 65536)
                        except OSError:
                            break
                        if not part:
                            break
                        err += part
                    elif pr.poll() is not None:
                        break
                late = False
                try:
                    code = pr.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    pr.kill()
                    pr.wait()
                    late, code = True, None
                fo.seek(0)
                return vlib.Run(code, fo.read().decode("utf-8", "surrogateescape"), err.decode("utf-8", "replace"), 0, late)
        finally:
            os.close(a)
            if b >= 0:
                os.close(b)

    def refs(self, maike2):
        out = []
        for d, p in zip((".", "sub"), self.projects):
            for k in ("--help", "--version", "--about", "--configdump"):
                _, r = self.run(maike2, [k, "--source-dir=" + d], False)
                out.append({"kind": k, "dir": p["dir"], "lines": lines(r.out)})
        return out

    def item(self, refs, hist):
        top = [x for x in os.path.realpath(self.p.top).split("/") if x]
        dirs = [top[:k] for k in range(1, len(top) + 1)] + [self.cwd, self.cwd + ["sub"], self.cwd + ["tq"]]
        return {"cwd": self.cwd, "host": platform.node(), "nproc": ctypes.CDLL(None).get_nprocs(), "dirs": dirs,
                "projects": self.projects, "refs": refs, "hist": hist}
