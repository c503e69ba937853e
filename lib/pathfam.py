"""Builds of a project whose folders are named in different ways, for C20."""

import json
import os
import shutil

import graphfam as G
import proj
import vlib


def spelled(root, s):
    """The text of a spelling of specs/Paths.tla; "/w" is root."""
    if s["abs"]:
        return "/".join([root, *s["c"][1:]])
    return "/".join(s["c"])


def enc(text):
    """A path as a spelling."""
    c = text.split("/")
    return {"abs": True, "c": c[1:]} if text.startswith("/") else {"abs": False, "c": c}


class World:
    """<root> is "/w" of the scenarios: the project lies in <root>/p."""

    def __init__(self, shape):
        self.shape = shape
        top = proj.fresh("n")
        os.rmdir(top)
        shape.sd, shape.td = [], ["__targets"]
        self.p = shape.project(top)
        self.root = top
        for d in ("p/d/e", "q", "p/__o"):
            os.makedirs(os.path.join(top, d), exist_ok=True)

    def remove(self):
        shutil.rmtree(self.root, True)

    def maike(self, maike2, sc, *opts, workers=2):
        cwd = os.path.join(self.root, *sc["cwd"][1:])
        o = ["--target-dir=" + spelled(self.root, sc["t"])]
        # the current folder is the default
        if not (sc["cwd"] == ["w", "p"] and sc["s"] == {"abs": False, "c": ["."]} and len(opts) == 0):
            o.append("--source-dir=" + spelled(self.root, sc["s"]))
        return self.p.maike(maike2, *o, *opts, workers=workers, cwd=cwd)

    def clean(self, sc):
        shutil.rmtree(os.path.join(self.root, *sc["td"][1:]), True)
        shutil.rmtree(self.p.ctl + "/args", True)
        self.p.record_args()
        self.p.clear_log()

    def observe(self, maike2, sc, other, workers):
        """A build from scratch named as sc says, and one named as other says on top of it."""
        self.clean(sc)
        g = self.maike(maike2, sc, "--print-dep-graph", workers=workers)
        lt = self.maike(maike2, sc, "--list-targets", workers=workers)
        self.clean(sc)
        b = self.maike(maike2, sc, workers=workers)
        cwd = os.path.join(self.root, *sc["cwd"][1:])
        cmds = []
        for argv in self.p.args().values():
            exe = argv[0].decode("utf-8", "surrogateescape")
            a = G.parse_args(argv)
            bi = a["build_info"]
            rest = {k: v for k, v in a.items() if k not in ("source_file", "targets", "dependencies", "build_info", "task_id")}
            cmds.append({"exe": enc(exe), "src": enc(a["source_file"]), "targets": [enc(x) for x in a["targets"]],
                         "deps": [{"ref": {"ext": d["ref"]} if d["origin"] in ("system", "pkg-config") else enc(d["ref"]), "o": d["origin"],
                                   "pr": [[k, v] for k, v in d.items() if k not in ("ref", "origin")]}
                                  for d in a["dependencies"]],
                         "bsd": enc(bi["source_dir"]), "btd": enc(bi["target_dir"]),
                         "rest": json.dumps(rest, sort_keys=True)})
        ext = {"/".join(d["r"]) for f in self.shape.files for l in (f["inc"], f["deps"], f["extra"], *(t["deps"] for t in f["targets"]))
               for d in l if d["o"] in ("system", "pkg-config")}
        edges = []
        if 'digraph "G" {' in g.out:
            for line in g.out[g.out.index('digraph "G" {'):].split("\n"):
                if '" -> "' in line:
                    edges.append([{"ext": x} if x in ext else enc(x) for x in line.rstrip()[1:-1].split('" -> "')])
        td = os.path.join(self.root, *sc["td"][1:])
        files = sorted(os.path.relpath(os.path.join(d, x), td) for d, ds, fs in os.walk(td) for x in ds + fs)
        self.p.clear_log()
        real = [x for x in os.path.realpath(cwd).split("/") if x]
        again = 0
        if b.code == 0:
            b2 = self.maike(maike2, dict(other, t=other["ts"][tuple(sc["td"])]), workers=workers)
            again = sum(1 for e in self.p.events() if e[0] == "S") + (b2.code != 0)
        return {"cwd": real, "sd": enc(spelled(self.root, sc["s"])), "td": enc(spelled(self.root, sc["t"])),
                "exit0": b.code == 0 and g.code == 0 and lt.code == 0, "cmds": cmds, "edges": edges,
                "list": [x for x in lt.out.split("\n") if x and not x.startswith("#")], "files": files,
                "again": again}, [g, lt, b]
