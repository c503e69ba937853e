"""Projects as specs/Graph.tla sees them: made at random or from TLC's scenarios, written to disk, and observed."""

import json
import os
import shutil

import proj
import vlib

J = json.dumps


def ref(r, rel=False, o="generated", pr=()):
    return {"r": list(r), "rel": rel, "o": o, "pr": [list(x) for x in pr]}


NOREC = {"r": [], "o": "project"}
VREC = {"r": ["vrecipe"], "o": "project"}


def fil(p, k, inc=(), deps=(), extra=(), targets=(), rec=None):
    return {"p": list(p), "k": k, "inc": list(inc), "deps": list(deps), "extra": list(extra), "targets": list(targets),
            "rec": rec if rec is not None else (NOREC if k in ("ext", "plain", "dir") else VREC)}


def tgt(n, deps=()):
    return {"n": list(n), "deps": list(deps)}


SUFFIX = {"cxx": ".cpp", "link": ".lnk.cpp", "lib": ".lib", "rule": ".rule", "ext": ".ext", "gen": ".gen"}
# files without tags: how the name of their target follows from theirs
GENERIC = {"gen": lambda n: n + ".done", "cmd": lambda n: n + ".made", "md": lambda n: n[:-3] + ".xml",
           "doc": lambda n: n[:-4] + ".html", "sass": lambda n: n[:-5] + ".css"}


class Shape:
    """An abstract project and how it is written down."""

    def __init__(self, files, rng, sd=(), td=("__targets",)):
        self.rng = rng
        self.files = files
        dirs = {()}
        for f in files:
            for k in range(1, len(f["p"])):
                dirs.add(tuple(f["p"][:k]))
        for d in sorted(dirs):
            files.append(fil(d, "dir", targets=[tgt([])]))
        files.append(fil(["vrecipe"], "plain"))
        files.append(fil(["maikeconfig.json"], "plain"))
        self.sd, self.td = list(sd), list(td)
        self.cfg = None
        self.cfgkw = {}     # for proj.default_config
        self.left_out = []  # files the configuration excludes
        self.littered = rng.random() < .25   # files of earlier times lie where references lead
        self.supply = 0     # how much of the tags recipes supply instead of the files

    def abstract(self):
        return {"sd": self.sd, "td": self.td, "dirrec": VREC, "files": self.files}

    # ---- as text

    def ref_text(self, d):
        s = "/".join(d["r"])
        return ("./" if d["rel"] else "") + s

    def dep_json(self, d, default):
        rng = self.rng
        o = dict((k, v) for k, v in d["pr"])
        o["ref"] = self.ref_text(d)
        if d["o"] != default or rng.random() < .3:
            o["origin"] = d["o"]
        items = list(o.items())
        rng.shuffle(items)
        return dict(items)

    def part(self, f):
        """f without what its recipe supplies, and that."""
        mine, theirs = dict(f), dict(f)
        for k in ("deps", "extra", "targets"):
            who = [self.rng.random() < self.supply for _ in f[k]]
            if f["k"] in GENERIC and k == "targets":
                who = [False] + [True] * (len(who) - 1)
            mine[k] = [x for x, w in zip(f[k], who) if not w]
            theirs[k] = [x for x, w in zip(f[k], who) if w]
        return mine, theirs

    def tags(self, f):
        rng = self.rng
        t = {}
        tl = []
        for x in f["targets"]:
            o = {"name": "/".join(x["n"])}
            td = []
            for d in x["deps"]:
                if d["o"] == "pkg-config" and not d["pr"] and rng.random() < .7:
                    o.setdefault("pkgconfig_libs", []).append(self.ref_text(d))
                else:
                    td.append(self.dep_json(d, "system"))
            if td:
                o["dependencies"] = td
            tl.append(o)
        if len(tl) == 1 and rng.random() < .3:
            t["target"] = tl[0]
        elif len(tl) > 1 and rng.random() < .15:
            t["target"] = tl[0]
            t["targets"] = tl[1:]
        elif tl:
            t["targets"] = tl
        if f["deps"]:
            t["dependencies"] = [self.dep_json(d, "generated") for d in f["deps"]]
        if f["extra"]:
            t["dependencies_extra"] = [self.dep_json(d, "generated") for d in f["extra"]]
        if f["k"] != "ext" and f["rec"] != VREC and f["k"] not in ("dir", "plain", *GENERIC):
            t["compiler"] = {"recipe": "/".join(f["rec"]["r"][-1:]) if f["rec"]["o"] != "project"
                             else "/".join(f["rec"]["r"]), "config": {}}
            if self.supply:
                t["compiler"]["use_get_tags"] = 1
        elif f["k"] in ("rule", "cxx", "lib", "link") and rng.random() < .1 and not self.supply:
            t["compiler"] = {"config": {"x": "y"}}
        if f.get("set"):
            t["compiler"] = {"config": {k: v for k, v in f["set"].items() if v or rng.random() < .2}}
        items = list(t.items())
        rng.shuffle(items)
        return dict(items)

    def text(self, f):
        rng = self.rng
        if f["k"] == "plain":
            return "just a file\n#include \"nothing\"\n//@ {nonsense\n"
        if f["k"] in GENERIC:
            return f.get("text", "whatever\n")
        t = self.tags(f)
        js = J(t, indent=1) if rng.random() < .5 else J(t)
        if f["k"] in ("rule", "lib"):
            return js
        if f["k"] == "ext":
            return "#!%s\n%s" % (vlib.tool("vrecipe", libs=["-ljansson"]), "".join("#@ %s\n" % x for x in js.split("\n")))
        out = []
        if t:
            out += ["//@ " + x for x in js.split("\n")]
        out.append("// something")
        for d in f["inc"]:
            if d["o"] == "system":
                out.append("#include <%s>" % self.ref_text(d))
            else:
                out.append('#include "%s"' % self.ref_text(d))
        return "\n".join(out) + "\n"

    def get_tags(self, p):
        """Writes what recipes supply; returns the files as they are written then."""
        out = []
        cfg = proj.default_config(**self.cfgkw)
        for ld in cfg["maikeconfig"]["source_file_info_loaders"].values():
            ld["compiler"]["use_get_tags"] = 1
        self.cfg = cfg
        os.mkdir(p.ctl + "/tags")
        for f in self.files:
            if f["k"] in ("dir", "plain"):
                out.append(f)
                continue
            mine, theirs = self.part(f)
            t = self.tags(theirs)
            t.pop("compiler", None)
            if t or self.rng.random() < .3:
                name = "!".join([*self.sd, *f["p"]])
                with open(os.path.join(p.ctl, "tags", name), "w") as fh:
                    fh.write(J(t, indent=self.rng.choice([None, 1])) + self.rng.choice(["", "\n"]))
            out.append(mine)
        return out

    def project(self, top=None):
        top = top or proj.fresh("g")
        p = proj.Project(top, {}, None, recipe_names=())
        base = os.path.join(p.dir, *self.sd)
        os.makedirs(base, exist_ok=True)
        os.makedirs(os.path.join(p.dir, *self.td[:-1]), exist_ok=True)
        for f in self.get_tags(p) if self.supply else self.files:
            path = os.path.join(*self.sd, *f["p"]) if self.sd or f["p"] else "."
            if f["k"] == "dir":
                os.makedirs(os.path.join(p.dir, path), exist_ok=True)
            elif f["p"] == ["maikeconfig.json"]:
                p.write(path, J(self.cfg or proj.default_config(**self.cfgkw)))
            elif f["k"] == "plain" and f["p"][-1].startswith("vrecipe"):
                p.put_recipe(path)
            else:
                p.write(path, self.text(f), mode=0o755 if f["k"] == "ext" else None)
        for f in self.left_out:
            p.write(os.path.join(*self.sd, f), self.rng.choice(["{", '{"target":{"name":"nope"}}',
                                                                '{"target":{"name":"no"},"dependencies":[{"ref":"nowhere"}]}']))
        return p

    def litter(self, p):
        """Leaves files wherever a reference to a generated file leads."""
        td = os.path.join(p.dir, *self.td)
        dirs = {"/".join(f["p"]) for f in self.files if f["k"] == "dir"} | {"."}
        for f in self.files:
            for d in [*f["inc"], *f["deps"], *f["extra"], *[d for t in f["targets"] for d in t["deps"]]]:
                r = os.path.normpath("/".join([*(f["p"][:-1] if d["rel"] else []), *d["r"]]) or ".")
                path = os.path.join(td, r)
                if r in dirs or (os.path.dirname(r) or ".") not in dirs or os.path.lexists(path):
                    continue
                try:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "w") as fh:
                        fh.write("old\n")
                    os.utime(path, (proj.BASE_TIME, proj.BASE_TIME))
                except OSError:
                    pass   # something else is there

    def opts(self):
        o = ["--force-rebuild"] if self.littered else []
        if self.sd:
            o.append("--source-dir=" + "/".join(self.sd))
        if self.sd or self.td != ["__targets"]:
            o.append("--target-dir=" + "/".join(self.td))
        return o


def comps(s):
    """A path as maike2 prints it, as a sequence of names."""
    abs_ = s.startswith("/")
    c = [x for x in s.split("/") if x != ""]
    if abs_:
        c.insert(0, "/")
    return c or ["."]


def parse_graph(out):
    if 'digraph "G" {' not in out:
        return None
    edges = []
    body = out[out.index('digraph "G" {'):]
    for line in body.split("\n"):
        if '" -> "' in line:
            a, b = line.rstrip()[1:-1].split('" -> "')
            edges.append([comps(a), comps(b)])
    return edges if body.rstrip().endswith("}") else None


def parse_args(argv):
    a = json.loads(argv[-1].decode("utf-8", "surrogateescape"))
    return a


def observe(shape, maike2, workers=2, build=True):
    """Runs maike2 on the project: graph, targets, build."""
    p = shape.project()
    runs = []
    try:
        o = shape.opts()
        if shape.littered:
            shape.litter(p)
        g = p.maike(maike2, "--print-dep-graph", *o, workers=workers)
        runs.append(g)
        edges = parse_graph(g.out) if g.code == 0 else None
        lt = p.maike(maike2, "--list-targets", *o, workers=workers)
        runs.append(lt)
        targets = [comps(x) for x in lt.out.split("\n") if x and not x.startswith("#")] if lt.code == 0 else []
        targets = [[] if x == ["."] else x for x in targets]
        p.record_args()
        b = p.maike(maike2, *o, workers=workers)
        runs.append(b)
        lists, n = [], 0
        for src, argv in p.args().items():
            n += 1
            a = parse_args(argv)
            lists.append({"src": comps(a["source_file"]), "targets": [comps(x) for x in a["targets"]],
                          "deps": [{"to": comps(d["ref"]), "o": d["origin"],
                                    "pr": [[k, v] for k, v in d.items() if k not in ("ref", "origin")]}
                                   for d in a["dependencies"]]})
        echo = [x for x in b.err.split("\n") if x and not x.startswith("#") and not x.startswith("--")]
        obs = {"exit0": b.code == 0, "ran": n, "msg": bool(echo), "graph": edges is not None, "edges": edges or [],
               "targets": targets, "lists": lists}
        return {"p": shape.abstract(), "obs": obs}, runs
    finally:
        p.remove()


# ---- random projects

DIRS = [(), (), ("d",), ("d", "e"), ("f",)]
DOTTED = [(), (".h",), (".h", "e"), ("..d",), ("...",), ("d", ".e"), ("d",)]
PROPS = ["rel", "note", "reflect", "ref2", "refs", "original", "origin2", "re", "o", "to", "name", "REF", "Origin", "ori", "", "x y", "a\"b"]
EXTS = [("vector",), ("sys", "types.h"), ("m",), ("pthread",), ("zlib.h",)]


def up(frm, to):
    """`to` as a relative reference from folder `frm`."""
    r = os.path.relpath("/".join(to), "/".join(frm) or ".")
    return r.split("/")


class Gen:
    suffix = SUFFIX
    kinds = ["cxx", "cxx", "link", "link", "rule", "lib", "ext", "gen"]
    dirs = None
    rels = ["implementation", "include", "misc"]

    def __init__(self, rng, n=None, cyclic=0.0, dangling=0.0, dup=0.0, sd=None, td=None):
        self.rng = rng
        self.defects = (cyclic, dangling, dup)
        self.n = n or rng.choice([2, 3, 4, 6, 9, 14])

    def at(self, frm, to, o, pr=()):
        """A reference to the place `to` from a file in folder frm."""
        rng = self.rng
        if rng.random() < .5:
            r, rel = up(frm, to), True
        else:
            r, rel = list(to), False
        if rng.random() < .1 and len(to) > 0:
            k = rng.randrange(len(r))
            r = r[:k] + rng.choice([["."] if k else [], ["zz", ".."]]) + r[k:]
        return ref(r, rel, o, pr)

    def props(self):
        rng = self.rng
        pr = []
        if rng.random() < .5:
            pr.append(["rel", rng.choice(self.rels)])
        if rng.random() < .2:
            for k in rng.sample(PROPS[2:], rng.choice([1, 1, 2])):
                pr.append([k, rng.choice(["", "x", "ref", "generated", "1"])])
        if rng.random() < .15:
            pr.append(["note", rng.choice(["", "a \"quote\"", "åäö", "x'y"])])
        return pr

    def ext(self, o=None):
        rng = self.rng
        o = o or rng.choice(["system", "system", "pkg-config"])
        return ref(rng.choice(EXTS) if o == "system" else (rng.choice(["gtk", "cairo", "libpng", "sdl"]),), False, o, self.props()
                   if rng.random() < .4 else ())

    def make(self):
        rng = self.rng
        cyc, dang, dup = self.defects
        files = []
        dirs, dotted = self.dirs or DIRS, not self.dirs and rng.random() < .2
        if dotted:
            dirs = DOTTED
        taken = set()
        # headers: later ones may include earlier ones
        heads, made = [], []       # made: (place of target, index)
        for i in range(self.n):
            d = rng.choice(dirs)
            dot = "." if dotted and rng.random() < .3 else ""
            if rng.random() < .4:
                f = fil([*d, dot + "h%d.hpp" % i], "cxx")
                prev = list(heads)
                rng.shuffle(prev)
                for h in prev[:rng.choice([0, 1, 1, 2, 3])]:
                    f["inc"].append(self.at(d, h["p"], "project"))
                self.common(f, d, made)
                heads.append(f)
            else:
                k = rng.choice(self.kinds)
                mid = rng.choice([".x", ".v1.2", "."]) if k in GENERIC and rng.random() < .3 else ""
                f = fil([*d, dot + "s%d%s%s" % (i, mid, self.suffix[k])], k)
                if k in ("cxx", "link"):
                    prev = list(heads)
                    rng.shuffle(prev)
                    for h in prev[:rng.choice([0, 1, 1, 2, 3])]:
                        f["inc"].append(self.at(d, h["p"], "project"))
                if k in GENERIC:
                    f["targets"].append(tgt([GENERIC[k](f["p"][-1])]))
                else:
                    for t in range(rng.choice([1, 1, 1, 2, 2, 3, 0])):
                        n = ["s%d_%d.o" % (i, t)]
                        # a generated header
                        if t == 1:
                            n = ["s%d.gen.hpp" % i]
                        if rng.random() < .12 and d:
                            n = ["..", "x%d_%d" % (i, t)]
                        # like a source file, or like a target in another folder
                        if rng.random() < .1:
                            n = [rng.choice([f, *files])["p"][-1]]
                        elif rng.random() < .08:
                            n = ["x.o"]
                        pl = tuple(norm([*d, *n]))
                        if pl in taken:
                            continue
                        taken.add(pl)
                        tg = tgt(n)
                        if k in ("link", "lib", "cxx", "rule") and rng.random() < .5:
                            tg["deps"] = self.some(made, d)
                            while rng.random() < .35:
                                tg["deps"].append(self.ext())
                        f["targets"].append(tg)
                    self.common(f, d, made)
            files.append(f)
            for t in f["targets"]:
                place = norm([*d, *t["n"]])
                made.append(place)
        # "dependencies_extra" may refer to anything made so far without a cycle being certain
        if rng.random() < cyc:
            self.add_cycle(files)
        tagged = [f for f in files if f["k"] not in GENERIC]
        if tagged and rng.random() < dang:
            f = rng.choice(tagged)
            bad = self.at(tuple(f["p"][:-1]), rng.choice([["d", "nowhere"], ["nowhere.o"], ["f", "vrecipe"]]),
                          rng.choice(["generated", "project"]), self.props())
            where = rng.choice(["deps", "deps", "tdeps", "extra"])
            if where == "tdeps" and f["targets"]:
                f["targets"][0]["deps"].append(bad)
            elif where == "extra":
                f["extra"].append(bad)
            else:
                f["deps"].append(bad)
        if rng.random() < dup and made:
            pl = rng.choice(made)
            f = rng.choice(files)
            if f["k"] not in GENERIC:
                n = up(f["p"][:-1], pl)
                f["targets"].append(tgt(n))
        if rng.random() < .25:
            self.recipes(files)
        if rng.random() < .2:
            files.append(fil(rng.choice([["README"], ["d", "note.txt"], ["f", ".."][:1] + ["noext"]]), "plain"))
        sd = rng.choice([(), (), (), ("src",), ("a", "src")])
        td = ("__targets",) if not sd and rng.random() < .6 else rng.choice([("out",), ("o", "p")])
        if not sd and td != ("__targets",):
            td = ("__o",) + tuple(td[1:])
        s = Shape(files, rng, sd, td)
        if dotted:
            s.cfgkw["input_filter"] = ["^__"]
        if rng.random() < .25:
            self.leave_out(s)
        return s

    def leave_out(self, s):
        """Some files that the filters of the configuration exclude."""
        rng = self.rng
        pat = {"skip/a.rule": "^skip$", "skip/b/c.rule": "^skip$", "skipped.rule": "^skipped\\.rule$",
               "n.skip.rule": "^[^/]*\\.skip"}
        if any(f["p"] == ["d"] for f in s.files):
            pat.update({"d/skip.rule": "^d/skip\\.rule$", "d/skipped/x.rule": "^d/skipped$"})
        s.left_out = rng.sample(list(pat), rng.choice([1, 2, 3]))
        s.cfgkw["fullpath"] = [pat[x] for x in s.left_out]
        if rng.random() < .3:
            s.cfgkw["fullpath"] += [rng.choice(["^src$", "^p/", "^a/src", "^/", "^\\./", "^\\.\\./", "^w/"])]

    def recipes(self, files):
        rng = self.rng
        r = rng.choice([["vrecipe2"], ["d", "vrecipe2"]])
        used = False
        for f in files:
            if f["k"] in ("rule", "cxx", "link", "lib") and rng.random() < .4:
                f["rec"] = {"r": r, "o": "project"}
                used = True
        if used:
            files.append(fil(r, "plain"))

    def some(self, made, d):
        rng = self.rng
        k = min(len(made), rng.choice([0, 1, 1, 2]))
        return [self.at(d, m, "generated", self.props()) for m in rng.sample(made, k)]

    def common(self, f, d, made):
        rng = self.rng
        if f["k"] in ("cxx", "link"):
            if rng.random() < .4:
                f["inc"].append(ref(rng.choice(EXTS), False, "system"))
            g = [m for m in made if m[-1].endswith(".gen.hpp")]
            if g and rng.random() < .5:
                f["inc"].append(self.at(d, rng.choice(g), "generated"))
            rng.shuffle(f["inc"])
        if rng.random() < .35:
            f["deps"] += self.some(made, d)
        if rng.random() < .1:
            f["deps"].append(self.ext())
        if rng.random() < .1:
            f["deps"].append(self.at(d, ["vrecipe"], "project", self.props()))
        if rng.random() < .35:
            f["extra"] += self.some(made, d)
        if rng.random() < .15:
            f["extra"].append(self.ext())

    def add_cycle(self, files):
        """Adds one more reference, to anything: that may or may not close a cycle."""
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(files)
            d = tuple(f["p"][:-1])
            if f["k"] in GENERIC:
                continue
            places = [norm([*x["p"][:-1], *t["n"]]) for x in files for t in x["targets"]]
            heads = [x["p"] for x in files if x["k"] == "cxx"]
            if f["k"] in ("cxx", "link") and rng.random() < .4 and heads:
                f["inc"].append(self.at(d, rng.choice(heads), "project"))
            elif places:
                x = self.at(d, rng.choice(places), "generated", self.props())
                w = rng.choice(["deps", "tdeps", "extra"])
                if w == "tdeps" and f["targets"]:
                    rng.choice(f["targets"])["deps"].append(x)
                else:
                    f["extra" if w == "extra" else "deps"].append(x)


def norm(c):
    out = []
    for x in c:
        if x == "..":
            out.pop()
        elif x != ".":
            out.append(x)
    return out
