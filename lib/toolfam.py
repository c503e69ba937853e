"""Projects that are built with the recipes of the installation, where the programs these recipes run are stand-ins
that record their arguments (tools/faketool.c). For C23 and C24."""

import copy
import datetime
import json
import os
import shutil
import time

import graphfam as G
import proj
import vlib

REVS = [("c++98", 199711), ("c++11", 201103), ("c++14", 201402), ("c++17", 201703), ("c++20", 202002), ("c++23", 202302)]
NUM = dict(REVS)
SUFFIX = {"cxx": ".cpp", "link": ".lnk.cpp", "lib": ".lib", "rule": ".app", "ext": ".ext", "gen": ".gen", "cmd": ".cmd",
          "md": ".md", "doc": ".xml", "sass": ".sass"}
BUILTIN = {"cxx": ".cpp", "link": ".test.cpp", "lib": ".lib.maikerule", "rule": ".app.maikerule", "ext": ".py",
           "sass": ".sass"}
RECIPE = {"cxx": "cxx_compiler.py", "link": "cxx_compiler.py", "lib": "make_lib.py", "rule": "cxx_linker.py",
          "gen": "copy_file.py", "cmd": "generic.py", "md": "md2htmlpart.py", "doc": "doc2html.py", "sass": "sass2css.py"}
LOADER = {"cxx": "cxx_src_loader", "link": "cxx_src_loader", "lib": "lib", "rule": "app", "gen": "generic",
          "cmd": "generic", "md": "generic", "doc": "generic", "sass": "generic", "ext": "extension"}
FLAGS = ["-g", "-O2", "-Wall", "-Wextra", "-DX=1", "-DX=2", "-DTEXT=\"a b\"", "-fno-rtti", "-Iinc", "-pthread", "-UX", "-DQ='",
         "-W$HOME", "-fx\\y"]
PKG = {"gtk": (["-Igtk", "-DGTK", "-pthread"], ["-lgtk", "-lgdk"], ["-L/opt/gtk"]),
       "cairo": (["-Icairo"], ["-lcairo"], []),
       "ui": (["-Iui"], ["-lui", "-lgdk"], ["-L/opt/gtk"]),
       "bare": ([], [], []),
       "flags": (["-DONLY"], [], ["-Ld", "-L/opt/gtk"])}
NONE = {"cflags": [], "iquote": []}


class ToolGen(G.Gen):
    suffix = SUFFIX
    kinds = ["cxx"] * 5 + ["link"] * 3 + ["rule"] * 2 + ["lib"] * 2 + ["ext", "gen", "cmd"]
    rels = ["implementation", "implementation", "implementation", "include", "include", "misc", "external"]

    def ext(self, o=None):
        rng = self.rng
        o = o or rng.choice(["system", "pkg-config"])
        pr = [["rel", rng.choice(["external", "external", "implementation", "include"])]] if rng.random() < .6 else []
        return G.ref(rng.choice(G.EXTS) if o == "system" else (rng.choice(self.pkgs),), False, o, pr)

    def make(self, builtin=False, other=False):
        rng = self.rng
        self.pkgs = rng.sample(list(PKG), rng.choice([1, 2, 4]))
        if builtin:
            self.suffix, self.dirs = BUILTIN, [()]
            self.kinds = [k for k in self.kinds if k in BUILTIN] + ["sass"]
        elif other:
            self.kinds = ["gen", "cmd", "md", "doc", "sass", "gen", "cmd", "ext", "lib", "cxx"]
        s = super().make()
        s.cfgkw, s.left_out, s.cfg = {}, [], None
        t = ToolShape(s, rng, builtin)
        return t

    def recipes(self, files):
        pass

    def leave_out(self, s):
        pass


def seq(rng, of, n):
    return [rng.choice(of) for _ in range(rng.choice(n))]


class ToolShape(G.Shape):
    def __init__(self, s, rng, builtin):
        self.rng, self.files, self.sd, self.td = rng, s.files, s.sd, s.td
        self.supply, self.left_out, self.cfgkw, self.cfg = 0, [], {}, None
        self.builtin = builtin
        self.drop = None     # (file, target, dependency) that goes away later
        if builtin:
            self.files = [f for f in self.files if f["p"] != ["maikeconfig.json"] and len(f["p"]) + (f["k"] == "dir") < 2]
        loaded = [f for f in self.files if f["k"] in SUFFIX]
        self.fails = []
        self.use_cxx = rng.choice([None, None, None, "mycc", "clang++"])
        self.use_ar = rng.choice([None, None, "my-ar"])
        cxx = self.use_cxx or "g++"
        places = [[], ["d"], ["d", "e"], ["f"], ["inc"]]
        self.iquote = {}
        self.set = {}
        rev = {"there": False, "min": 0, "max": 0, "def": False}
        if rng.random() < .5 and not builtin:
            a, b = rng.choice([("min",), ("max",), ("min", "max"), ("min", "max")]), []
            lo, hi = rng.randrange(len(REVS)), rng.randrange(len(REVS))
            if lo > hi and rng.random() < .8:
                lo, hi = hi, lo
            rev = {"there": True, "min": REVS[lo][1] if "min" in a else 0, "max": REVS[hi][1] if "max" in a else 0,
                   "def": rng.random() < .4}
        self.compilers = self.make_compilers(cxx)
        if not builtin:
            for k in ("cxx", "link"):
                self.set[k] = {"cflags": seq(rng, FLAGS, [0, 1, 2, 4]), "iquote": [rng.choice(places) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                               "std": rev}
            self.set["rule"] = {"cflags": seq(rng, FLAGS, [0, 1, 3]), "iquote": [], "std": dict(rev, there=False)}
        else:
            self.set = {k: {"cflags": ["-g", "-Wall"], "iquote": [[]], "std": rev} for k in ("cxx", "link")}
            self.set["rule"] = {"cflags": ["-g"], "iquote": [], "std": rev}
        self.cmd = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            self.cmd.append(rng.choice([("a b", ""), ("--in=", "src"), ("", "src"), ("--out=", "target"), ("$", ""), ("--x=y", ""),
                                        ("it's", ""), ("", ""), (" x ", ""), (" ", "")]))
        self.cmd += [("-o", ""), ("", "target"), ("", "src")]
        for f in loaded:
            f["set"] = dict(NONE)
            if f["k"] in ("cxx", "link", "rule") and rng.random() < .25:
                f["set"] = {"cflags": seq(rng, FLAGS, [0, 1, 2]), "iquote": [rng.choice(places) for _ in range(rng.choice([0, 1]))]
                            if f["k"] != "rule" else []}
            # the same dependency is named by the target and by the file
            if f["k"] == "sass":
                f["text"] = rng.choice(["a { b: c; }", "a, d { b: c; }\n", "a { b: c; e: f; }"])
            elif f["k"] == "gen":
                f["text"] = rng.choice(["", "x\n", "abc" * 50000, "\0\n\r\n"])
            elif f["k"] == "doc":
                f["text"] = "<document/>"
        self.start, self.id = 1700000000 + rng.randrange(10 ** 8), "%064x" % rng.getrandbits(256)
        self.color = rng.random() < .15
        self.abs = rng.choice([(False, False)] * 3 + [(True, True), (False, True), (True, False)])
        self.own = not builtin and rng.random() < .12     # the project has its own copy of the recipes
        self.missing = set()
        self.pkg = dict(PKG)
        self.failhow = {}

    def make_compilers(self, cxx):
        rng = self.rng
        out = []
        names = [cxx] + rng.sample([cxx + "-11", cxx + "-12", cxx + "-9", cxx + "-pre", cxx + "-12-cross"], rng.choice([0, 0, 1, 2, 4]))
        for n in names:
            new = rng.randrange(1, len(REVS))
            default = rng.randrange(0, new + 1)
            acc = [["-", REVS[default][1] - (rng.randrange(1, 60) if rng.random() < .15 else 0)]] + [[r, v] for r, v in REVS[:new + 1]]
            if rng.random() < .2 and new > default:
                acc[-1][1] -= 1 + rng.randrange(90)
            elif rng.random() < .2 and new + 1 < len(REVS):
                acc.append([REVS[new + 1][0], REVS[new + 1][1] - 50])
            out.append({"n": n, "acc": [{"s": s, "v": v} for s, v in acc]})
        rng.shuffle(out)
        return out

    # ---- what goes wrong

    def break_something(self):
        rng = self.rng
        can = [f for f in self.files if f["k"] in SUFFIX and f["k"] != "ext" and f["targets"]]
        if not can:
            return
        for f in rng.sample(can, min(len(can), rng.choice([1, 1, 2, 3]))):
            how = rng.choice(["exit 1", "exit 1", "exit 3", "signal 9", "signal 15", "late exit 1", "late exit 1", "late exit 2", "late signal 11",
                              "exit 127"])
            if f["k"] in ("gen",):
                continue
            if f["k"] == "sass":
                f["text"] = "a { b: "
            else:
                what = "run" if f["k"] == "link" and rng.random() < .4 else "tool"
                if what == "run" and how.startswith("late "):
                    how = how[5:]
                self.failhow[tuple(f["p"])] = (what, how)
            self.fails.append(f["p"])
        if rng.random() < .15:
            self.pkg = {k: v for k, v in self.pkg.items() if k != rng.choice(list(PKG))}
        if rng.random() < .1:
            self.missing.add(rng.choice(["ar", "conv", "pandoc", "xsltproc"]))

    def lose_dependency(self):
        """The project with one dependency of a library less, or None."""
        can = [(f, t, d) for f in self.files if f["k"] == "lib" for t in f["targets"] for d in t["deps"]]
        if not can:
            return None
        f, t, d = self.rng.choice(can)
        t["deps"] = [x for x in t["deps"] if x is not d]
        return f

    def abstract(self):
        files = [dict({k: v for k, v in f.items() if k != "text"}, set=f.get("set") or NONE, rec=G.NOREC) for f in self.files]
        p = {"sd": self.sd, "td": self.td, "dirrec": G.NOREC, "files": files, "set": self.set,
             "cxx": self.use_cxx or "g++", "ar": self.use_ar or "ar", "compilers": self.compilers,
             "alt": [c["n"] for c in self.compilers if c["n"].count("-") <= 1],
             "pkg": [{"n": k, "cflags": list(v[0]), "libs": list(v[1]), "dirs": list(v[2])} for k, v in self.pkg.items()],
             "fails": self.fails, "missing": sorted(self.missing), "id": self.id, "start": str(self.start),
             "startstr": datetime.datetime.fromtimestamp(self.start, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S UTC"),
             "color": "always" if self.color else "never",
             "cmd": [{"t": a, "w": w} for a, w in self.cmd]}
        return json.loads(json.dumps(p))

    # ---- on disk

    def config(self):
        rng = self.rng
        m = {"source_tree_loader": {"file_info_loaders": {v: k for k, v in SUFFIX.items()}, "recursive": 1,
                                    "input_filter": ["^__"], "fullpath_input_filter": []},
             "dir_compiler": {"recipe": "make_directory.py", "config": {}}, "source_file_info_loaders": {}}
        m["source_tree_loader"]["file_info_loaders"][".hpp"] = "cxx"
        for k in SUFFIX:
            cfg = {}
            if k in self.set:
                st = self.set[k]
                cfg["cflags"] = st["cflags"]
                if k != "rule":
                    cfg["iquote"] = ["/".join(x) or "." for x in st["iquote"]]
                if st["std"]["there"]:
                    r = {}
                    back = {v: n for n, v in REVS}
                    for e in ("min", "max"):
                        if st["std"][e]:
                            r[e] = back[st["std"][e]]
                    cfg["std_revision"] = r
                    if st["std"]["def"] or rng.random() < .2:
                        cfg["always_use_default_compiler"] = 1 if st["std"]["def"] else 0
                if k == "link":
                    cfg["actions"] = ["link", "run"]
                elif rng.random() < .3:
                    cfg["actions"] = []
            if k == "cmd":
                cfg["target_filename_ext"] = "made"
                cfg["compilation_cmd"] = {"executable": "conv", "exec_origin": "system",
                                          "args": [a.replace("$", "$$") + ("" if not w else rng.choice(["$%s", "${%s}"]) % (
                                              "source_file" if w == "src" else "target")) for a, w in self.cmd]}
            ld = {"loader": LOADER[k], "compiler": {"recipe": RECIPE.get(k, ""), "config": cfg}}
            if k in ("cxx", "link"):
                ld["config"] = {"generated_includes": [".\\.gen\\.hpp$"]}
            elif k in ("gen", "cmd"):
                ld["config"] = {"target_filename_ext": ".done" if k == "gen" else ".made", "filename_ext_replacement_mode": "append"}
            elif k in ("md", "doc", "sass"):
                ld["config"] = {"target_filename_ext": os.path.splitext(G.GENERIC[k]("0123456789"))[1],
                                "filename_ext_replacement_mode": "replace"}
            m["source_file_info_loaders"][k] = ld
        if self.own:
            for ld in [m["dir_compiler"], *(x["compiler"] for x in m["source_file_info_loaders"].values())]:
                if ld["recipe"]:
                    ld["recipe"] = "recipes/" + ld["recipe"]
            if rng.random() < .5:
                m["source_tree_loader"]["file_info_loaders"][".py"] = "ext"
        return {"maikeconfig": m}

    def tags(self, f):
        t = super().tags(f)
        if f.get("set") and f["set"]["iquote"]:
            t["compiler"]["config"]["iquote"] = ["/".join(x) or "." for x in f["set"]["iquote"]]
        elif f.get("set") and not any(f["set"].values()):
            t.pop("compiler", None)
        return t

    def opts(self, p):
        o = []
        sd, td = "/".join(self.sd), "/".join(self.td)
        if self.abs[0]:
            o.append("--source-dir=" + os.path.join(p.dir, sd).rstrip("/"))
        elif self.sd:
            o.append("--source-dir=" + sd)
        if self.abs[1]:
            o.append("--target-dir=" + os.path.join(p.dir, td))
        elif self.sd or self.abs[0] or self.td != ["__targets"]:
            o.append("--target-dir=" + td)
        o += ["--build-id=" + self.id, "--start-time=" + str(self.start)]
        if self.color:
            o.append("--log-output-format=ansi_term")
        if self.builtin:
            o.append("--config-default")
        return o


def cyclic(files):
    """Whether a project of specs/GraphScen.tla is ill formed."""
    made = {t["n"][0]: i for i, f in enumerate(files) for t in f["targets"]}
    made.update({f["p"][0]: i for i, f in enumerate(files)})
    to = [{made[d["r"][0]] for d in [*f["inc"], *f["deps"], *f["extra"], *(d for t in f["targets"] for d in t["deps"])]} for f in files]
    for _ in files:
        to = [x | set().union(*(to[j] for j in x)) for x in to]
    return any(i in x for i, x in enumerate(to))


def from_model(files, rng):
    """A project of specs/GraphScen.tla; what is made from a file is for use in what depends on it."""
    for f in files:
        for d in [*f["deps"], *f["extra"], *(d for t in f["targets"] for d in t["deps"])]:
            if d["o"] == "generated":
                d["pr"] = [["rel", "implementation"]]
    return ToolShape(G.Shape(files, rng), rng, False)


def revision(sc, rng):
    """One source file, with the limits and compilers of specs/ToolScen.tla."""
    k = rng.choice(["cxx", "link"])
    f = G.fil(["s" + SUFFIX[k]], k, targets=[G.tgt(["s.o"])])
    s = ToolShape(G.Shape([f], rng), rng, False)
    s.compilers = sc["compilers"]
    s.use_cxx = None
    s.iquote = {}
    for x in ("cxx", "link"):
        s.set[x]["std"] = dict(sc["rev"])
    return s


def install(build):
    """An installation with the recipes of the working tree."""
    top = os.path.join(vlib.scratch(), "inst_tools")
    os.makedirs(top + "/bin", exist_ok=True)
    vlib.copy_program(os.path.join(build, "bin/maike2"), top + "/bin/maike2")
    shutil.copytree(os.path.join(vlib.REPO, "recipes"), top + "/lib/maike2/recipes", ignore=shutil.ignore_patterns("__pycache__"))
    for f in os.listdir(top + "/lib/maike2/recipes"):
        os.chmod(os.path.join(top, "lib/maike2/recipes", f), 0o755)
        os.utime(os.path.join(top, "lib/maike2/recipes", f), (proj.BASE_TIME, proj.BASE_TIME))
    os.makedirs(top + "/py")
    os.symlink(os.path.realpath("/usr/bin/python3"), top + "/py/python3")
    return top


class World:
    def __init__(self, shape, inst):
        self.s, self.inst = shape, inst
        shape.cfg = shape.config()
        self.p = p = shape.project(proj.fresh("t"))
        if shape.own:
            shutil.copytree(inst + "/lib/maike2/recipes", os.path.join(p.dir, *shape.sd, "recipes"))
        self.fake = p.top + "/fake"
        self.tools = p.top + "/tools"
        for d in ("tools", "done", "cxx", "pkg", "fail", "failrun"):
            os.makedirs(os.path.join(self.fake, d))
        os.mkdir(self.tools)
        prog = vlib.tool("faketool")
        names = {"pkg-config", "conv", "pandoc", "xsltproc", "ar", "my-ar"} - shape.missing
        for c in shape.compilers:
            names.add(c["n"])
            self.put("cxx", c["n"], "".join("%s %d\n" % (a["s"], a["v"]) for a in c["acc"]))
        if shape.missing & {"ar"} and shape.use_ar:
            names.discard(shape.use_ar)
        for n in names:
            os.symlink(prog, os.path.join(self.tools, n))
        for k, v in shape.pkg.items():
            self.put("pkg", k, "\n".join(" ".join(x) for x in v) + "\n")
        for f in shape.files:
            if tuple(f["p"]) in shape.failhow:
                what, how = shape.failhow[tuple(f["p"])]
                first = shape.td + G.norm([*f["p"][:-1], *f["targets"][0]["n"]])
                key = first if f["k"] != "md" else shape.sd + f["p"]
                self.put("failrun" if what == "run" else "fail", "!".join(key), how)

    def put(self, kind, name, text):
        with open(os.path.join(self.fake, kind, name), "w") as f:
            f.write(text)

    def names(self, path):
        q = os.path.normpath(os.path.join(self.p.dir, path))
        if q == self.p.dir:
            return ["."]
        if q.startswith(self.p.dir + "/"):
            return q[len(self.p.dir) + 1:].split("/")
        return ["/"] + q.split("/")[1:]

    def env(self):
        e = {"PATH": self.tools + ":" + self.inst + "/py", "FAKE_DIR": self.fake, "FAKE_CWD": self.p.dir,
             "PYTHONDONTWRITEBYTECODE": "1"}
        if self.s.use_cxx:
            e["CXX"] = self.s.use_cxx
        if self.s.use_ar:
            e["AR"] = self.s.use_ar
        return e

    def invocation(self, n, argv):
        v = {"tool": os.path.basename(argv[0]), "flags": [], "iq": [], "incl": [], "std": "-", "color": [], "c": False,
             "inputs": [], "libs": [], "seq": [], "dirs": [], "out": [], "id": "", "start": "", "startstr": "", "bid": "", "sdir": [],
             "tdir": [], "task": "", "args": [], "done": os.path.exists(os.path.join(self.fake, "done", n)), "rest": []}
        a = argv[1:]
        if v["tool"] == "run":
            v["out"] = self.names(a[0])
            return v
        if v["tool"] in ("conv", "pandoc", "xsltproc"):
            for k, x in enumerate(a):
                if x == "-o" and k + 1 < len(a):
                    v["out"] = self.names(a[k + 1])
                pre, eq, rest = x.rpartition("=")
                if "." in rest:
                    v["args"].append({"t": pre + eq, "n": self.names(rest)})
                else:
                    v["args"].append({"t": x, "n": []})
            return v
        if v["tool"] == self.s.use_ar or v["tool"] == "ar":
            v["out"] = self.names(a[1]) if len(a) > 1 else []
            v["inputs"] = [self.names(x) for x in a[2:]]
            return v
        i = 0
        while i < len(a):
            x = a[i]

            def rest(opt):
                nonlocal i
                if len(x) > len(opt):
                    return x[len(opt):]
                i += 1
                return a[i] if i < len(a) else ""
            if x.startswith("-iquote"):
                v["iq"].append(self.names(rest("-iquote")))
            elif x.startswith("-include"):
                v["incl"].append(self.names(rest("-include")))
            elif x.startswith("-std="):
                v["std"] = x[5:]
            elif x.startswith("-fdiagnostics-color"):
                v["color"].append(x.partition("=")[2])
            elif x == "-c":
                v["c"] = True
            elif x.startswith("-o"):
                v["out"] = self.names(rest("-o"))
            elif x.startswith("-l"):
                v["libs"].append("-l" + rest("-l"))
                v["seq"].append({"n": [], "l": v["libs"][-1]})
            elif x.startswith("-L"):
                v["dirs"].append("-L" + rest("-L"))
            elif x.startswith("-DMAIKE_"):
                k, _, val = x[len("-DMAIKE_"):].partition("=")
                if k == "TASKID":
                    v["task"] = val
                elif k == "BUILDINFO_STARTTIME":
                    v["start"] = val
                elif k == "BUILDINFO_STARTTIME_STR":
                    v["startstr"] = val
                elif k == "BUILDINFO_BUILDID":
                    v["bid"] = val
                elif k in ("BUILDINFO_TARGETDIR", "BUILDINFO_SOURCEDIR"):
                    v["tdir" if "TARGET" in k else "sdir"] = self.names(val[1:-1]) if val[:1] == val[-1:] == '"' else ["?"]
            elif x.startswith("-"):
                v["flags"].append(x)
            else:
                v["inputs"].append(self.names(x))
                v["seq"].append({"n": v["inputs"][-1], "l": ""})
            i += 1
        return v

    def recorded(self, clear=True):
        out = []
        d = self.fake + "/tools"
        for n in sorted(os.listdir(d)):
            if n.startswith("~"):
                continue
            raw = open(os.path.join(d, n), "rb").read()
            out.append(self.invocation(n, [x.decode("utf-8", "surrogateescape") for x in raw.split(b"\0")[:-1]]))
        for k in ("tools", "done") if clear else ():
            for n in os.listdir(os.path.join(self.fake, k)):
                os.unlink(os.path.join(self.fake, k, n))
        return out

    def read(self, names):
        try:
            with open(os.path.join(self.p.dir, *names), "rb") as f:
                return f.read()
        except OSError:
            return None

    def members(self, lib):
        """The contents of the files in an archive."""
        data = self.read(lib)
        if data is None or not data.startswith(b"!<arch>\n"):
            return None
        at, out = 8, []
        while at + 60 <= len(data):
            head = data[at:at + 60]
            try:
                n = int(head[48:58])
            except ValueError:
                return None
            if not head.startswith((b"/ ", b"// ")):
                out.append(data[at + 60:at + 60 + n])
            at += 60 + n + (n & 1)
        return sorted(out)

    def state(self, invs):
        """Of the targets: what is missing, further targets that differ from the first, wrong copies and archives."""
        s, missing, differ, wrong = self.s, [], [], []
        for f in s.files:
            tg = [s.td + G.norm([*f["p"][:-1], *t["n"]]) for t in f["targets"]]
            if f["k"] == "dir":
                if not os.path.isdir(os.path.join(self.p.dir, *s.td, *f["p"])):
                    missing.append(s.td + f["p"])
                continue
            if f["k"] == "plain" or not tg:
                continue
            data = [self.read(t) for t in tg]
            missing += [t for t, x in zip(tg, data) if x is None]
            if f["k"] == "ext":
                continue
            differ += [t for t, x in zip(tg, data) if x != data[0]]
            if f["k"] == "gen" and data[0] != f["text"].encode():
                wrong.append(tg[0])
            if f["k"] == "sass" and data[0] is not None and b"".join(data[0].split()) != b"".join(f["text"].encode().split()):
                wrong.append(tg[0])
            if f["k"] == "lib":
                for v in invs:
                    if v["out"] == tg[0]:
                        want = sorted(self.read(x) or b"?" for x in v["inputs"])
                        if want != self.members(tg[0]):
                            wrong.append(tg[0])
        return {"missing": missing, "differ": differ, "wrong": wrong}

    def build(self):
        r = self.p.maike(self.inst + "/bin/maike2", *self.s.opts(self.p), workers=self.s.rng.choice([1, 2, 4]), env=self.env())
        invs = self.recorded()
        ids = [{"n": self.names(x["path"]), "task": "%dL" % x["id"], "ok": x["ok"]} for x in proj.log_lines(r.out)]
        return dict({"exit0": r.code == 0, "invs": invs, "ids": ids, "again": 0}, **self.state(invs)), r

    def remove(self):
        self.p.remove()


def observe(shape, inst, later=True):
    """Items for ToolTrace, and the runs of maike2 they come from."""
    shape = copy.deepcopy(shape)
    w = World(shape, inst)
    try:
        o, r = w.build()
        items, runs = [{"p": shape.abstract(), "obs": o, "part": False}], [r]
        if r.code == 0 and later:
            o2, r2 = w.build()
            o["again"] = len(o2["invs"]) if r2.code == 0 else 1000
            runs.append(r2)
            f = shape.lose_dependency()
            if f:
                now = time.time()
                w.p.write(os.path.join(*shape.sd, *f["p"]), shape.text(f), mtime=now)
                o3, r3 = w.build()
                runs.append(r3)
                items.append({"p": shape.abstract(), "obs": o3, "part": True})
        return items, runs
    finally:
        w.remove()
