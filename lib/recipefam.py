"""Recipes in the source folder and in the installation, with settings of all kinds, for C18."""

import json
import os
import shutil

import cfgfam
import proj
import vlib

KINDS = {"rule": ("maikerule", ".rr"), "cxx": ("cxx_src_loader", ".cc"), "lib": ("lib", ".ll"),
         "gen": ("generic", ".gg"), "ext": ("extension", ".ee")}
EMPTY = {"rec": "", "cfg": {}, "there": False, "gt": False}


def setup(rng):
    """A random setup, as specs/Recipes.tla describes it (with Python values)."""
    names = rng.sample(["ra", "rb.py", "sub/rc", "r d", "sub/e'f", "rg.q", "x/y/rh", "sub/ra", "x/y/ra", "x/y/rc", "sub/rb.py"], rng.choice([1, 2, 3, 4]))
    base = cfgfam.obj(rng, 4)
    if rng.random() < .12:
        base["pad"] = rng.choice("pé") * rng.choice([1, 4090, 12000, 22000])

    def cfg():
        p = [x for x in cfgfam.split(rng, base, rng.choice([1, 2, 2, 3])) if x is not ...]
        return rng.choice(p) if p else {}
    fail = rng.random() < .3
    s = {"where": {}, "conf": {}, "label": {}, "names": names}
    for r in names:
        p = rng.choice(["file", "file", "none", "dir"])
        y = rng.random() < .5 or p != "file"
        if fail and p != "file" and rng.random() < .3:
            y = False
        s["where"][r] = {"proj": p, "sys": y}
        s["conf"][r] = {}
        for at in ("proj", "sys"):
            m = rng.choice(["none", "fixed", "fixed", "wrap"])
            if fail and rng.random() < .15:
                m = "fail"
            s["conf"][r][at] = {"mode": m, "val": cfg() if m == "fixed" else {}}
        s["label"][r] = {"proj": r, "sys": r + "@"}
    s["dir"] = {"rec": rng.choice(names), "cfg": cfg()}
    s["loaders"], s["kind"], s["files"] = {}, {}, []
    for k in rng.sample(list(KINDS), rng.choice([1, 2, 3, 5])):
        ld = {"rec": rng.choice(names), "cfg": cfg(), "gt": rng.random() < .3}
        bare = rng.random() < .15 and k not in ("gen", "ext")
        if bare or k == "ext":
            ld["rec"], ld["gt"] = "", ld["gt"] and k == "ext"
        s["loaders"][k] = ld
        for i in range(rng.choice([0, 1, 1, 2])):
            src = "%s%d%s" % (rng.choice(["", "", "sub/", "x/y/z/"]), i, KINDS[k][1])
            if any(f["src"] == src for f in s["files"]):
                continue
            tag = dict(EMPTY)
            if k != "gen" and (rng.random() < .6 or bare):
                tag = {"rec": rng.choice(names) if rng.random() < .5 or bare else "", "cfg": cfg(), "there": True,
                       "gt": rng.random() < .3}
                if not tag["rec"]:
                    tag["gt"] = False
            s["files"].append({"src": src, "loader": k, "tag": tag})
    return s


def from_model(s):
    """A setup of specs/RecipesScen.tla."""
    def val(v):
        if "o" in v:
            return {k: val(x) for k, x in v["o"]}
        if "a" in v:
            return [val(x) for x in v["a"]]
        return int(v["s"]) if v["k"] == "int" else v["s"]

    def st(x):
        return dict(x, cfg=val(x["cfg"]))
    out = dict(s, names=list(s["where"]), kind={})
    out["conf"] = {r: {at: {"mode": x["mode"], "val": val(x["val"])} for at, x in c.items()} for r, c in s["conf"].items()}
    out["dir"] = st(s["dir"])
    out["loaders"] = {"rule": st(s["loaders"]["l"])}
    out["files"] = [dict(f, src="f.rr", loader="rule", tag=st(f["tag"])) for f in s["files"]]
    return out


def enc(s):
    def st(x):
        return dict(x, cfg=cfgfam.enc(x["cfg"]))
    out = {k: s[k] for k in ("where", "label")}
    # the empty name stands for the source file itself
    out["conf"] = {r: {at: {"mode": x["mode"], "val": cfgfam.enc(x["val"])} for at, x in c.items()} for r, c in s["conf"].items()}
    out["label"] = {r: {at: x.replace("/", "!") for at, x in v.items()} for r, v in s["label"].items()}
    out["dir"] = st(s["dir"])
    out["loaders"] = {k: st(x) for k, x in s["loaders"].items()}
    out["files"] = [dict(f, tag=st(f["tag"])) for f in s["files"]]
    return out


JUNK = ["{", "{\"a\": 1", "nothing", "[1]", "{\"a\": }", "{\"a\": 1, \"a\": 2}", "\"x\"", "{\"a\" 1}"]


class World:
    """The setup on disk: project, control folder, and an installation of its own."""

    def __init__(self, s, rng, build):
        self.s, self.rng = s, rng
        self.top = proj.fresh("r")
        cfg = proj.default_config()
        m = cfg["maikeconfig"]
        m["source_file_info_loaders"] = {k: {"loader": KINDS[k][0], "compiler": self.comp(x), **(
            {"config": {"generated_includes": []}} if k == "cxx" else
            {"config": {"target_filename_ext": ".t"}} if k == "gen" else {})} for k, x in s["loaders"].items()}
        m["source_tree_loader"]["file_info_loaders"] = {KINDS[k][1]: k for k in s["loaders"]}
        m["dir_compiler"] = self.comp(s["dir"])
        self.p = p = proj.Project(self.top, {}, cfg, recipe_names=())
        self.inst = self.top + "/inst"
        self.sys = self.inst + "/lib/maike2/recipes"
        os.makedirs(self.inst + "/bin")
        os.makedirs(self.sys)
        try:
            os.link(build + "/bin/maike2", self.inst + "/bin/maike2")
        except OSError:
            vlib.copy_program(build + "/bin/maike2", self.inst + "/bin/maike2")
        self.maike2 = self.inst + "/bin/maike2"
        for d in ("cfg", "cfgwrap", "cfgfail", "cfgerr", "tagargs", "args"):
            os.mkdir(os.path.join(p.ctl, d))
        for r in s["names"]:
            w = s["where"][r]
            if w["proj"] == "file":
                p.put_recipe(r)
            elif w["proj"] == "dir":
                os.makedirs(os.path.join(p.dir, r), exist_ok=True)
            if w["sys"]:
                to = os.path.join(self.sys, r)
                os.makedirs(os.path.dirname(to), exist_ok=True)
                vlib.copy_program(p.tool, to)
                os.utime(to, (proj.BASE_TIME, proj.BASE_TIME))
            for at, mark in (("proj", ""), ("sys", "@")):
                self.conf(r, at, r.replace("/", "!") + mark)
        for f in s["files"]:
            self.source(f)

    def comp(self, x):
        c = {"config": x["cfg"]}
        if x["rec"] or self.rng.random() < .5:
            c["recipe"] = x["rec"]
        if x.get("gt") or self.rng.random() < .3:
            c["use_get_tags"] = (1 if self.rng.random() < .8 else -2) if x.get("gt") else 0
        return c

    def put(self, kind, name, text=""):
        with open(os.path.join(self.p.ctl, kind, name), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)

    def conf(self, r, at, name):
        rng, c = self.rng, self.s["conf"][r][at]
        if rng.random() < .05:
            self.put("cfgerr", name)
        if c["mode"] == "wrap":
            self.put("cfgwrap", name)
        elif c["mode"] == "fixed":
            t = cfgfam.text(rng, c["val"])
            if rng.random() < .2:
                t = rng.choice(["\n", " ", "\t\r\n"]) * rng.choice([1, 100, 4096, 70000]) + t
            if rng.random() < .2:
                t += rng.choice(["\n", " "]) * rng.choice([1, 4096, 70000])
            self.put("cfg", name, t)
        elif c["mode"] == "fail":
            how = rng.choice(["exit", "signal", "out", "junk", "mode"])
            if how == "junk":
                self.put("cfg", name, rng.choice(JUNK))
            elif how == "mode" and self.s["where"][r][at] in ("file", True):
                # not executable
                os.chmod(os.path.join(self.p.dir if at == "proj" else self.sys, r), 0o644)
            else:
                self.put("cfg", name, "{\"x\": \"y\"}")
                self.put("cfgfail", name, how[0])

    def source(self, f):
        rng, k = self.rng, f["loader"]
        t = {"targets": [{"name": os.path.basename(f["src"]) + ".out"}]}
        if f["tag"]["there"]:
            t["compiler"] = self.comp(f["tag"])
        items = list(t.items())
        rng.shuffle(items)
        js = cfgfam.text(rng, dict(items))
        if k == "cxx":
            js = "".join("//@ %s\n" % x for x in js.split("\n"))
        elif k == "ext":
            js = "#!%s\n%s" % (self.p.tool, "".join("#@ %s\n" % x for x in js.split("\n")))
        elif k == "gen":
            js = "anything"
        self.p.write(f["src"], js, mode=0o755 if k == "ext" else 0o644)

    def who(self, exe):
        """(recipe, place) of an executable maike2 ran."""
        path = os.path.normpath(os.path.join(self.p.dir, exe))
        for r in self.s["names"]:
            if path == os.path.join(self.p.dir, r):
                return r, "proj"
            if path == os.path.join(self.sys, r):
                return r, "sys"
        if any(path == os.path.join(self.p.dir, f["src"]) for f in self.s["files"]):
            return "", "self"
        return exe, "?"

    def observe(self):
        p = self.p
        env = {}
        if self.rng.random() < .3:
            env["VREC_CHUNK"] = str(self.rng.choice([1, 7, 1000, 4096, 65536]))
        r = p.maike(self.maike2, workers=self.rng.choice([1, 2, 4]), env=env)
        runs = []
        for src, argv in p.args().items():
            rec, at = self.who(argv[0].decode("utf-8", "surrogateescape"))
            a = json.loads(argv[-1].decode("utf-8", "surrogateescape"))
            runs.append({"src": os.path.normpath(a["source_file"]), "rec": rec, "at": at, "cfg": cfgfam.enc(a["compiler_cfg"])})
        tagged = []
        d = p.ctl + "/tagargs"
        for n in os.listdir(d):
            lines = open(os.path.join(d, n), encoding="utf-8", errors="surrogateescape").read().split("\n")
            for exe, arg in zip(lines[::2], lines[1::2]):
                rec, at = self.who(exe)
                a = json.loads(arg)
                tagged.append({"src": os.path.normpath(a["source_file"]), "rec": rec, "at": at, "cfg": cfgfam.enc(a["compiler_cfg"])})
        ran = sum(1 for e in p.events() if e[0] == "S")
        return {"setup": enc(self.s), "obs": {"exit0": r.code == 0, "ran": ran, "runs": runs, "tagged": tagged}}, r

    def remove(self):
        shutil.rmtree(self.top, True)
