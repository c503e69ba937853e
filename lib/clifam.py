"""Projects with names and settings that mean something to shells, and what maike2 prints about them."""

import json
import os
import re
import shutil

import graphfam
import proj
import vlib

HOSTILE = list(" '\"\\$`#&|;<>()[]{}*?!~=%^\tåé€-_.,:+@/") + ["'\\''", "$(x)", "${y}", "''", " #", "\\\\", "a", "b", "c", "Z", "9", "-n"]
HOSTILE.remove("/")
HOSTILE.remove(".")
VALUE = HOSTILE + ["\n", "/", ".", "\r", "\x01", "\x7f", "\u2028", "\\n", "%s", "//@", "*/"]
PLAIN = re.compile(r"[A-Za-z0-9_/.:,+@-]+|.", re.S)


def symbols(text):
    return PLAIN.findall(text)


def name(rng, used, lo=1, hi=6, pool=HOSTILE):
    while True:
        s = "".join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))
        if not s.startswith(("__", ".", "#")) and s.strip(" ") and s not in used and not s.startswith("!"):
            used.add(s)
            return s


def value(rng):
    return "".join(rng.choice(VALUE) for _ in range(rng.randint(0, 12)))


class Hostile:
    """Rule files, C++ files and scripts in folders, with dependencies in between, all with strange names."""

    def __init__(self, rng, n=None):
        self.rng = rng
        n = n or rng.choice([1, 2, 3, 5, 8])
        used = set()
        dirs = [""]
        for _ in range(rng.choice([0, 1, 2])):
            dirs.append(os.path.join(rng.choice(dirs), name(rng, used, pool=[x for x in HOSTILE if "!" not in x])))
        self.recipes = []
        for _ in range(rng.choice([1, 1, 2])):
            pool = [x for x in HOSTILE if "!" not in x] + ["\n"]
            self.recipes.append(rng.choice(["", "", "r" + name(rng, used) + "/"]) + name(rng, used, pool=pool))
        self.dirs = dirs
        self.files, self.needs, self.srcs, targets = {}, {}, [], []
        for i in range(n):
            d = rng.choice(dirs)
            k = rng.choice([".rule", ".rule", ".cpp", ".ext"])
            p = os.path.join(d, name(rng, used) + "%d" % i + k)
            t = [name(rng, used) + "%d" % i for _ in range(rng.choice([1, 1, 2]))]
            tags = {"targets": [{"name": x} for x in t]}
            deps = [x for x in targets if rng.random() < .3]
            if deps:
                tags["dependencies"] = [{"ref": "./" + os.path.relpath(x, d or "."), "rel": value(rng)} for x, _ in deps]
            self.needs[p] = [s for _, s in deps]
            if k != ".ext" and rng.random() < .6:
                tags["compiler"] = {"config": {value(rng) or "k": value(rng)}}
                if rng.random() < .5:
                    tags["compiler"]["recipe"] = rng.choice(self.recipes)
            elif rng.random() < .3 and k != ".ext":
                tags["dependencies"] = tags.get("dependencies", []) + [{"ref": value(rng) or "x", "origin": "system"}]
            js = json.dumps(tags, ensure_ascii=rng.random() < .3)
            if k == ".rule":
                text = js
            elif k == ".cpp":
                text = "//@ " + js + "\n"
            else:
                text = proj.ext_script(tags)
            self.files[p] = text
            self.srcs.append(p)
            targets += [(os.path.join(d, x), p) for x in t]

    def config(self):
        rng = self.rng
        c = proj.default_config(recipe=self.recipes[0])
        for ld in c["maikeconfig"]["source_file_info_loaders"].values():
            if ld["loader"] != "extension" and rng.random() < .5:
                ld["compiler"]["config"] = {value(rng) or "k": rng.choice([value(rng), [value(rng)], {"x": value(rng)}, 3, 1.5, None])}
        if rng.random() < .3:
            # what configure prints does not matter here; the settings do
            c["maikeconfig"]["dir_compiler"]["config"] = {"q": value(rng)}
        return c

    def project(self, cfg):
        p = proj.Project(proj.fresh("s"), self.files, cfg, recipe_names=self.recipes, dirs=[d for d in self.dirs if d])
        return p

    def before(self):
        """source file or folder -> what has to be built before it."""
        out = {}
        for s in self.srcs:
            d = os.path.dirname(s)
            out[s] = self.needs[s] + [d or "."]
        for d in self.dirs:
            out[d or "."] = [os.path.dirname(d) or "."] if d else []
        return out


def raw_args(p):
    """The recorded argument vectors, as strings."""
    d = p.ctl + "/args"
    out = []
    for n in sorted(os.listdir(d)):
        if not n.startswith("~"):
            with open(os.path.join(d, n), "rb") as f:
                out.append([x.decode("utf-8", "surrogateescape") for x in f.read().split(b"\0")[:-1]])
    return out


def snapshot(top):
    """Everything below a folder: [path, kind mode time content]."""
    import hashlib
    out = []
    for d, ds, fs in os.walk(top):
        for f in ds + fs + ([""] if d == top else []):
            p = os.path.join(d, f)
            st = os.lstat(p)
            h = hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else "-"
            out.append([os.path.relpath(p, top), "%o %d %d %s" % (st.st_mode, st.st_mtime_ns, st.st_ino, h)])
    return sorted(out)


def contents(top):
    out = []
    for d, ds, fs in os.walk(top):
        out += [(os.path.relpath(os.path.join(d, x), top), None) for x in ds]
        out += [(os.path.relpath(os.path.join(d, x), top), open(os.path.join(d, x), "rb").read()) for x in fs]
    return sorted(out, key=repr)


def source_of(argv):
    return os.path.normpath(json.loads(argv[-1])["source_file"])


FIXED = ["--build-id=" + "00112233445566778899aabbccddeeff" * 2, "--start-time=1580000000"]
LEVEL = ["--log-level=compilation_command", "--log-output-format=plain_text"]


def needs_of(argvs, before):
    at = {source_of(a): k + 1 for k, a in enumerate(argvs)}
    return [sorted(at[x] for x in before.get(source_of(a), ()) if x in at) for a in argvs]
