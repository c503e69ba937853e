"""Files read by every kind of loader, for C27 (specs/Kinds.tla)."""

import itertools
import json
import re

import cxxfam as X
import proj
import treefam
import vlib

POOL = ["a.gen.hpp", "b.hpp", "gen.hpp", "g/c.hpp", "g/c.gen.hpp", "agen.hpp", "x.gen.hpp.h", "A.GEN.hpp", "ab+c.h"]
OUTS = [("append", ".o"), ("append", "-o"), ("append", ".x.y"), ("append", ""), ("replace", ".o"), ("replace", ".x.y"),
        ("replace", ""), ("same", "")]
STEMS = ["x", "x y", "\u00e5", "x.c", "x.", ".x", "..x", "x..", "x.k0", "-x", "x.X", "x.o", "x.y.z.w"]
GEN_SETS = ["\\.gen\\.hpp$", "gen", "^g/", "^gen\\.hpp$", ".gen", "[bc]\\.hpp$", "^.*$", "a\\{0,1\\}gen", "b+c", "x*", "\\.hpp"]
EXT = [X.sym(x) for x in ["#", "@", "#@\u00a71\n", "\n#@\u00a72", "\n", " ", "\t", "x", "\r\n", '"', "//@\u00a73\n", "#@ \u00a74\t\r\n",
                          "\f", "\xff", '#include "\u00a41"\n', "\u00a75", " #@\u00a76\n", "# @\u00a77\n",
                          "#@\u00a78\r\u00a79\n"]]
WHITE = [[" "], ["\n"], ["\t"], ["\r"], []]
KEYS = {"cxx": ".cpp", "rule": ".rule", "app": ".app", "lib": ".lib", "ext": ".ext"}
EDGE = re.compile(r'^"(.*)" -> "(.*)"$')


def pat(text):
    """The pattern taken apart, as in treefam."""
    t, items = text, []
    b = t.startswith("^")
    t = t[1:] if b else t
    e = t.endswith("$")
    t = t[:-1] if e else t
    while t:
        if t[0] == "\\":
            s, neg, t = [t[1]], False, t[2:]
        elif t[0] == "[":
            s, neg, t = list(t[1:t.index("]")]), False, t[t.index("]") + 1:]
        elif t[0] == ".":
            s, neg, t = [], True, t[1:]
        else:
            s, neg, t = [t[0]], False, t[1:]
        lo, hi = 1, 1
        if t.startswith("*"):
            lo, hi, t = 0, -1, t[1:]
        elif t.startswith("\\{0,1\\}"):
            lo, hi, t = 0, 1, t[7:]
        items.append({"set": s, "neg": neg, "lo": lo, "hi": hi})
    return {"begin": b, "end": e, "items": items}


def case(kind, name, text=(), out="", gen=(), paths=None):
    return {"kind": kind, "name": list(name), "out": list(out), "gen": [pat(g) for g in gen], "text": list(text),
            "paths": paths or {"-": []}, "g": list(gen)}


def ext_texts(n):
    head, foot = X.FRAMES["ext"][:2]
    for k in range(n + 1):
        for c in itertools.product(EXT, repeat=k):
            yield case("ext", "s.ext", head + [y for x in c for y in x] + foot)


def generic_cases(rng):
    """All names and loaders."""
    for (mode, out), stem, c in itertools.product(OUTS, STEMS, ["", ".c"]):
        junk = rng.choice(["", "{", '{"target":{"name":"q_1"}}', '#include "b.hpp"\n', '//@{"target":{"name":"q_2"}}\n',
                           '#@{"target":{"name":"q_3"}}\n', "\n" * 5000, "[]", "\"", "\xff\0"])
        yield dict(case(mode, stem + c + ".k%d" % OUTS.index((mode, out)), (), out), junk=junk)


def rule_cases(rng, n):
    for _ in range(n):
        t = ["T0"] + ["T%d" % k for k in rng.sample(range(1, 10), rng.choice([0, 1, 2, 5]))] + ["TE"]
        body = []
        for x in t:
            body += [y for _ in range(rng.choice([0, 0, 1, 3])) for y in rng.choice(WHITE)] + [x]
        yield case(rng.choice(["rule", "app", "lib"]), "s", body + rng.choice(WHITE))


def random_gen(rng):
    """patterns made of parts"""
    if rng.random() < .6:
        return rng.choice(GEN_SETS)
    t, _ = treefam.pattern(rng, True)
    return t if "\\{" not in t and "[^" not in t else rng.choice(GEN_SETS)


def cxx_cases(rng, n):
    for _ in range(n):
        names = rng.sample(POOL, rng.choice([1, 2, 4]))
        text = list(X.HEAD)
        for i in range(len(names)):
            how = X.sym(rng.choice(['#include "\u00a40"\n', '#include "\u00a40"\n', "#include <\u00a40>\n"]))
            text += ["P%d" % (i + 1) if y == "P0" else y for y in how]
        text += ["/", "/", "@", "TE", "\n"]
        gen = [random_gen(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        yield case("cxx", "s", text, gen=gen, paths={"P%d" % (i + 1): list(x) for i, x in enumerate(names)})


def render(f, k):
    if "junk" in f:
        return f["junk"].encode("latin-1")
    text = X.render(f["text"], "q")
    for s, n in f["paths"].items():
        if s != "-":
            text = text.replace("p%s.inc" % s[1:], "".join(n))
    return text


def project(files):
    """All the files of one project have the same patterns for generated includes."""
    loaders = {"cxx": {"loader": "cxx_src_loader", "compiler": proj.compiler(), "config": {"generated_includes": files[0]["g"]}},
               "rule": {"loader": "maikerule", "compiler": proj.compiler()}, "app": {"loader": "app", "compiler": proj.compiler()},
               "lib": {"loader": "lib", "compiler": proj.compiler()}, "ext": {"loader": "extension", "compiler": proj.compiler("")}}
    ext = {v: k for k, v in KEYS.items()}
    for i, (mode, out) in enumerate(OUTS):
        ld = {"loader": "generic", "compiler": proj.compiler()}
        if mode != "same":
            ld["config"] = {"target_filename_ext": out, "filename_ext_replacement_mode": mode}
        loaders["k%d" % i] = ld
        ext[".k%d" % i] = ext[".c.k%d" % i] = "k%d" % i
    cfg = {"maikeconfig": {"source_tree_loader": {"file_info_loaders": ext, "recursive": 1, "input_filter": [], "fullpath_input_filter": []},
                           "source_file_info_loaders": loaders, "dir_compiler": proj.compiler()}}
    p = proj.Project(proj.fresh("k"), {"p/" + n: "x\n" for n in ()}, None, recipe_names=("src/vrecipe",))
    with open(p.top + "/c.json", "w") as fh:
        json.dump(cfg, fh)
    for n in POOL:
        p.write("src/" + n, "x\n")
    p.write("src/p1.inc", "x\n")
    p.write("src/all.rule", json.dumps({"targets": [{"name": n} for n in POOL]}))
    for k, f in enumerate(files):
        n = "".join(f["name"]) + (KEYS.get(f["kind"], "") if f["kind"] in ("cxx", "rule", "app", "lib") else "")
        p.write("src/d%d/%s" % (k, n), render(f, k))
    return p


def observe(files, maike2):
    """The files with what was found in them, and the run."""
    p = project(files)
    try:
        r = p.maike(maike2, "--configfiles=../c.json", "--source-dir=src", "--target-dir=t", "--print-dep-graph", workers=4)
    finally:
        p.remove()
    if r.code != 0 or 'digraph "G"' not in r.out:
        if len(files) > 1:
            h = len(files) // 2
            a, b = observe(files[:h], maike2), observe(files[h:], maike2)
            return a[0] + b[0], r
        return [dict(files[0], obs={"ok": False, "includes": [], "tags": [], "names": [], "other": 0})], r
    obs = [{"ok": True, "includes": [], "tags": [], "names": [], "other": 0} for _ in files]
    for line in r.out.split("\n"):
        m = EDGE.match(line)
        if not m:
            continue
        a, b = m[1], m[2]
        s = re.fullmatch(r"src/d(\d+)/.*", a)
        if s:
            k = int(s[1])
            if b in ("src/d%d" % k, "src/vrecipe"):
                continue
            org, name = ("project", b[4:]) if b.startswith("src/") else ("generated", b[2:]) if b.startswith("t/") else ("system", b)
            syms = [x for x, y in files[k]["paths"].items() if "".join(y) == name and x != "-"]
            if syms:
                obs[k]["includes"].append([org, syms[0]])
            else:
                obs[k]["other"] += 1
        s = re.fullmatch(r"t/d(\d+)/(.*)", a)
        if s and b != "src/d%d" % int(s[1]):
            k, n = int(s[1]), s[2]
            q = re.fullmatch(r"q_(\d)", n)
            if not re.fullmatch("src/d%d/.*" % k, b):
                obs[k]["other"] += 1
            elif q and files[k]["kind"] in KEYS:
                obs[k]["tags"].append("T" + q[1])
            else:
                obs[k]["names"].append(list(n))
    return [dict(f, obs=o) for f, o in zip(files, obs)], r
