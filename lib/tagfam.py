"""Tags of all kinds, well formed and not, in files of every loader and from recipes, for C21."""

import json
import os
import re

import proj
import vlib

BAD = ["'", "tru", "nul", "True", '"a\n', '"\x01"', '"\\q"', "01", "1.", ".5", "+1", "-", "//x\n", "/**/", '"\udcff"',
       "NaN", "=", ";", "\ufeff", "{{}", "#", "1e", "0x1", "\u00e9", '"\\u12g4"', "]]", "\\"]
KINDS = [("rule", ".rule"), ("lib", ".lib"), ("cxx", ".cpp"), ("ext", ".ext"), ("sup", ".sup")]
BUFFERS = [512, 1024, 4096, 8192, 16384, 32768, 65536]


def tok(t, s=""):
    return {"t": t, "s": s}


def to_tokens(rng, v):
    if isinstance(v, dict):
        items = list(v.items())
        rng.shuffle(items)
        out = [tok("{")]
        for i, (k, x) in enumerate(items):
            out += [tok(",")] * (i > 0) + [tok("str", k), tok(":")] + to_tokens(rng, x)
        return out + [tok("}")]
    if isinstance(v, list):
        out = [tok("[")]
        for i, x in enumerate(v):
            out += [tok(",")] * (i > 0) + to_tokens(rng, x)
        return out + [tok("]")]
    if v is None or v is True or v is False:
        return [tok(json.dumps(v))]
    if isinstance(v, str):
        return [tok("str", v)]
    return [tok("int" if isinstance(v, int) else "real", json.dumps(v))]


def value(rng, depth):
    """Any value."""
    k = rng.choice(["s", "i", "r", "b", "n", "o", "a"] if depth else "sirbn")
    return (rng.choice(["", "u", "name", "\u00e9\u4e2d", 'q"\\/\n']) if k == "s" else rng.choice([0, 7, -3, 10 ** 15]) if k == "i"
            else rng.choice([1.5, -2e10, 0.0]) if k == "r" else rng.random() < .5 if k == "b" else None if k == "n"
            else {x: value(rng, depth - 1) for x in rng.sample(["a", "b", "name", "ref"], rng.choice([0, 1, 2]))} if k == "o"
            else [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 3]))])


def dep(rng, targets):
    d = {"ref": rng.choice(["x", "y", "z w", "\u00e9", "l" * rng.choice([1, 200])])}
    if targets or rng.random() < .9:
        d["origin"] = rng.choice(["system", "pkg-config"])
    else:
        d["origin"] = "system"
    for p in rng.sample(["rel", "p1", "p2"], rng.choice([0, 0, 1, 2])):
        d[p] = rng.choice(["impl", "include", "", "q" * rng.choice([1, 3000])])
    return d


def closed(rng, ident):
    """Well-formed tags that refer to nothing else, and the names of their targets."""
    names = ["%s-%d" % (ident, i) for i in range(rng.choice([0, 1, 1, 2, 3, 8]))]

    def target(n):
        t = {"name": n}
        if rng.random() < .5:
            t["dependencies"] = [dep(rng, True) for _ in range(rng.choice([0, 1, 3]))]
        if rng.random() < .3:
            t["pkgconfig_libs"] = [rng.choice(["a", "b"]) for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < .4:
            t[rng.choice(["type", "autorun", "x"])] = value(rng, 2)
        return t
    v = {}
    ts = [target(n) for n in names]
    if ts and rng.random() < .5:
        v["target"] = ts.pop()
    if ts or rng.random() < .2:
        v["targets"] = ts
    for k in ("dependencies", "dependencies_extra"):
        if rng.random() < .4:
            v[k] = [dep(rng, False) for _ in range(rng.choice([0, 1, 2, 10]))]
    if rng.random() < .4:
        c = v["compiler"] = {"config": {x: value(rng, 3) for x in rng.sample(["a", "b", "c"], rng.choice([0, 1, 2]))}}
        if rng.random() < .6:
            c["recipe"] = "vrecipe"
            if rng.random() < .5:
                c["use_get_tags"] = 0
    if rng.random() < .3:
        v["rebuild"] = rng.choice(["always", "only_if_out_of_date"])
    if rng.random() < .3:
        v[rng.choice(["other", "Target", "targetss"])] = value(rng, 3)
    return v, names


def places(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, at + (i,))


def spoil_value(rng, v):
    """Changes one place of the value."""
    ps = [p for p in places(v) if p]
    if not ps or rng.random() < .03:
        return value(rng, 2)
    p = rng.choice(ps)
    w = v
    for k in p[:-1]:
        w = w[k]
    how = rng.random()
    if how < .3:
        del w[p[-1]]
    elif how < .45 and isinstance(w, dict):
        w[rng.choice([p[-1] + "s", p[-1].upper(), p[-1][:-1], " " + p[-1]])] = w.pop(p[-1])
    elif how < .55:
        w[p[-1]] = [w[p[-1]]]
    elif how < .6 and isinstance(w[p[-1]], str):
        w[p[-1]] = "nonsense"
    else:
        w[p[-1]] = value(rng, 2)
    return v


def spoil_tokens(rng, ts):
    ts = list(ts)
    i = rng.randrange(len(ts))
    how = rng.choice(["del", "ins", "dup", "swap", "cut", "key", "bad", "bad"])
    if how == "del":
        del ts[i]
    elif how == "ins":
        ts.insert(i, rng.choice([tok(x) for x in "{}[]:,"] + [tok("bad"), tok("null")]))
    elif how == "dup":
        ts.insert(i, ts[i])
    elif how == "swap":
        j = rng.randrange(len(ts))
        ts[i], ts[j] = ts[j], ts[i]
    elif how == "cut":
        ts = ts[:i]
    elif how == "bad":
        ts[i] = tok("bad")
    else:
        keys = [k for k in range(len(ts) - 1) if ts[k]["t"] == "str" and ts[k + 1]["t"] == ":"]
        if keys:
            ts[rng.choice(keys)] = ts[rng.choice(keys)]
    return ts


def lone(t):
    """The token a text is, which is all that is left."""
    if t in ("true", "false", "null"):
        return t
    if re.fullmatch(r"-?(0|[1-9]\d*)", t):
        return "int"
    if re.fullmatch(r"-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?", t):
        return "real"
    return t if t in ("{", "}", "[", "]", ":", ",") else "bad"


def spell(rng, t, plain=False):
    if t["t"] == "str":
        if plain or rng.random() < .8:
            return json.dumps(t["s"], ensure_ascii=rng.random() < .5)
        return '"' + "".join("\\u%04x" % ord(c) if ord(c) < 0x10000 and rng.random() < .3 else json.dumps(c, ensure_ascii=False)[1:-1]
                             for c in t["s"]) + '"'
    if t["t"] == "bad":
        return rng.choice(BAD)
    return t["s"] if t["t"] in ("int", "real") else t["t"]


def gap(rng, wide):
    if wide:
        return rng.choice(["", " ", "\n", "\t", "\r\n", "  \n  ", " " * rng.choice([1, 50])])
    return rng.choice(["", "", " "])


def render(rng, ts, wide=False, size=None):
    """The text of the tokens; with `size`, padded to that size. Returns (text, [(begin, end) of each token])."""
    out, spans, n = [], [], 0
    for i, t in enumerate(ts):
        g = gap(rng, wide)
        if i and not g and not (ts[i - 1]["t"] in "{}[]:," and t["t"] in "{}[]:,") and \
                not (ts[i - 1]["t"] in "{}[]:," and t["t"] != "bad") and not (t["t"] in "{}[]:," and ts[i - 1]["t"] != "bad"):
            g = " "
        s = spell(rng, t)
        spans.append([n + len(g), n + len(g) + len(s)])
        out += [g, s]
        n += len(g) + len(s)
    text = "".join(out)
    tail = rng.choice(["", "\n", " "])
    if size:
        # the blanks go somewhere between two tokens
        k = len(text.encode("utf-8", "surrogateescape"))
        if k < size:
            at = spans[rng.randrange(len(spans))][0] if spans and rng.random() < .6 else 0 if rng.random() < .5 else len(text)
            pad = size - k
            text = text[:at] + rng.choice([" ", "\n", "\t"]) * pad + text[at:]
            spans = [[a + pad * (a >= at), b + pad * (a >= at)] for a, b in spans]
    return text + tail, spans


def cut(rng, ts, size=None):
    """A text that ends after any of the characters of the text of the tokens."""
    text, spans = render(rng, ts, wide=rng.random() < .3, size=size)
    n = rng.randrange(len(text) + 1)
    left = [t for t, (a, b) in zip(ts, spans) if b <= n]
    part = [(t, a) for t, (a, b) in zip(ts, spans) if a < n < b]
    if part:
        t, a = part[0]
        left.append(tok("bad") if t["t"] in ("str", "bad") else tok(lone(text[a:n]), text[a:n]))
    # a token that is bad only together with the rest of the text is left out of it
    return left, text[:n]


class File:
    def __init__(self, ident, kind, tokens, text):
        self.ident, self.kind, self.tokens, self.text = ident, kind, tokens, text

    def path(self):
        return self.ident + dict(KINDS)[self.kind]


def config():
    c = proj.default_config(extra_loaders={"sup": {"loader": "maikerule", "compiler": proj.compiler("vrecipe", use_get_tags=1)}},
                            extra_map={".sup": "sup"})
    return c


class World:
    def __init__(self, files, rng, good=(), workers=2):
        self.files, self.rng, self.good, self.workers = files, rng, list(good), workers

    def setup(self):
        rng = self.rng
        p = self.p = proj.Project(proj.fresh("g"), {}, config())
        p.record_args()
        os.mkdir(p.ctl + "/tags")
        for f in self.files:
            text = f.text
            if f.kind == "cxx":
                text = "".join("//@%s\n" % x for x in text.split("\n")) + rng.choice(["", "\nint x;\n", "// \n"])
            elif f.kind == "ext":
                text = "#!%s\n" % p.tool + "".join("#@%s\n" % x for x in text.split("\n"))
            if f.kind == "sup":
                with open(os.path.join(p.ctl, "tags", f.path().replace("/", "!")), "wb") as fh:
                    fh.write(text.encode("utf-8", "surrogateescape"))
                text = rng.choice(["", "{}", "\n"])
            p.write(f.path(), text, mode=0o755 if f.kind == "ext" else 0o644)
        return p

    def item(self):
        return {"files": [{"id": f.ident, "tokens": f.tokens, "supplied": f.kind == "sup"} for f in self.files],
                "good": self.good, "recipes": ["vrecipe"]}

    def observe(self, maike2, env=None):
        p = self.setup()
        try:
            r = p.maike(maike2, workers=self.workers, env=env, timeout=120)
            words = {w[2:] if w.startswith("./") else w for w in re.findall(r"[\w./-]*\w", r.err)}
            targets, ran = [], sum(1 for e in p.events() if e[0] == "S")
            for n, argv in p.args().items():
                a = json.loads(argv[-1])
                src = os.path.normpath(a["source_file"])
                for f in self.files:
                    if f.path() == src and a["targets"]:
                        d = os.path.dirname(src)
                        targets.append({"id": f.ident, "names": [os.path.relpath(os.path.relpath(t, "__targets"), d or ".")
                                                                 for t in a["targets"]]})
            it = self.item()
            it["obs"] = {"exit0": r.code == 0, "ran": ran, "targets": targets,
                         "named": [f.ident for f in self.files if f.path() in words]}
            return it, r
        finally:
            p.remove()
