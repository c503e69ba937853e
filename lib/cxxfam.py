"""C++ texts as sequences of symbols (specs/Cxx.tla), what they mean, and what maike2 finds in them."""

import json
import os
import re

import proj
import vlib

HEAD = ["/", "/", "@", "T0", "\n"]
FOOT = ["\n", "/", "/", "@", "TE", "\n", "#", "include", " ", "<", "P6", ">", "\n"]
NPATHS, NTAGS = 6, 9


def sym(s):
    """A text in which §k is tag k and ¤k is path k, as symbols."""
    out, i = [], 0
    words = ["include", "define", "pragma", "if"]
    raw = {"\f": "FF", "\v": "VT"}
    while i < len(s):
        for w in words:
            if s.startswith(w, i):
                out.append(w)
                i += len(w)
                break
        else:
            if s[i] in "§¤":
                out.append(("T" if s[i] == "§" else "P") + s[i + 1])
                i += 2
            else:
                c = s[i]
                out.append(raw.get(c) or ("B%02X" % (ord(c) & 255) if ord(c) >= 0x80 or c in "\0\1\x1a\x7f" else c))
                i += 1
    return out


# bytes as Python writes them with surrogateescape
BYTES = {"B%02X" % k: chr(k if k < 128 else 0xdc00 + k) for k in (0, 1, 0x1a, 0x7f, 0x80, 0x84, 0xc3, 0xfe, 0xff)}
BYTES.update({"FF": "\f", "VT": "\v"})


def render(symbols, f, pads=None):
    """The text of file f. pads: position -> how often the symbol there is repeated."""
    out = []
    for k, x in enumerate(symbols):
        if x == "T0":
            x = ' {"targets":[{"name":"%s_0"}' % f
        elif x in BYTES:
            x = BYTES[x]
        elif x == "TE":
            x = " ]}"
        elif len(x) == 2 and x[0] == "T":
            x = ',{"name":"%s_%s"}' % (f, x[1])
        elif len(x) == 2 and x[0] == "P":
            x = "p%s.inc" % x[1]
        out.append(x * pads[k] if pads and k in pads else x)
    return "".join(out)


CHUNKS = [sym(x) for x in [
    '"', "'", "/", "//", "/*", "*/", "*", "\\", "\n", 'R"(', 'R"ab(', ')"', ')ab"', "(", ")", "#", " ", "a", "1",
    "#include <¤1>\n", '#include "¤2"\n', "//@§1\n", "\n//@§2", "\n#include <¤3>", "L", "R", "define", "include", "<",
    "\t", "\r\n"]]


def meanings(c, texts=None, length=0, chunks=CHUNKS, head=HEAD, foot=FOOT, heap="6g", kind="cxx"):
    """[(text, includes, tags)] for the texts, or for all sequences of chunks, that are C++."""
    r = vlib.tlc_ok("CxxGen", defs={"L": length, "Kind": '"%s"' % kind}, heap=heap, timeout=1500,
                    data={"texts.json": {"chunks": chunks, "head": head, "foot": foot, "texts": texts or [[]]}})
    c.model(r)
    out = []
    for x in r.printed("M"):
        m = json.loads(x)
        # only well-formed tags: each once, nothing else
        if len(set(m["tags"])) != len(m["tags"]) or any(not re.fullmatch("T.", y) for y in m["tags"]):
            continue
        if any(not re.fullmatch("P.", y) for _, y in m["inc"]):
            continue
        body = texts[m["t"][0] - 1] if length == 0 else [y for k in m["t"] for y in chunks[k - 1]]
        out.append((head + body + foot, {tuple(y) for y in m["inc"]}, set(m["tags"]), m["t"]))
    return out


EDGE = re.compile(r'^"(.*)" -> "(.*)"$')


def config():
    return proj.default_config(extra_loaders={"gt": {"loader": "maikerule", "compiler": proj.compiler(use_get_tags=1)}},
                               extra_map={".gt": "gt"})


def observe(texts, maike2, workers=4, suffix=".cpp", env=None):
    """What maike2 finds in the texts (bytes or str): index -> (includes, tags) or None if not accepted."""
    todo = set(range(len(texts)))
    out = {}
    p = proj.Project(proj.fresh("x"), {"p%d.inc" % k: "x\n" for k in range(NPATHS + 1)}, config())
    for k in todo:
        if suffix == ".gt":
            p.write("f%d.gt" % k, "{}")
            os.makedirs(p.ctl + "/tags", exist_ok=True)
            with open(p.ctl + "/tags/f%d.gt" % k, "w") as fh:
                fh.write(texts[k])
        else:
            p.write("f%d%s" % (k, suffix), texts[k])
    last = None
    try:
        while todo:
            r = p.maike(maike2, "--print-dep-graph", workers=workers, env=env)
            last = r
            if r.code == 0 and 'digraph "G"' in r.out:
                for k in todo:
                    out[k] = (set(), set())
                for line in r.out.split("\n"):
                    m = EDGE.match(line)
                    if not m:
                        continue
                    a, b = m[1], m[2]
                    n = re.fullmatch(r"f(\d+)" + re.escape(suffix), a)
                    if n and int(n[1]) in out and b not in (".", "vrecipe"):
                        q = re.fullmatch(r"p(\d).inc", b)
                        out[int(n[1])][0].add(("P" + q[1]) if q else b)
                    n = re.fullmatch(r"__targets/f?(\d+)_(\d)", a)
                    if n:
                        k = re.fullmatch(r"f(\d+)" + re.escape(suffix), b)
                        if k and int(k[1]) in out:
                            out[int(k[1])][1].add("T" + n[2] if n[1] == k[1] else a)
                for k in todo:
                    if out[k][1]:
                        out[k][1].add("TE")
                return out, last
            # Files that are complained about, or else half of them at a time
            bad = {int(x) for x in re.findall(r"\bf(\d+)" + re.escape(suffix), r.err)} & todo
            if not bad and len(todo) > 1:
                half = sorted(todo)[:len(todo) // 2]
                o1, last = observe([texts[k] for k in half], maike2, workers, suffix, env)
                o2, last = observe([texts[k] for k in sorted(todo)[len(todo) // 2:]], maike2, workers, suffix, env)
                for i, k in enumerate(half):
                    out[k] = o1[i]
                for i, k in enumerate(sorted(todo)[len(todo) // 2:]):
                    out[k] = o2[i]
                return out, last
            for k in bad or todo:
                out[k] = None
                os.remove(os.path.join(p.dir, "f%d%s" % (k, suffix)))
            todo -= bad or set(todo)
        return out, last
    finally:
        p.remove()


def expected(inc):
    """Include styles are not visible in the graph, except through what the name stands for."""
    return {y for _, y in inc}


def compare(cases, maike2, batch=250, suffix=".cpp", env=None):
    """cases: (symbols, inc, tags, ..). Returns [(case, text, got)] that differ."""
    groups = [cases[a:a + batch] for a in range(0, len(cases), batch)]

    def one(g):
        texts = [render(x[0], str(k), x[4] if len(x) > 4 else None) for k, x in enumerate(g)]
        got, run = observe(texts, maike2, suffix=suffix, env=env)
        bad = []
        for k, x in enumerate(g):
            if got[k] is None or got[k][0] != expected(x[1]) or got[k][1] != x[2]:
                bad.append((x, texts[k], got[k], run))
        return bad
    return [b for r in vlib.pmap(one, groups) for b in r]


# ---- random texts

PIECES = [
    "#include <¤1>\n", '#include "¤2"\n', '  #  include\t"¤3"  // x\n', "#include/**/<¤4>\n", "/* x */ #include <¤5>\n",
    "/*\n*/#include <¤1>\n", "x /*\n*/#include <¤2>\n", "#/* a */include /* b */ <¤3> /* c\n*/\n", "//@§1\n", " \t//@ §2\n",
    "/* c */ //@§3\n", "x //@§4\n", "// //@§5\n", "//#include <¤4>\n", "/*\n#include <¤5>\n//@§6\n*/", "/**\n//@§7\n**/",
    "/* /* // */", 'R"(\n#include <¤1>\n//@§8\n)"', 'R"a(\n)"#include <¤2>\n)b"\n//@§1\n)a"', 'u8R"b()a"\n#include <¤1>\n)b"',
    'LR"(/*)"', 'uR"(")"', "x = a / b;\n", '"/*"', "'\"'", "'\\''", '"\\""', '"\\\\"', "L'\"'", "'/*'", "u'/'", "1'000'0",
    "0x1'a'b", '"//"', "'\\\\'", '#define X "¤3"\n', "#define x <¤4>\n", "#pragma a\n#include <¤5>\n", "#if '\"'\n",
    "#if 0\n#include <¤1>\n", "#else\n", "#x include <¤1>\n", "x #include <¤2>\n", "#include_ <¤3>\n", "#\n", "# \n#include <¤1>\n",
    "\n", "\n\n", " ", "\t", "\r\n", ";", "a", "R", "(", ")", "\"#include <¤2>\"", "a'a'", '"R"', "R'('", '"" ""', "aR", "_R\"(\"",
    "<", ">", "#define a R\"(\n#include <¤3>\n//@§2\n)\"\n", "// '\n", "// \"\n", "// R\"(\n", "/*'*/", '/*"*/', '/*R"(*/',
    "#include <¤1> /*\n#include <¤2>\n*/\n", "#include <¤1> // /*\n", "//@§3 /*\n", "//@ §4 // x\n", "//@\n", "//\n@§5\n",
    '#define x "/*"\n', "#define x '/*'\n", '#include "¤1" "¤2"\n', "#include <¤1>\"¤2\"\n", "*/", "**/", "/", "*", "@", "//@§9\r\n",
    "#include\t<¤2>\r\n", "##include <¤1>\n", "#a#include <¤1>\n", "\n#", "include <¤3>\n", "#if a /* \n */ #include <¤4>\n",
    "#include <¤3>x\n", "#a\"\"\n", "#define x(a) #a\n", "\"a\" // \"\n", "'a' /* ' */", "8", "u8", 'u8"/*"', 'L"//"', "u8'/'",
    "// \xff\n", "/* \xff */", "/*\xc3\x84*/ ", "//\x80\x00\n", '"\xff"', "'\xfe'", 'R"(\xff)"', "/*\0*/", "/*\x1a\x01\x7f*/", "//\xff",
    "\f\n", "\v", "\f#include <¤2>\n", "#include\f<¤3>\v\n", "\f//@§5\n"]
PIECES = [sym(x) for x in PIECES]


def random_text(rng, n):
    out = []
    for _ in range(n):
        p = rng.choice(PIECES)
        if rng.random() < .15:
            p = p[:rng.randrange(len(p) + 1)]
        out += p
        if rng.random() < .3:
            out.append("\n")
    if rng.random() < .3 and out:
        k = rng.randrange(len(out))
        del out[k]
    return out


# ---- texts in which some place lies at a given offset

BOUNDARIES = [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072]
PADS = [(sym("//x\n"), 2), (sym(" "), 0), (sym("\n"), 0), (sym("/*x*/"), 2), (sym("/*\n*/"), 2), (sym('"x"'), 1),
        (sym('R"(x)"'), 3), (sym("x"), 0), (sym("//@ \n"), 3), (sym("\t"), 0), (sym("/***/"), 2), (sym("//@ §9 \n"), 5),
        (sym("//\xff\n"), 2), (sym("/*\0*/"), 2), (sym('"\xff"'), 1), (sym("\f"), 0)]
RULE_PADS = [([" "], 0), (["\n"], 0), (["\t"], 0), (["\r", "\n"], 1)]


class Padded:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        pieces = self.pieces()
        k = rng.randrange(len(pieces) + 1)
        before = [x for p in pieces[:k] for x in p]
        after = [x for p in pieces[k:] for x in p]
        pad, at = rng.choice(PADS if kind == "cxx" else RULE_PADS if kind == "rule" else PADS[1:3] + [(sym("#x\n"), 1), (sym("\xff\n"), 0), (sym("\f"), 0)])
        self.body = before + pad + after
        self.at = len(before) + at
        self.anchor = len(before) + len(pad) + rng.randrange(len(after) + 3)

    def pieces(self):
        rng = self.rng
        if self.kind == "cxx":
            return [rng.choice(PIECES) for _ in range(rng.randint(1, 8))]
        t = rng.sample(range(1, 9), rng.randint(0, 5))
        if self.kind == "rule":
            return [["T%d" % k] for k in t]
        out = [sym("#@§%d\n" % k) for k in t] + rng.sample(
            [sym(x) for x in ["# @§9\n", "x#@§9\n", " #@\n", "##@§9\n", "\n", "#\n@§9\n", "# \xff\n", "\xff\0\x1a\n", "\f\n", "\f#@§9\n"]], 2)
        rng.shuffle(out)
        return out

    def pads(self, head, foot, f):
        """How often the pad has to be repeated for the anchor to lie at a boundary, or close to it."""
        rng = self.rng
        full = head + self.body + foot
        at, anchor = len(head) + self.at, min(len(head) + self.anchor, len(full))
        size = len(render(full[:anchor], f).encode("utf-8", "surrogateescape"))
        goal = rng.choice(BOUNDARIES) * rng.choice([1, 1, 1, 2, 3]) + rng.randint(-6, 6)
        n = len(full[at])
        return {at: max(1, (goal - size) // n + 1)}


FRAMES = {"cxx": (HEAD, FOOT, ".cpp"), "rule": (["T0"], ["TE"], ".rule"), "gt": (["T0"], ["TE"], ".gt"),
          "ext": (["#", "@", "T0", "\n"], ["\n", "#", "@", "TE", "\n"], ".ext")}


def padded(c, kind, n):
    """n cases of the kind, as for compare()."""
    head, foot, _ = FRAMES[kind]
    k = "rule" if kind == "gt" else kind
    ps = [Padded(c.rng, k) for _ in range(n)]
    out = []
    for case in meanings(c, [p.body for p in ps], head=head, foot=foot, kind=k):
        p = ps[case[3][0] - 1]
        out.append(case + (p.pads(head, foot, "10"),))
    return out
