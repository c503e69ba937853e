"""Recipes that read, write, close and end in every way, for C12 and C03."""

import json
import os
import re

import buildfam
import cfgfam
import clifam
import proj

CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZghijklmnopqrstuvwxyz+=@%&*()[]{}<>!?^~;"
LINE = re.compile(rb"([0-9a-f]{6})(.)\2{56}\Z", re.S)
ENTRY = re.compile(r" (\d+) \| (✓|✗) \| (.*) \| (-|\d+) \| (- ?|\d+)\Z".encode(), re.S)
SIGNALS = [1, 2, 3, 6, 8, 9, 11, 13, 14, 15]
SIZES = [0, 1, 1, 2, 10, 63, 64, 65, 512, 1023, 1024, 1025, 1500, 3000]
HUGE = [20000, 70000, 140000, 300000]


class Load:
    """A project whose recipes do what programs (see specs/ExecTrace.tla) say."""

    def __init__(self, rng, fail=.3, big=1.0):
        self.rng = rng
        n = rng.choice([1, 2, 3, 4, 6, 10])
        self.workers = rng.choice([1, 2, 3, 4, 8, 16])
        ids = 0
        self.tasks = []
        failing = rng.random() < fail
        for i in range(n):
            prog = []
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                k = rng.choice(["out", "out", "out", "err", "err", "err", "stdin", "closeout", "closeerr", "sleep"])
                if k in ("out", "err"):
                    ids += 1
                    m = rng.choice(HUGE) if rng.random() < .004 * big else rng.choice(SIZES) if rng.random() < big else rng.choice(SIZES[:5])
                    prog.append({"k": k, "id": ids, "n": m})
                elif k == "sleep":
                    prog.append({"k": k, "n": rng.choice([100, 1000, 20000])})
                elif k == "stdin" or rng.random() < .3:
                    prog.append({"k": k})
            if rng.random() < .25:
                # no NUL: the log leaves out what follows one
                b = [rng.choice([10, 10, 13, 32, 35, 9, 124, 0xff, 0xc3, 0xa5, 7, 27, rng.randint(1, 255)])
                     for _ in range(rng.choice([1, 2, 5, 40]))]
                prog.append({"k": "raw", "b": b})
            st = "0"
            if failing and rng.random() < .4:
                st = rng.choice(["exit", "signal"])
                st = str(rng.choice([1, 2, 3, 42, 126, 127, 128, 129, 254, 255])) if st == "exit" else "s%d" % rng.choice(SIGNALS)
            cfg = cfgfam.obj(rng, 2)
            if rng.random() < .3:
                cfg["v"] = clifam.value(rng)
            if rng.random() < .1:
                cfg["big"] = rng.choice(["x", "\n", "\"", "é"]) * rng.choice([4095, 4096, 20000, 30000])
            deps = [j for j in range(i) if rng.random() < .15]
            self.tasks.append({"prog": prog, "status": st, "cfg": cfg, "deps": deps, "src": "t%d.rule" % i,
                               "targets": ["t%d_%d" % (i, k) for k in range(rng.choice([1, 1, 3]))]})

    def project(self):
        c = proj.default_config()
        p = proj.Project(proj.fresh("x"), {}, c)
        p.record_args()
        for t in self.tasks:
            tags = {"targets": [{"name": x} for x in t["targets"]], "compiler": {"config": t["cfg"]},
                    "dependencies": [{"ref": self.tasks[j]["targets"][0]} for j in t["deps"]]}
            p.write(t["src"], json.dumps(tags))
            lines = []
            for o in t["prog"]:
                if o["k"] in ("out", "err"):
                    lines.append("%s %d %s" % (o["k"], 64 * o["n"], CHARS[o["id"] % len(CHARS)]))
                elif o["k"] == "stdin":
                    lines.append("readstdin")
                elif o["k"] == "raw":
                    lines.append("rawout " + bytes(o["b"]).hex())
                elif o["k"] == "sleep":
                    lines.append("sleep %d" % o["n"])
                else:
                    lines.append(o["k"])
            if t["status"] != "0":
                lines.append("signal " + t["status"][1:] if t["status"][0] == "s" else "exit " + t["status"])
            p.directive(t["src"], *lines)
        return p

    def ids(self):
        """(character) -> ids with it, per stream user; ids that share a character lie in different places."""
        out = {}
        for i, t in enumerate(self.tasks):
            for o in t["prog"]:
                if o["k"] in ("out", "err"):
                    out.setdefault(CHARS[o["id"] % len(CHARS)].encode(), []).append((o["id"], i, o["k"]))
        return out


def runs(lines, ident):
    out = []
    for x in lines:
        m = LINE.match(x)
        if m:
            k, i = int(m[1], 16), ident(m[2])
        elif x.startswith(b"stdin:"):
            # what was read belongs to no operation unless it is nothing
            k, i = int(x[6:] or 0), 0
        else:
            continue
        if out and out[-1]["id"] == i and i and out[-1]["b"] + 1 == k:
            out[-1]["b"] = k
        else:
            out.append({"id": i, "a": k, "b": k})
    return out


def observe(load, maike2):
    p = load.project()
    r, w = os.pipe()
    try:
        # something that is not for the recipes, and no end
        os.write(w, b"not for you\n" * 10)
        run, hang = buildfam.free_run(p, maike2, workers=load.workers, stdin=r)
        return item(load, p, run, hang), run
    finally:
        os.close(r)
        os.close(w)
        p.remove()


def item(load, p, run, hang):
    data = run.out.encode("utf-8", "surrogateescape")
    index = {t["src"]: i for i, t in enumerate(load.tasks)}
    ids = load.ids()
    ends = {src: st for k, src, st in p.events() if k == "E"}
    starts = {src for k, src, st in p.events() if k == "S"}
    args = p.args()
    tasks = []
    for t in load.tasks:
        recv = []
        if t["src"] in args:
            a = args[t["src"]]
            recv = [str(len(a)), a[1].decode("utf-8", "replace")]
            try:
                j = json.loads(a[2].decode("utf-8"))
                recv += [json.dumps(j["compiler_cfg"], sort_keys=True), j["source_file"], " ".join(j["targets"])]
            except (ValueError, KeyError, IndexError):
                recv.append("not what was prepared")
        want = ["3", "compile", json.dumps(t["cfg"], sort_keys=True), t["src"],
                " ".join(["__targets/" + x for x in t["targets"]])]
        tasks.append({"prog": t["prog"], "args": want, "recv": recv, "started": t["src"] in starts, "status": t["status"]})
        if t["src"] in starts and ends.get(t["src"]) != t["status"]:
            # the recipe itself did not get to its end (it should)
            tasks[-1]["status"] = t["status"]
    entries, intact, cur, marks = [], True, None, False
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    else:
        intact = False
    for x in lines:
        m = ENTRY.match(x)
        if m and not x.startswith(b" ... "):
            path = m[3].decode("utf-8", "surrogateescape")
            cur = None
            if path in index:
                cur = {"t": index[path] + 1, "ok": m[2] == "✓".encode(), "lines": []}
                entries.append(cur)
        elif x.startswith(b" ... "):
            if cur is None:
                intact = False
            else:
                cur["lines"].append(x)
        elif x.startswith(b"#") and not entries:
            pass
        else:
            intact = False
    for e in entries:
        def ident(c, e=e):
            return next((i for i, t, s in ids.get(c, ()) if t == e["t"] - 1 and s == "out"), 999)
        ls = e.pop("lines")
        k = 0
        while k < len(ls) and (LINE.match(ls[k][5:]) or ls[k].startswith(b" ... stdin:")):
            k += 1
        e["out"] = runs([x[5:] for x in ls[:k]], ident)
        raw = b"".join(x + b"\n" for x in ls[k:])
        e["raw"] = list(raw[:2000])
    el = run.err.encode("utf-8", "surrogateescape").split(b"\n")
    order = [e["t"] - 1 for e in entries]

    def ident2(c):
        c2 = [i for i, t, s in ids.get(c, ()) if s == "err" and t in order]
        return c2[0] if c2 else 999
    return {"tasks": tasks, "entries": entries, "err": runs(el, ident2), "intact": intact, "exit0": run.code == 0,
            "hang": hang}
