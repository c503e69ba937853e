"""C10, C22: what maike2 finds in source files against specs/Cxx.tla; how bytes get there against specs/Stream.tla."""

import json
import time

import cxxfam as X
import proj
import vlib


def report(c, bad, maike2, suffix=".cpp"):
    bad.sort(key=lambda b: len(b[1]))
    for case, text, got, run in bad[:8]:
        # once more, alone
        again, r = X.observe([X.render(case[0], "0", case[4] if len(case) > 4 else None)], maike2, workers=1, suffix=suffix)
        if again[0] is not None and again[0][0] == X.expected(case[1]) and again[0][1] == case[2] and len(bad) < 4:
            c.count("not_repeated")
            continue
        what = "the source file is not accepted" if got is None else \
            "includes %s and tags %s taken as %s and %s" % (sorted(X.expected(case[1])), sorted(case[2]),
                                                            sorted(got[0]), sorted(got[1]))
        c.violation("%s: %s: %s" % (c.prop, what, repr(text if len(text) < 300 else text[:150] + " ... " + text[-150:])),
                    {"text": text if len(text) < 20000 else {"symbols": case[0], "repeat": case[4]},
                     "expected": [sorted(map(list, case[1])), sorted(case[2])], "run": r.brief()})


def setup():
    vlib.tool("vrecipe", libs=["-ljansson"])
    return vlib.build() + "/bin/maike2"


def c10(c):
    m = setup()
    deadline = time.time() + (500 if c.thorough else 30)

    def go(cases):
        bad = []
        for a in range(0, len(cases), 8000):
            bad += X.compare(cases[a:a + 8000], m)
            c.traces(len(cases[a:a + 8000]))
            if bad:
                break
        report(c, bad, m)
        return bad
    for n in (1, 2, 3) + ((4,) if c.thorough else ()):
        if go(X.meanings(c, length=n)):
            return
    c.sample({"text": X.render(X.random_text(c.rng, 8), "0")})
    while True:
        if go(X.meanings(c, [X.random_text(c.rng, c.rng.randint(1, 14)) for _ in range(20000)])):
            return
        if time.time() > deadline:
            break
    c.assumptions.append("texts that are not C++ (unterminated literals or comments, a number followed by a quote) and "
                         "line splices are left out")


def c22(c):
    m = setup()
    c.model(vlib.tlc_ok("Stream", defs={"N": 14, "In": 4, "Out": 3}))
    c.model(vlib.tlc_ok("Stream", defs={"N": 9, "In": 2, "Out": 5}))
    deadline = time.time() + (500 if c.thorough else 35)
    while True:
        for kind, n in (("cxx", 700), ("rule", 200), ("ext", 200), ("gt", 200)):
            cases = X.padded(c, kind, n)
            suffix = X.FRAMES[kind][2]
            env = {"VREC_CHUNK": str(c.rng.choice([1, 7, 511, 512, 1000, 4095, 4096, 4097, 65536]))} if kind == "gt" else None
            bad = X.compare(cases, m, batch=25, suffix=suffix, env=env)
            c.traces(len(cases))
            c.count("kind_" + kind, len(cases))
            if bad:
                return report(c, bad, m, suffix)
        if config_sizes(c, m) or time.time() > deadline:
            break
    c.sample({"text": X.render(cases[0][0], "0"), "repeat": cases[0][4]})


def config_sizes(c, m):
    """What configure prints, in pieces: it has to reach the recipe as it is."""
    jobs = []
    for _ in range(24):
        b = c.rng.choice(X.BOUNDARIES[:7])
        n = max(20, b * c.rng.choice([1, 1, 2]) + c.rng.randint(-4, 4))
        key = "".join(c.rng.choice("abcdefghij") for _ in range(8))
        how = c.rng.choice(["value", "space", "keys"])
        if how == "value":
            v = "x" * (n - len(json.dumps({key: ""})))
            cfg, text = {key: v}, None
        elif how == "space":
            cfg = {key: "y"}
            text = json.dumps(cfg)[:-1] + " " * (n - len(json.dumps(cfg))) + "}"
        else:
            cfg = {}
            while len(json.dumps(cfg)) < n:
                cfg["k%d" % len(cfg)] = len(cfg)
            text = json.dumps(cfg)
        jobs.append((cfg, text or json.dumps(cfg), c.rng.choice([0, 1, 13, 512, 1000, 4096, 4097])))

    def one(j):
        cfg, text, chunk = j
        p = proj.Project(proj.fresh("k"), {"a.rule": '{"target":{"name":"a"}}'}, proj.default_config())
        try:
            import os
            os.makedirs(p.ctl + "/cfg")
            open(p.ctl + "/cfg/vrecipe", "w").write(text)
            p.record_args()
            r = p.maike(m, env={"VREC_CHUNK": str(chunk)} if chunk else None)
            got = p.args().get("a.rule")
            return got and json.loads(got[-1].decode())["compiler_cfg"], r
        finally:
            p.remove()
    bad = 0
    for j, (got, r) in zip(jobs, vlib.pmap(one, jobs)):
        c.count("configurations")
        if got != j[0]:
            got2, r = one(j)
            if got2 != j[0]:
                bad += 1
                c.violation("%s: settings of %d bytes, written %d at a time, do not reach the recipe" % (c.prop, len(j[1]), j[2]),
                            {"printed": j[1][:3000], "got": got2, "run": r.brief()})
    return bad
