"""C07, C08, C09: the dependency graph of projects against specs/Graph.tla (through GraphTrace), the traversal by Dfs."""

import json
import time

import graphfam as G
import vlib


def scen(c, variant, kinds, n=3):
    r = vlib.tlc_ok("GraphScen", defs={"N": n, "Kinds": "{%s}" % ", ".join('"%s"' % k for k in kinds),
                                       "Variant": variant}, workers=4, heap="4g")
    c.model(r)
    return [json.loads(x) for x in r.printed("SCEN")]


def run(c, prop, shapes, maike2, deadline):
    def one(s):
        if time.time() > deadline:
            return None
        return (s,) + tuple(G.observe(s, maike2, workers=s.rng.choice([1, 2, 4])))
    res = [x for x in vlib.pmap(one, shapes) if x]
    if not res:
        return []
    by = {id(x[1]): x for x in res}
    rej, rs = vlib.judge("GraphTrace", [x[1] for x in res], file="items.json", defs={"Props": '{"%s"}' % prop}, workers=8)
    for r in rs:
        c.model(r)
    c.traces(len(res))
    c.count("accepted_projects", sum(x[1]["obs"]["exit0"] for x in res))
    c.count("rejected_projects", sum(not x[1]["obs"]["exit0"] for x in res))
    return [(by[id(t)][0], t, by[id(t)][2], rec["why"][0]) for t, rec in rej]


def check(c, prop):
    maike2 = vlib.build() + "/bin/maike2"
    vlib.tool("vrecipe", libs=["-ljansson"])
    c.model(vlib.tlc_ok("Dfs", defs={"N": 3}))
    if c.thorough:
        c.model(vlib.tlc_ok("Dfs", defs={"N": 4, "Ordered": "FALSE"}, timeout=1500, heap="12g"))
    deadline = time.time() + (600 if c.thorough else 45)
    kinds = ["hpp", "link", "rule"]
    sc = scen(c, c.seed % 3, kinds)
    if c.thorough:
        sc += scen(c, (c.seed + 1) % 3, kinds) + scen(c, 0, ["hpp", "cxx", "lib"]) + scen(c, 1, ["link", "ext", "lib"])
    else:
        sc = c.rng.sample(sc, 1200)
    rnd = {"C07": dict(cyclic=.4, dangling=.2, dup=.15), "C08": {}, "C09": dict(cyclic=.1)}[prop]
    batches = [[G.Gen(c.rng, **rnd).make() for _ in range(1500)], [G.Shape(s["files"], c.rng) for s in sc]]
    rejected = []
    while not rejected:
        for b in batches:
            rejected += run(c, prop, b, maike2, deadline)
            if rejected:
                break
        if not c.thorough or time.time() > deadline:
            break
        batches = [[G.Gen(c.rng, n=c.rng.choice([None, None, 20, 30]), **rnd).make() for _ in range(2500)]]
    rejected.sort(key=lambda x: len(json.dumps(x[1]["p"])))
    c.sample(batches[0][0].abstract())
    for s, t, runs, why in rejected[:5]:
        # the same project again: what is reported happens every time, or at least twice
        again, runs2 = G.observe(s, maike2)
        rej, _ = vlib.judge("GraphTrace", [again], file="items.json", defs={"Props": '{"%s"}' % prop}, workers=1)
        if rej or len(rejected) > 3:
            c.violation(why, {"project": t["p"], "observed": t["obs"], "runs": [r.brief() for r in runs]})
    c.assumptions.append("references stay within the source folder; no external name equals a project file's path")
