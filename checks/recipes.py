"""C18: recipes and their settings against specs/Recipes.tla (RecipesTrace), and tags that recipes supply against
specs/Graph.tla (GraphTrace)."""

import json
import random
import time

import graphfam as G
import recipefam as F
import vlib


def one(s, seed, build):
    w = F.World(s, random.Random(seed), build)
    try:
        return w.observe()
    finally:
        w.remove()


def supplied(c, maike2, n, deadline):
    """Projects in which recipes supply some of the tags have the graph of the tags taken together."""
    shapes = []
    for _ in range(n):
        s = G.Gen(c.rng, cyclic=.1, dangling=.05, dup=.05).make()
        s.supply = c.rng.choice([.3, .6, 1.0])
        shapes.append(s)

    def obs(s):
        if time.time() > deadline:
            return None
        return (s,) + tuple(G.observe(s, maike2, workers=s.rng.choice([1, 2, 4])))
    res = [x for x in vlib.pmap(obs, shapes) if x]
    props = {"Props": '{"C07", "C08", "C09"}'}
    rej, rs = vlib.judge("GraphTrace", [x[1] for x in res], file="items.json", defs=props, workers=8)
    for r in rs:
        c.model(r)
    c.traces(len(res))
    c.count("projects_with_supplied_tags", len(res))
    by = {id(x[1]): x for x in res}
    rej.sort(key=lambda x: len(json.dumps(x[0]["p"])))
    for t, rec in rej[:5]:
        s, _, runs = by[id(t)]
        again, _ = G.observe(s, maike2)
        if vlib.judge("GraphTrace", [again], file="items.json", defs=props, workers=1)[0] or len(rej) > 3:
            c.violation("C18: with tags a recipe supplies: " + rec["why"][0],
                        {"project": t["p"], "observed": t["obs"], "runs": [r.brief() for r in runs]})
    return bool(rej)


def c18(c):
    build = vlib.build()
    vlib.tool("vrecipe", libs=["-ljansson"])
    r = vlib.tlc_ok("RecipesScen", workers=4)
    c.model(r)
    scens = [F.from_model(json.loads(x)) for x in r.printed("SCEN")]
    if supplied(c, build + "/bin/maike2", 400, time.time() + 20):
        return
    deadline = time.time() + (500 if c.thorough else 30)
    if not c.thorough:
        scens = c.rng.sample(scens, 1200)
    jobs = [(s, c.rng.randrange(1 << 60)) for s in scens]
    while True:
        jobs += [(F.setup(random.Random(k)), k) for k in (c.rng.randrange(1 << 60) for _ in range(1000))]
        c.rng.shuffle(jobs)
        res = vlib.pmap(lambda j: (j,) + one(*j, build) if time.time() < deadline else None, jobs)
        res = [x for x in res if x]
        by = {id(x[1]): x for x in res}
        rej, rs = vlib.judge("RecipesTrace", [x[1] for x in res], file="items.json", workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(res))
        c.count("stopped", sum(not x[1]["obs"]["exit0"] for x in res))
        rej.sort(key=lambda x: len(json.dumps(x[0]["setup"])))
        for t, rec in rej[:5]:
            j, _, run = by[id(t)]
            again, _ = one(*j, build)
            if vlib.judge("RecipesTrace", [again], file="items.json", workers=1)[0]:
                c.violation(rec["why"][0], {"setup": j[0], "observed": t["obs"], "run": run.brief()})
        c.sample(res[-1][0][0])
        if rej or not c.thorough or time.time() > deadline or supplied(c, build + "/bin/maike2", 1000, deadline):
            break
        jobs = []
    c.assumptions.append("settings for the same key have the same type; a compiler tag without a recipe is not combined "
                         "with use_get_tags")
