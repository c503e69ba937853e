"""C23, C24: what the recipes of the installation have the tools do, against specs/Tools.tla (ToolTrace)."""

import json
import time

import toolfam as F
import vlib


def shapes(c, prop, n):
    out = []
    for _ in range(n):
        x = c.rng.random()
        s = F.ToolGen(c.rng).make(builtin=x < .12, other=prop == "C24" and x > .6)
        if c.rng.random() < (.15 if prop == "C23" else .5):
            s.break_something()
        out.append(s)
    return out


def check(c, prop):
    build = vlib.build()
    vlib.tool("vrecipe", libs=["-ljansson"])
    vlib.tool("faketool")
    inst = F.install(build)
    if prop == "C23":
        r = vlib.tlc_ok("ToolScen", workers=4)
        scen = [F.revision(json.loads(x), c.rng) for x in r.printed("SCEN")]
    else:
        r = vlib.tlc_ok("GraphScen", defs={"N": 3, "Kinds": '{"cxx", "link", "lib"}', "Variant": c.seed % 3}, workers=4, heap="4g")
        scen = [json.loads(x)["files"] for x in r.printed("SCEN")]
        scen = [f for f in scen if not F.cyclic(f)]
        scen = [F.from_model(f, c.rng) for f in (scen if c.thorough and len(scen) < 6000 else c.rng.sample(scen, 4000 if c.thorough else 250))]
    c.model(r)
    if not c.thorough:
        scen = c.rng.sample(scen, min(len(scen), 250))
    deadline = time.time() + (600 if c.thorough else 40)
    late = prop == "C24"
    batch = shapes(c, prop, 400) + scen[:200]
    scen = scen[200:]
    while True:
        c.rng.shuffle(batch)

        def one(s):
            if time.time() > deadline:
                return None
            return (s,) + F.observe(s, inst, late)
        res = [x for x in vlib.pmap(one, batch) if x]
        by = {id(i): x for x in res for i in x[1]}
        items = [i for x in res for i in x[1]]
        rej, rs = vlib.judge("ToolTrace", items, file="items.json", defs={"Props": '{"%s"}' % prop}, workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(items))
        c.count("projects", len(res))
        c.count("runs_of_tools", sum(len(i["obs"]["invs"]) for i in items))
        c.count("failing_builds", sum(not i["obs"]["exit0"] for i in items))
        c.sample(items[0]["p"]["files"][:3])
        rej.sort(key=lambda x: len(json.dumps(x[0]["p"])))
        for t, rec in rej[:5]:
            s, _, runs = by[id(t)]
            again, _ = F.observe(s, inst)
            if vlib.judge("ToolTrace", again, file="items.json", defs={"Props": '{"%s"}' % prop}, workers=1)[0] or len(rej) > 3:
                c.violation(rec["why"][0], {"project": t["p"], "observed": t["obs"], "runs": [r.brief() for r in runs]})
        if rej or not c.thorough or time.time() > deadline:
            break
        batch = shapes(c, prop, 800) + scen[:800]
        scen = scen[800:]
    c.assumptions.append("compilers, archiver and pkg-config are stand-ins that record their arguments (the archiver also runs "
                         "the real ar); flags are single words; a compiler that knows a language revision knows all before it")
