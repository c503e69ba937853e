"""C12: the output, arguments and status of recipes against specs/ExecTrace.tla; the design is specs/Exec.tla."""

import json
import random
import time

import execfam as F
import proj
import vlib


def c12(c):
    maike2 = proj.install(vlib.build(), "exec")
    c.model(vlib.tlc_ok("Exec", defs={"MaxOps": 5} if c.thorough else None, workers=4))
    deadline = time.time() + (500 if c.thorough else 25)
    while True:
        seeds = [c.rng.randrange(1 << 60) for _ in range(800)]

        def one(k):
            if time.time() > deadline:
                return None
            return (k,) + F.observe(F.Load(random.Random(k)), maike2)
        res = [x for x in vlib.pmap(one, seeds) if x]
        by = {id(x[1]): x for x in res}
        rej, rs = vlib.judge("ExecTrace", [x[1] for x in res], file="items.json", workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(res))
        c.count("recipes", sum(len(x[1]["entries"]) for x in res))
        c.count("failing_builds", sum(not x[1]["exit0"] for x in res))
        rej.sort(key=lambda x: len(json.dumps(x[0])))
        for t, rec in rej[:6]:
            k, _, run = by[id(t)]
            n = sum(bool(vlib.judge("ExecTrace", [F.observe(F.Load(random.Random(k)), maike2)[0]], file="items.json", workers=1)[0])
                    for _ in range(3))
            if n or len(rej) > 3:
                load = F.Load(random.Random(k))
                c.violation(rec["why"][0], {"tasks": [{"prog": x["prog"], "status": x["status"]} for x in load.tasks],
                                            "workers": load.workers, "observed": {q: t[q] for q in ("entries", "err", "intact")},
                                            "run": run.brief()})
        if res:
            c.sample({"tasks": F.Load(random.Random(res[0][0])).tasks[:2]})
        if rej or not c.thorough or time.time() > deadline:
            break
    c.assumptions.append("recipes write no NUL bytes (the log is cut at one); maike2 has its three standard streams open")
