"""C20: builds of the same project under different names of its folders, against specs/Paths.tla (PathsTrace)."""

import json
import time

import graphfam as G
import pathfam as F
import vlib

CANON = {"cwd": ["w", "p"], "s": {"abs": False, "c": ["."]}}


def pair(shape, sc, canon, maike2, workers):
    w = F.World(shape)
    try:
        a, ra = w.observe(maike2, canon, sc, workers)
        b, rb = w.observe(maike2, sc, canon, workers)
        return {"a": a, "b": b}, ra + rb
    finally:
        w.remove()


def c20(c):
    maike2 = F.proj.install(vlib.build(), "paths")
    r = vlib.tlc_ok("PathsScen", workers=4, defs={"Deep": "TRUE" if c.thorough else "FALSE"})
    c.model(r)
    scens = [json.loads(x) for x in r.printed("SCEN")]
    c.count("spellings", len(scens))
    deadline = time.time() + (500 if c.thorough else 30)
    c.rng.shuffle(scens)
    # for a second build: a way to name the same target folder
    by = {}
    for s in scens:
        by.setdefault((tuple(s["cwd"]), tuple(s["td"])), []).append(s["t"])
    size = 4000 if c.thorough else 900
    while scens and time.time() < deadline:
        part, scens = scens[:size], scens[size:]
        jobs = []
        for s in part:
            s["ts"] = {tuple(s["td"]): s["t"]}
            rel = {"abs": False, "c": [".."] * (2 if s["td"][1] != "p" else 0) + s["td"][1 if s["td"][1] != "p" else 2:]}
            rel["c"] = rel["c"][1:] if rel["c"][:2] == ["..", ".."] else rel["c"]
            canon = dict(CANON, td=s["td"], t=rel, ts={tuple(s["td"]): rel})
            jobs.append((G.Gen(c.rng, n=c.rng.choice([1, 2, 3, 5, 8])).make(), s, canon, c.rng.choice([1, 2, 4])))

        def one(j):
            return (j,) + pair(j[0], j[1], j[2], maike2, j[3]) if time.time() < deadline else None
        res = [x for x in vlib.pmap(one, jobs) if x]
        idx = {id(x[1]): x for x in res}
        rej, rs = vlib.judge("PathsTrace", [x[1] for x in res], file="items.json", workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(res))
        c.count("built", sum(x[1]["b"]["exit0"] for x in res))
        rej.sort(key=lambda x: len(json.dumps(x[0])))
        for t, rec in rej[:5]:
            j, _, runs = idx[id(t)]
            again, _ = pair(*j[:3], maike2, j[3])
            if vlib.judge("PathsTrace", [again], file="items.json", workers=1)[0]:
                s = {k: v for k, v in j[1].items() if k != "ts"}
                c.violation(rec["why"][0][:400], {"named": s, "project": j[0].abstract(), "observed": t,
                                                  "runs": [r.brief() for r in runs]})
        c.sample({k: v for k, v in res[-1][0][1].items() if k != "ts"})
        if rej or not c.thorough:
            break
