"""C05, C06, C15: histories of edits and builds against specs/IncTrace.tla, generated by specs/Inc.tla."""

import json
import time

import buildfam as B
import incfam as I
import vlib

SMALL = {"inputs": ["h", "a", "b", "l", "r"], "tasks": [
    {"src": "a", "targets": ["a.o"], "ins": ["a", "h", "r"], "deps": [4], "dir": False, "always": False},
    {"src": "b", "targets": ["g.h", "g.x"], "ins": ["b", "r"], "deps": [4], "dir": False, "always": False},
    {"src": "l", "targets": ["l.x"], "ins": ["l", "a.o", "g.h", "a", "b", "h", "r"], "deps": [1, 2, 4], "dir": False,
     "always": False},
    {"src": ".", "targets": ["."], "ins": [], "deps": [], "dir": True, "always": False}]}


def random_dag(rng):
    n = rng.choice([2, 3, 3, 4, 5, 7])
    p = rng.choice([.3, .5, .8])
    direct = [{j for j in range(i) if rng.random() < p} for i in range(n)]
    always = [i for i in range(n) if rng.random() < .06]
    return B.Dag(direct, rng, folders=rng.random() < .7, always=always)


def histories(c, dags, k, ops):
    """k histories per graph, made by TLC."""
    r = vlib.tlc_ok("Inc", defs={"MaxOps": ops, "Emit": "TRUE"}, data={"graphs.json": [I.graph(d) for d in dags]},
                    extra=["-simulate", "num=%d" % (k * len(dags)), "-depth", "400", "-seed",
                           str(c.rng.randrange(1 << 30))], workers=1, heap="2g")
    out = [json.loads(x) for x in r.printed("HIST")]
    if len(out) < k * len(dags) // 2:
        raise vlib.CheckError("too few histories: " + r.out[-2000:])
    return out, r


def spice(c, prop, h, n, nt):
    """Operations the generator does not have: interrupted builds at any time, other dependencies, unknown targets."""
    rng = c.rng
    ops = []
    for o in h["ops"]:
        if rng.random() < .12:
            ops.append({"op": "restructure"})
        if o["op"] == "build" and not o["victim"] and rng.random() < .1:
            o["after"] = rng.choice([0.004, 0.008, 0.012, 0.02]) * rng.random() * 2
        if prop == "C15" and o["op"] == "build" and rng.random() < .5:
            o["sel"] = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2]))]
            o["sel"] = sorted(set(o["sel"]))
            if rng.random() < .15:
                o["unknown"] = True
        ops.append(o)
        if prop == "C06" and o["op"] == "build" and rng.random() < .3:
            ops.append({"op": "build", "sel": o["sel"], "force": False, "victim": 0, "how": ""})
    ops.append({"op": "build", "sel": list(range(1, nt + 1)), "force": False, "victim": 0, "how": ""})
    return ops


def run_one(job, bins):
    dag, ops, seed, scratch = job
    h = I.History(dag, seed)
    try:
        for o in ops:
            h.apply(o, bins)
        if scratch:
            h.compare_with_scratch(bins)
        return h.trace(), h.runs, h.counts
    finally:
        h.p.remove()


def check(c, prop):
    bins = {"plain": vlib.build() + "/bin/maike2"}
    vlib.tool("vrecipe", libs=["-ljansson"])
    c.model(vlib.tlc_ok("Inc", data={"graphs.json": [SMALL]}, defs={"MaxOps": 5 if c.thorough else 3}, heap="12g",
                        timeout=1500))
    deadline = time.time() + (480 if c.thorough else 40)
    rejected = []
    while True:
        dags = [random_dag(c.rng) for _ in range(60)]
        hs, r = histories(c, dags, 3, c.rng.choice([6, 9, 14]))
        c.model(r)
        jobs = [(dags[h["g"] - 1], spice(c, prop, h, len(dags[h["g"] - 1].srcs), len(dags[h["g"] - 1].tasks)),
                 c.rng.randrange(1 << 40), prop == "C05") for h in hs]
        res = vlib.pmap(lambda j: run_one(j, bins), jobs)
        for _, _, n in res:
            for k, v in n.items():
                c.count("op_" + k, v)
        rej, rs = vlib.judge("IncTrace", [x[0] for x in res], defs={"Props": '{"%s"}' % prop}, workers=4)
        for r in rs:
            c.model(r)
        c.traces(len(res))
        c.sample({"files": jobs[0][0].files, "operations": jobs[0][1]})
        by = {id(x[0]): k for k, x in enumerate(res)}
        rejected = [(by[id(t)], rec, t) for t, rec in rej]
        if rejected or time.time() > deadline:
            break
    for k, rec, t in rejected:
        c.violation(rec["why"][0], {"files": jobs[k][0].files, "operations": jobs[k][1], "runs": res[k][1],
                                    "events": t["ev"][:rec["l"]], "graphs": t["graphs"]})
    c.assumptions.append("edits happen between builds; modification times are set by the checks and the recipes, so "
                         "that every order and equality of times occurs, down to a nanosecond")
