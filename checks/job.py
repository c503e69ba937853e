"""C25, C26: what command lines mean, and what is told about a build, against specs/Job.tla."""

import json
import random
import time

import jobfam as F
import proj
import vlib


def history(job, maike2):
    seed, lists = job
    w = F.World(random.Random(seed))
    try:
        refs = w.refs(maike2)
        hist, runs = [], []
        for args, tty in lists:
            inv, r = w.run(maike2, args, tty)
            hist.append(inv)
            runs.append(r)
        return w.item(refs, hist), runs
    finally:
        w.remove()


def check(c, prop):
    maike2 = proj.install(vlib.build(), "job")
    r = vlib.tlc_ok("JobScen", workers=4, defs={"MaxLen": 3 if c.thorough else 2}, timeout=1500)
    c.model(r)
    scens = [json.loads(x) for x in r.printed("SCEN")]
    bad = [s["args"] for s in scens if s["verdict"] == "bad"]
    good = [s["args"] for s in scens if s["verdict"] == "ok"]
    words = [s for s in good if len(s) == 1]
    asks = [s for s in good if any(a.split("=")[0] in F.QUERIES for a in s)]
    builds = [s for s in good if not any(a.split("=")[0] in F.QUERIES for a in s)]
    c.count("command_lines_of_the_model", len(scens))
    rng = c.rng
    deadline = time.time() + (400 if c.thorough else 30)

    def line():
        x = rng.random()
        share = .35 if prop == "C26" else .08
        if x < .12:
            s = rng.choice(bad)
        elif x < .12 + share:
            s = rng.choice(asks)
        else:
            s = rng.choice(builds)
        s = list(s)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            s.insert(rng.randrange(len(s) + 1), rng.choice([w for w in words if prop == "C26" or w not in asks])[0])
        return s, rng.random() < .15

    while True:
        jobs = [(rng.randrange(1 << 60), [line() for _ in range(rng.choice([2, 4, 6]))]) for _ in range(240)]
        res = vlib.pmap(lambda j: (j,) + history(j, maike2) if time.time() < deadline else None, jobs)
        res = [x for x in res if x]
        items = [x[1] for x in res]
        rej, rs = vlib.judge("JobTrace", items, file="items.json", defs={"Props": '{"%s"}' % prop}, workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(items))
        c.count("invocations", sum(len(i["hist"]) for i in items))
        c.count("recipes_run", sum(len(v["obs"]["ran"]) for i in items for v in i["hist"]))
        c.count("rejected_by_maike2", sum(not v["obs"]["exit0"] for i in items for v in i["hist"]))
        by = {id(x[1]): x for x in res}
        rej.sort(key=lambda x: len(json.dumps(x[0])))
        for t, rec in rej[:5]:
            j, _, runs = by[id(t)]
            again, _ = history(j, maike2)
            if vlib.judge("JobTrace", [again], file="items.json", defs={"Props": '{"%s"}' % prop}, workers=1)[0]:
                c.violation(rec["why"][0][:400], {"seed": j[0], "command_lines": j[1], "observed": t["hist"], "runs": [r.brief() for r in runs]})
        if items:
            c.sample([[" ".join(a), tty] for a, tty in res[-1][0][1]])
        if rej or time.time() > deadline:
            break
    if prop == "C26":
        unanswered(c, maike2)


def unanswered(c, maike2):
    """Questions the help offers that have no answer."""
    for opt in ("--dump-database", "--list-external-deps"):
        w = F.World(random.Random(1))
        try:
            inv, r = w.run(maike2, [opt], False)
            if inv["obs"]["ran"] or inv["obs"]["changed"]:
                c.violation("C26: %s builds the project" % opt, {"observed": inv, "run": r.brief()})
        finally:
            w.remove()
