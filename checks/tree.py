"""C11 (and the scanning part of C21): source folders against specs/Tree.tla, the way they are scanned by Scan.tla."""

import random
import time

import proj
import treefam as F
import vlib


def judge(c, prop, items, workers=8):
    rej, rs = vlib.judge("TreeTrace", items, file="items.json", defs={"Props": '{"%s"}' % prop}, workers=workers)
    for r in rs:
        c.model(r)
    return rej


def ctl_env(rng, ctl):
    return {"LD_PRELOAD": ctl, "CS_SEED": str(rng.randrange(1, 1 << 40)), "CS_MEAN": str(rng.choice([0, 10, 100, 1000])),
            "CS_SPUR": str(rng.choice([0, 0, 30])), "CS_SWITCH": str(rng.choice([20, 60, 100]))}


def one(job, bins):
    seed, bad, ctl = job
    rng = random.Random(seed)
    t = F.Tree(rng, bad=bad if rng.random() < .6 else 0.0)
    if ctl:
        t.workers = rng.choice([2, 2, 3, 4])
        it, runs = t.observe(bins["instr"], ctl_env(rng, bins["ctl"]), probes=False)
    else:
        it, runs = t.observe(bins["plain"])
    return it, runs, t


def scan(c, prop, bins, budget, bad):
    deadline = time.time() + budget
    while True:
        jobs = [(c.rng.randrange(1 << 60), bad, k % 4 == 0) for k in range(400)]
        res = vlib.pmap(lambda j: (j,) + tuple(one(j, bins)) if time.time() < deadline + 20 else None, jobs)
        res = [x for x in res if x]
        c.count("source_folders", len(res))
        c.count("no_verdict", sum(x[1] is None for x in res))
        items = [x[1] for x in res if x[1]]
        rej = judge(c, prop, items)
        c.traces(len(items))
        c.count("rejected_by_maike2", sum(not x["obs"]["exit0"] for x in items))
        c.count("loaded", sum(len(x["obs"]["ran"]) for x in items))
        c.count("probes", sum(len(x["obs"]["yes"]) + len(x["obs"]["no"]) for x in items))
        by = {id(x[1]): x for x in res}
        rej.sort(key=lambda x: len(x[0]["tree"]))
        for t, rec in rej[:6]:
            j, _, runs, tree = by[id(t)]
            again, runs2, _ = one(j, bins)
            if again is not None and judge(c, prop, [again], workers=1) or runs[0].timed_out:
                c.violation(rec["why"][0], {"seed": j[0], "project": tree.describe(), "controlled": j[2], "observed": t["obs"],
                                            "runs": [r.brief() for r in runs[:3]]})
        if len(rej) > 3 and not c.violations:
            t, rec = rej[0]
            c.violation(rec["why"][0], {"project": by[id(t)][3].describe(), "observed": t["obs"],
                                        "runs": [r.brief() for r in by[id(t)][2][:2]], "note": "seen %d times" % len(rej)})
        c.sample(res[0][3].describe())
        if rej or time.time() > deadline:
            return


def bins_for():
    return {"plain": proj.install(vlib.build(), "plain"),
            "instr": proj.install(vlib.build(("-O0", "-finstrument-functions")), "instr"),
            "ctl": vlib.tool("ctlsched", flags=("-shared", "-fPIC"), libs=["-ldl"])}


def c11(c):
    bins = bins_for()
    c.model(vlib.tlc_ok("Scan", defs={"Workers": "{1, 2, 3}" if c.thorough else "{1, 2}"}, timeout=1500, heap="8g"))
    scan(c, "C11", bins, 500 if c.thorough else 30, .12)
