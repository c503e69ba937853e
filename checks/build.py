"""C01, C02, C03, C04, C17, C19: builds against specs/Build.tla (through BuildTrace) and specs/Sched.tla."""

import json
import os
import random
import shutil
import time

import buildfam as B
import execfam
import graphfam
import proj
import recipefam
import tags
import treefam
import vlib

MODEL = {"C01": "Sched_safety", "C02": "Sched_safety", "C03": "Sched_live", "C04": "Sched_refine",
         "C17": "Sched_safety", "C19": "Sched_safety"}


def scenarios(c, n, sample, maxw=3, fates='{"k", "f"}'):
    r = vlib.tlc_ok("BuildScen", defs={"N": n, "Sample": sample, "MaxW": maxw, "Fates": fates}, heap="2g",
                    extra=["-seed", str(c.seed)] + (["-fp", "1"]), workers=1)
    out = [json.loads(x) for x in r.printed("SCEN")]
    if not out:
        raise vlib.CheckError("no scenarios: " + r.out[-2000:])
    return out, r


class Job:
    """One build: how to set it up and run it, so that it can be repeated."""

    def __init__(self, kind, dag, w, **kw):
        self.kind, self.dag, self.w, self.kw = kind, dag, w, kw

    def run(self, bins, patience=10.0, seed=None):
        p = self.dag.project()
        try:
            if self.kind == "gated":
                t, r = B.gated_run(self.dag, p, bins["plain"], self.w, self.kw["prio"], self.kw["fate"], patience)
                sure = False
            else:
                for i, s in enumerate(self.dag.srcs):
                    f = self.kw["fate"][i]
                    d = self.dag.out_directive(i)
                    if self.kw.get("sleep"):
                        d.append("sleep %d" % self.kw["sleep"][i])
                    p.directive(s, *d, *({"k": [], "f": ["exit 3"], "s": ["signal 9"]}[f]))
                env = {}
                if self.kind == "ctl":
                    env = {"LD_PRELOAD": bins["ctl"], "CS_SEED": str(seed or self.kw["seed"]),
                           "CS_MEAN": str(self.kw["mean"]), "CS_SPUR": str(self.kw["spur"]),
                           "CS_SWITCH": str(self.kw["switch"]), "CS_OUT": p.top + "/deadlock"}
                opts, skip = self.prepare(p, bins)
                if opts is None:
                    return None, None, False
                r, hang = B.free_run(p, bins["instr"] if self.kind == "ctl" else bins["plain"], *opts, workers=self.w,
                                     env=env, limit=60, need=6.0)
                sure = os.path.exists(p.top + "/deadlock")
                if self.kind == "ctl" and hang and not sure:
                    # Something blocks outside of what the controlled scheduler models: no verdict.
                    return None, r, False
                t = B.trace(self.dag, p, r, self.w, hang or sure, skip=skip)
            return t, r, sure
        finally:
            p.remove()

    def prepare(self, p, bins):
        """For builds of a tree that is built already: builds it and touches some files. Returns (options, skip)."""
        again = self.kw.get("again")
        if not again or self.dag.unstart:
            return [], ()
        d = p.ctl + "/ctl"
        os.rename(d, d + ".later")
        os.mkdir(d)
        r, _ = B.free_run(p, bins["plain"], workers=8)
        shutil.rmtree(d, True)
        os.rename(d + ".later", d)
        if r.code != 0:
            return None, None
        p.clear_log()
        for i in again["touch"]:
            os.utime(os.path.join(p.dir, self.dag.srcs[i]))
        if again["force"]:
            return ["--force-rebuild"], ()
        n = len(self.dag.tasks)
        return [], [k for k in range(n) if k not in again["touch"] and not self.dag.deps[k] & set(again["touch"])]

    def describe(self):
        d = self.dag.describe()
        d.update({"kind": self.kind, "workers": self.w})
        d.update({k: v for k, v in self.kw.items()})
        return d


SURE = ("started before", "started although", "started twice", "more recipes at a time")


def run_jobs(c, prop, jobs, bins, deadline):
    """Runs and judges the jobs; returns rejections as (job, trace, run, why, sure)."""
    todo = list(jobs)
    out = []

    def one(j):
        if time.time() > deadline:
            return None
        return (j,) + j.run(bins)
    res = [x for x in vlib.pmap(one, todo) if x is not None]
    c.count("builds", len(res))
    c.count("no_verdict", sum(1 for x in res if x[1] is None))
    res = [x for x in res if x[1] is not None]
    if not res:
        return out
    by = {id(x[1]): x for x in res}
    rej, rs = vlib.judge("BuildTrace", [x[1] for x in res], defs={"Props": '{"%s"}' % prop}, workers=4)
    for r in rs:
        c.model(r)
    c.traces(len(res))
    for t, rec in rej:
        j, _, run, sure = by[id(t)]
        why = rec["why"][0]
        out.append((j, t, run, why, sure or any(s in why for s in SURE)))
    return out


def settle(c, prop, rejections, bins, limit=40):
    """Reports rejections that are beyond doubt, or that repeat."""
    if not rejections:
        return
    for j, t, run, why, sure in rejections:
        if sure:
            c.violation(why, {"scenario": j.describe(), "trace": t["ev"], "log": t["log"], "run": run.brief()})
    if c.violations:
        return
    end = time.time() + limit
    for j, t, run, why, _ in rejections[:4]:
        for k in range(3 if j.kind == "gated" else 12):
            if time.time() > end:
                break
            t2, run2, _ = j.run(bins, patience=20.0, seed=None if k < 2 else j.kw.get("seed", 0) + k)
            if t2 is None:
                continue
            rej, _ = vlib.judge("BuildTrace", [t2], defs={"Props": '{"%s"}' % prop}, workers=1)
            if rej:
                c.violation(why, {"scenario": j.describe(), "trace": t2["ev"], "log": t2["log"],
                                  "run": run2.brief()})
                return
    if len(rejections) > 3:
        j, t, run, why, _ = rejections[0]
        c.violation(why, {"scenario": j.describe(), "trace": t["ev"], "log": t["log"], "run": run.brief(),
                          "note": "seen %d times" % len(rejections)})
    else:
        c.count("not_repeated", len(rejections))


def bins_for():
    return {"plain": vlib.build()[:] + "/bin/maike2",
            "instr": vlib.build(("-O0", "-finstrument-functions")) + "/bin/maike2",
            "ctl": vlib.tool("ctlsched", flags=("-shared", "-fPIC"), libs=["-ldl"])}


def gated_jobs(c, scens):
    jobs = []
    for s in scens:
        direct = [{x - 1 for x in d} for d in s["deps"]]
        jobs.append(Job("gated", B.Dag(direct, c.rng, lines=2), s["w"], prio=s["prio"], fate=s["fate"]))
    return jobs


def random_dag(rng, n, p, **kw):
    return B.Dag([{j for j in range(i) if rng.random() < p} for i in range(n)], rng, **kw)


def random_gated(c, k, fail):
    rng = c.rng
    jobs = []
    for _ in range(k):
        n = rng.randint(4, 9)
        un = [i for i in range(n) if rng.random() < fail / 4]
        jobs.append(Job("gated", random_dag(rng, n, rng.choice([.15, .3, .5]), unstart=un, lines=3), rng.randint(1, 5),
                        prio=rng.sample(range(n), n),
                        fate=[rng.choice("fs") if rng.random() < fail else "k" for _ in range(n)]))
    return jobs


def random_ctl(c, k, fail):
    rng = c.rng
    jobs = []
    for _ in range(k):
        n = rng.randint(2, 8)
        un = [i for i in range(n) if rng.random() < fail / 3]
        jobs.append(Job("ctl", random_dag(rng, n, rng.choice([.1, .3, .5]), unstart=un, lines=3),
                        rng.choice([1, 2, 2, 3, 3, 4]),
                        fate=[rng.choice("fs") if rng.random() < fail else "k" for _ in range(n)],
                        seed=rng.randrange(1, 1 << 40), mean=rng.choice([0, 10, 40, 200, 1000, 5000]),
                        spur=rng.choice([0, 0, 30]), switch=rng.choice([20, 60, 100]), again=again(rng, n)))
    return jobs


def again(rng, n):
    """Every other build is not the first one: of what is there, everything or some things have to be done again."""
    if rng.random() < .5:
        return None
    return {"force": rng.random() < .5, "touch": [i for i in range(n) if rng.random() < .4]}


def random_big(c, k):
    rng = c.rng
    jobs = []
    for i in range(k):
        n = rng.choice([60, 120, 250])
        shape = rng.choice(["chain", "wide", "layers", "random"])
        if shape == "chain":
            direct = [{j - 1} if j else set() for j in range(n)]
        elif shape == "wide":
            direct = [set() for _ in range(n - 1)] + [set(range(n - 1))]
        elif shape == "layers":
            direct = [{j for j in range(max(0, (x // 10 - 1) * 10), x // 10 * 10) if rng.random() < .4} for x in range(n)]
        else:
            direct = [{j for j in range(x) if rng.random() < 3 / (x + 1)} for x in range(n)]
        jobs.append(Job("free", B.Dag(direct, rng, lines=30), rng.choice([1, 3, 8, 16]), fate=["k"] * n,
                        sleep=[rng.choice([0, 0, 300, 3000]) for _ in range(n)], again=again(rng, n)))
    return jobs


def many_workers(c):
    """More workers than there are processors, and as much to do."""
    rng, cpus = c.rng, os.cpu_count() or 4
    jobs = []
    for w in [cpus + 1, cpus + 3, 2 * cpus + 1, rng.randint(30, 40), 70, rng.choice([100, 130])]:
        n = w + rng.randint(0, 4)
        direct = [set() if rng.random() < .97 or not i else {rng.randrange(i)} for i in range(n)]
        jobs.append(Job("gated", B.Dag(direct, rng, folders=rng.random() < .5), w, prio=rng.sample(range(n), n), fate=["k"] * n))
    return jobs


def mixed(c, batches, size=600):
    """The same jobs in batches that have some of every kind, so that none is left out when time runs out."""
    jobs = [j for b in batches for j in b]
    c.rng.shuffle(jobs)
    return [jobs[i:i + size] for i in range(0, len(jobs), size)]


EMPHASIS = {  # chance of a failing recipe; share of gated and controlled builds
    "C01": (0.02, 250, 900), "C02": (0.25, 400, 600), "C03": (0.2, 150, 1500), "C04": (0.0, 250, 900),
    "C17": (0.03, 900, 100), "C19": (0.1, 200, 900)}


def check(c, prop):
    bins = bins_for()
    vlib.tool("vrecipe", libs=["-ljansson"])
    # The design
    cfg = MODEL[prop]
    if c.thorough:
        c.model(vlib.tlc_ok("Sched", cfg=cfg, timeout=900))
        c.model(vlib.tlc_ok("Sched", cfg=cfg, defs={"N": 3, "MaxW": 3, "Outcomes": '{"ok", "fail"}'}, timeout=900))
    else:
        c.model(vlib.tlc_ok("Sched", cfg=cfg, defs={"Outcomes": '{"ok", "throw"}' if prop == "C03" else
                                                    '{"ok", "fail"}'}))
    # The code
    deadline = max(c.t0 + 75, time.time() + 50) if not c.thorough else time.time() + 500
    fail, ng, nc = EMPHASIS[prop]
    scens, r = scenarios(c, 3, 0)
    c.model(r)
    if prop in ("C01", "C04"):
        scens = [s for s in scens if s["fate"].count("f") <= 1]
    batches = [gated_jobs(c, scens)]
    if c.thorough:
        s4, r = scenarios(c, 4, 12, maxw=4, fates='{"k", "f", "s"}')
        c.model(r)
        batches.append(gated_jobs(c, c.rng.sample(s4, min(len(s4), 6000))))
    if prop == "C17":
        batches.append(many_workers(c))
    batches += [random_big(c, 6), random_gated(c, ng, fail), random_ctl(c, nc, fail)]
    batches = mixed(c, batches)
    rejected = []
    k = 0
    while True:
        for b in batches:
            if time.time() > deadline:
                break
            k += 1
            rejected += run_jobs(c, prop, b, bins, deadline)
            if any(x[4] for x in rejected) or len(rejected) > 3:
                break
        if rejected or not c.thorough or time.time() > deadline:
            break
        batches = mixed(c, [random_gated(c, ng, fail), random_ctl(c, 3 * nc, fail), random_big(c, 4)])
    if prop == "C03" and not rejected:
        invocations(c, bins)
    settle(c, prop, rejected, bins)
    c.sample({"gated": batches[0][0].describe() if batches and batches[0] else None})
    c.assumptions.append("recipes record their start and end in an append-only log; the controlled scheduler models "
                         "mutexes, condition variables, read-write locks, static guards, thread creation and join")


WORDS = ["--help", "--version", "--about", "--print-dep-graph", "--list-targets", "--build-id", "--configdump",
         "--config-default", "--dry-run", "--force-rebuild", "--source-dir=.", "--source-dir=nowhere", "--target-dir=/dev/null/x",
         "--targets=x,y", "--targets=", "--configfiles=nowhere.json", "--num-workers=0", "--num-workers=x", "--num-workers=99",
         "--log-level=errors", "--log-level=what", "--log-output-format=ansi_term", "--nonsense", "x", "--build-id=7"]


def invocation(kind, rng, bins):
    """One invocation of one of the other kinds: whether it ended, and a description."""
    if kind == "graph":
        s = graphfam.Gen(rng, cyclic=.4, dangling=.2, dup=.1).make()
        s.supply = rng.choice([0, 0, .5])
        item, runs = graphfam.observe(s, bins["plain"], workers=rng.choice([1, 2, 4]))
        return runs, item["p"]
    if kind == "tree":
        t = treefam.Tree(rng, bad=.2)
        return t.observe(bins["inst"], probes=False)[1], t.describe()
    if kind == "controlled":
        t = treefam.Tree(rng, bad=.2)
        t.workers = rng.choice([1, 2, 3, 4])
        seen, runs = t.observe(bins["inst_instr"], {"LD_PRELOAD": bins["ctl"], "CS_SEED": str(rng.randrange(1, 1 << 40)),
                                                    "CS_MEAN": str(rng.choice([0, 10, 100, 1000])),
                                                    "CS_SPUR": str(rng.choice([0, 30])), "CS_SWITCH": "60"}, probes=False)
        return ([] if seen is None else runs), t.describe()
    if kind == "tags":
        w = tags.small(rng)
        return [w.observe(bins["plain"])[1]], [[f.path(), f.text] for f in w.files]
    if kind == "recipes":
        s = recipefam.setup(rng)
        w = recipefam.World(s, rng, bins["root"])
        try:
            return [w.observe()[1]], s
        finally:
            w.remove()
    if kind == "words":
        p = proj.Project(proj.fresh("w"), {"a.rule": "{}", "b.rule": '{"target":{"name":"x"}}'}, proj.default_config())
        opts = [rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3]))]
        try:
            return [p.maike(bins["plain"], *opts, workers=None)], opts
        finally:
            p.remove()
    load = execfam.Load(rng, fail=.6)
    return [execfam.observe(load, bins["inst"])[1]], load.tasks


def invocations(c, bins):
    """Every invocation comes to an end, whatever it is given: projects of all other checks, sound and not."""
    bins = dict(bins, root=os.path.dirname(os.path.dirname(bins["plain"])))
    bins["inst"] = proj.install(bins["root"], "c03")
    bins["inst_instr"] = proj.install(os.path.dirname(os.path.dirname(bins["instr"])), "c03i")
    deadline = time.time() + (300 if c.thorough else 14)
    kinds = ["graph", "graph", "tree", "controlled", "tags", "recipes", "words", "execs"]
    jobs = [(kinds[i % len(kinds)], c.rng.randrange(1 << 60)) for i in range(20000 if c.thorough else 1200)]

    def one(j):
        if time.time() > deadline:
            return None
        return (j,) + tuple(invocation(j[0], random.Random(j[1]), bins))
    res = [x for x in vlib.pmap(one, jobs) if x]
    for x in res:
        c.count("invocations_" + x[0][0], len(x[1]))
    hung = [x for x in res if any(r.timed_out for r in x[1])]
    for j, runs, what in hung[:3]:
        again = [invocation(j[0], random.Random(j[1]), bins)[0] for _ in range(2)] if len(hung) < 4 else []
        if len(hung) > 3 or any(r.timed_out for rs in again for r in rs):
            c.violation("C03: an invocation does not come to an end", {"kind": j[0], "seed": j[1], "what": what,
                                                                       "runs": [r.brief() for r in runs]})
            return
