"""C13, C16: printed commands against specs/Shell.tla and specs/DryTrace.tla."""

import os
import random
import shutil
import time

import buildfam as B
import clifam as F
import vlib


def shell(p, text, which, n):
    """Gives a text to a shell. Returns the argument vectors it used, and the run."""
    ctl = p.top + "/sh%d" % n
    os.makedirs(ctl + "/args")
    os.makedirs(ctl + "/ctl")
    path = p.top + "/script%d" % n
    with open(path, "wb") as f:
        f.write(text)
    r = vlib.run([*which, path], p.dir, env={"VREC_DIR": ctl})
    keep, p.ctl = p.ctl, ctl
    out = F.raw_args(p)
    p.ctl = keep
    return out, r


def wipe(p, sub="__targets"):
    shutil.rmtree(os.path.join(p.dir, sub), True)


def record(p):
    shutil.rmtree(p.ctl + "/args", True)
    p.record_args()


def text_of(out):
    return F.symbols(out.decode("utf-8", "surrogateescape"))


SHELLS = [["dash"], ["bash", "--posix"], ["bash"]]


def pick(rng, h):
    """A shell. Bash takes a command that begins with %, even a quoted one, for a job of its own."""
    return rng.choice(SHELLS[:1] if any(x.startswith("%") for x in h.dirs + h.recipes) else SHELLS)


def printed(job, maike2):
    """C13: items for one project."""
    seed, = job
    rng = random.Random(seed)
    h = F.Hostile(rng)
    p = h.project(h.config())
    items, runs = [], []
    try:
        w = rng.choice([1, 2, 4])
        record(p)
        dry = p.maike(maike2, *F.FIXED, *F.LEVEL, "--dry-run", workers=w, raw=True)
        s1, r1 = shell(p, dry.out, pick(rng, h), 1)
        made = F.contents(p.dir)
        wipe(p)
        record(p)
        real = p.maike(maike2, *F.FIXED, *F.LEVEL, workers=w, raw=True)
        built = F.contents(p.dir)
        argvs = F.raw_args(p)
        runs = [real, dry, r1]
        if real.code != 0:
            return None, runs, h
        again = p.maike(maike2, *F.FIXED, *F.LEVEL, workers=w, raw=True)
        s3, r3 = shell(p, again.out, pick(rng, h), 3)
        runs += [again, r3]
        wipe(p)
        s2, r2 = shell(p, real.out, pick(rng, h), 2)
        runs.append(r2)
        common = {"argvs": argvs, "needs": F.needs_of(argvs, h.before()), "exit0": dry.code == 0, "started": 0,
                  "before": [], "after": []}
        items = [dict(common, text=text_of(dry.out), dry=True, full=True, shell=s1),
                 dict(common, text=text_of(real.out), dry=False, full=True, shell=s2),
                 dict(common, text=text_of(again.out), dry=False, full=False, shell=s3)]
        items[0]["before"] = [[a, repr(b)] for a, b in built]
        items[0]["after"] = [[a, repr(b)] for a, b in made]
        return items, runs, h
    finally:
        p.remove()


def judge(c, prop, items, workers=8):
    rej, rs = vlib.judge("DryTrace", items, file="items.json", defs={"Props": '{"%s"}' % prop}, workers=workers)
    for r in rs:
        c.model(r)
    return rej


def brief(runs):
    return [{"exit": r.code, "stdout": repr(r.out[-3000:]), "stderr": repr(r.err[-1500:])} for r in runs]


def c13(c):
    m = vlib.build() + "/bin/maike2"
    vlib.tool("vrecipe", libs=["-ljansson"])
    c.model(vlib.tlc_ok("Shell", defs={"MaxLen": 5, "MaxShort": 2} if c.thorough else {}, timeout=1500, heap="8g"))
    deadline = time.time() + (500 if c.thorough else 25)
    go(c, m, "C13", printed, deadline, 120)
    c.assumptions.append("names of source files and folders have no line breaks, since the log shows them as they are")


def go(c, m, prop, fn, deadline, n):
    while True:
        jobs = [(c.rng.randrange(1 << 60),) for _ in range(n)]
        res = vlib.pmap(lambda j: (j,) + tuple(fn(j, m)), jobs)
        items = [i for _, x, _, _ in res for i in x or []]
        c.count("projects", len(res))
        c.count("builds_that_fail", sum(x is None for _, x, _, _ in res))
        if not items:
            raise vlib.CheckError("no build succeeds: %s" % brief(res[0][2]))
        rej = judge(c, prop, items)
        c.traces(len(items))
        by = {id(i): r for r in res for i in r[1] or []}
        for t, rec in rej[:6]:
            job, _, runs, h = by[id(t)]
            again, runs, _ = fn(job, m)
            if again is not None and judge(c, prop, again, workers=1):
                c.violation(rec["why"][0], {"seed": job[0], "files": h.files, "item": {k: v for k, v in t.items() if k != "text"},
                                            "text": "".join(t["text"])[-6000:], "runs": brief(runs)})
        if len(rej) > 6 and not c.violations:
            t, rec = rej[0]
            c.violation(rec["why"][0], {"item": t, "note": "seen %d times" % len(rej)})
        c.sample({"files": res[0][3].files})
        if rej or time.time() > deadline:
            return


def dry(job, maike2):
    """C16: one item for one project in one state."""
    seed, = job
    rng = random.Random(seed)
    if rng.random() < .3:
        h = F.Hostile(rng)
        p = h.project(h.config())
        before = h.before()
        srcs = h.srcs
        targets = None
    else:
        n = rng.choice([1, 2, 3, 5, 8, 14])
        q = rng.choice([.15, .3, .6])
        h = B.Dag([{j for j in range(i) if rng.random() < q} for i in range(n)], rng,
                  always=[i for i in range(n) if rng.random() < .05])
        p = h.project()
        before = {s: [h.tasks[j] for j in h.deps[k]] for k, s in enumerate(h.tasks)}
        srcs = h.srcs
        targets = [t for i in range(n) for t in h.targets(i)]
    runs = []
    try:
        w = rng.choice([1, 1, 2, 4, 8])
        state = rng.choice(["scratch", "scratch", "built", "touched", "partly"])
        opts = []
        if state != "scratch":
            some = []
            if state == "partly" and targets:
                some = ["--targets=" + ",".join(rng.sample(targets, rng.randint(1, min(3, len(targets)))))]
            r = p.maike(maike2, *some, workers=4)
            runs.append(r)
            if r.code != 0:
                return None, runs, h
            if state == "touched":
                for s in srcs:
                    if rng.random() < .4:
                        os.utime(os.path.join(p.dir, s))
        force = rng.random() < .4
        if force:
            opts.append("--force-rebuild")
        if targets and rng.random() < .4:
            opts.append("--targets=" + ",".join(rng.sample(targets, rng.randint(1, min(3, len(targets))))))
        log = F.LEVEL if rng.random() < .8 else ["--log-level=" + rng.choice(["errors", "source_file_info"])]
        record(p)
        before_tree = F.snapshot(p.dir)
        d = p.maike(maike2, *F.FIXED, *log, "--dry-run", *opts, workers=w, raw=True)
        after_tree = F.snapshot(p.dir)
        started = len(F.raw_args(p))
        record(p)
        real = p.maike(maike2, *F.FIXED, *F.LEVEL, *opts, workers=w, raw=True)
        runs += [d, real]
        if real.code != 0:
            return None, runs, h
        argvs = F.raw_args(p)
        full = log is F.LEVEL and (force or state == "scratch")
        item = {"text": text_of(d.out) if full else [], "argvs": argvs if full else [],
                "needs": F.needs_of(argvs, before) if full else [], "dry": True, "full": full, "exit0": d.code == 0,
                "started": started, "before": before_tree, "after": after_tree}
        return [item], runs, h
    finally:
        p.remove()


def c16(c):
    m = vlib.build() + "/bin/maike2"
    vlib.tool("vrecipe", libs=["-ljansson"])
    go(c, m, "C16", dry, time.time() + (500 if c.thorough else 25), 300)
