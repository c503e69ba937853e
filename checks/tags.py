"""C21: tags, well formed and not, against specs/Tags.tla (TagsTrace)."""

import json
import random
import time

import tagfam as F
import vlib


def judge(c, items, workers=8):
    rej, rs = vlib.judge("TagsTrace", items, file="items.json", workers=workers)
    if c:
        for r in rs:
            c.model(r)
    return rej


def many(rng, texts, kind):
    """One project with a file for each of the token sequences, one of which is ill formed in any case."""
    files = [F.File("f0", "rule", [F.tok("bad")], "'")]
    deep = rng.random() < .3
    for i, ts in enumerate(texts):
        ident = ("d%d/e/" % (i % 7) if deep else "") + "f%d" % (i + 1)
        k = kind or rng.choice(["rule", "lib", "cxx", "ext"])
        files.append(F.File(ident, k, ts, F.render(rng, ts, rng.random() < .3)[0]))
    return F.World(files, rng, workers=rng.choice([1, 2, 4]))


def small(rng):
    """A few files, all of them fine or some not."""
    files, good = [], []
    ill = rng.random() < .6
    for i in range(rng.choice([1, 1, 2, 3, 6])):
        kind = rng.choice([k for k, _ in F.KINDS])
        ident = rng.choice(["", "", "a/", "a/b/"]) + "f%d" % i
        v, names = F.closed(rng, "n%d" % i)
        good += names
        size = rng.choice([None, None, rng.choice(F.BUFFERS) * rng.choice([1, 2, 3]) + rng.randrange(-4, 5)])
        how = rng.random() if ill else 1
        if how < .3:
            v = F.spoil_value(rng, v)
        ts = F.to_tokens(rng, v)
        if .3 <= how < .5:
            ts = F.spoil_tokens(rng, ts)
        if .5 <= how < .7:
            ts, text = F.cut(rng, ts, size)
        else:
            if rng.random() < .1:
                ts = ts + [F.tok(rng.choice(["bad", "}", "{", "]"]))]
            text = F.render(rng, ts, rng.random() < .5, size)[0]
        if kind == "sup" and not ts:
            kind = "rule"
        files.append(F.File(ident, kind, ts, text))
    return F.World(files, rng, good, rng.choice([1, 2, 4]))


def one(make, seed, bins):
    rng = random.Random(seed)
    w = make(rng)
    env = {"VREC_CHUNK": str(rng.choice([1, 100, 4096]))} if rng.random() < .2 else None
    return w.observe(bins + "/bin/maike2", env) + (w,)


def report(c, rej, by, bins):
    rej.sort(key=lambda x: len(json.dumps(x[0]["files"])))
    for t, rec in rej[:5]:
        make, seed, run = by[id(t)]
        again = one(make, seed, bins)[0]
        if judge(None, [again], workers=1):
            text = rec["why"][0]
            c.violation(text[:300], {"why": rec["why"], "observed": t["obs"] if len(t["files"]) < 20 else "%d files" % len(t["files"]),
                                     "files": [[f["id"], f["supplied"], " ".join(x["s"] or x["t"] for x in f["tokens"])[:400]]
                                               for f in t["files"] if len(t["files"]) < 20 or json.dumps(f["id"])[1:-1] in text],
                                     "run": run.brief()})


def batch(c, jobs, bins, deadline):
    res = vlib.pmap(lambda j: j + one(*j, bins)[:2] if time.time() < deadline else None, jobs)
    res = [x for x in res if x]
    rej = judge(c, [x[2] for x in res])
    c.traces(len(res))
    c.count("files", sum(len(x[2]["files"]) for x in res))
    c.count("projects_rejected_by_maike2", sum(not x[2]["obs"]["exit0"] for x in res))
    report(c, rej, {id(x[2]): (x[0], x[1], x[3]) for x in res}, bins)
    return rej


def c21(c):
    bins = vlib.build()
    vlib.tool("vrecipe", libs=["-ljansson"])
    deadline = time.time() + (600 if c.thorough else 32)
    r = vlib.tlc_ok("TagsScen", defs={"Max": "10" if c.thorough else "8"}, workers=4, timeout=600)
    c.model(r)
    scens = [json.loads(x)["tokens"] for x in r.printed("SCEN")]
    scens = [s for s in scens if s]
    c.rng.shuffle(scens)
    c.count("enumerated_texts", len(scens))
    jobs = []
    for i in range(0, len(scens), 1500):
        part = scens[i:i + 1500]
        jobs.append((lambda rng, part=part: many(rng, part, None), c.rng.randrange(1 << 60)))
    # what recipes supply is read by the same rules; each of them costs a process
    few = c.rng.sample(scens, min(len(scens), 8000 if c.thorough else 300))
    for i in range(0, len(few), 60):
        jobs.append((lambda rng, part=few[i:i + 60]: many(rng, part, "sup"), c.rng.randrange(1 << 60)))
    if batch(c, jobs, bins, deadline):
        return
    while True:
        jobs = [(small, c.rng.randrange(1 << 60)) for _ in range(800)]
        rej = batch(c, jobs, bins, deadline)
        w = small(random.Random(jobs[0][1]))
        c.sample([[f.path(), f.text[:200]] for f in w.files])
        if rej or time.time() > deadline:
            break
    c.assumptions.append("integers that fit in 64 bits, no \\u0000 and no unpaired surrogates in strings")
