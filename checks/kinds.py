"""C27: what files of every kind declare, against specs/Kinds.tla."""

import time

import kindfam as F
import proj
import vlib


def judge(c, files, phase, workers=8):
    bare = [{k: v for k, v in f.items() if k not in ("junk", "g")} for f in files]
    rej, rs = vlib.judge("KindsTrace", bare, file="items.json", defs={"Phase": '"%s"' % phase}, workers=workers, batch=20000, heap="6g")
    for r in rs:
        c.model(r)
    at = {id(b): f for b, f in zip(bare, files)}
    return [(at[id(b)], rec) for b, rec in rej]


def batches(files, n=150):
    by = {}
    for f in files:
        by.setdefault(tuple(f["g"]), []).append(f)
    return [l[a:a + n] for l in by.values() for a in range(0, len(l), n)]


def go(c, m, files):
    ill = {id(f) for f, _ in judge(c, files, "select")}
    files = [f for f in files if id(f) not in ill]
    groups = batches(files)
    seen = [f for l, _ in vlib.pmap(lambda g: F.observe(g, m), groups) for f in l]
    c.traces(len(seen))
    for f in seen:
        c.count("kind_" + f["kind"])
    rej = judge(c, seen, "judge")
    rej.sort(key=lambda x: len(x[0]["text"]) + len(x[0]["name"]))
    for f, rec in rej[:6]:
        again, r = F.observe([f], m)
        if judge(c, again, "judge", workers=1):
            c.violation("%s in the %s file %s" % (rec["why"][0], f["kind"], repr(F.render(f, 0))[:300]),
                        {"kind": f["kind"], "name": "".join(f["name"]), "extension": "".join(f["out"]), "generated_includes": f["g"],
                         "text": repr(F.render(f, 0)), "paths": {k: "".join(v) for k, v in f["paths"].items()},
                         "observed": again[0]["obs"], "run": r.brief()})
    if len(rej) > 3 and not c.violations:
        f, rec = rej[0]
        c.violation(rec["why"][0], {"kind": f["kind"], "name": "".join(f["name"]), "observed": f["obs"], "note": "seen %d times" % len(rej)})
    return rej


def c27(c):
    vlib.tool("vrecipe", libs=["-ljansson"])
    m = vlib.build() + "/bin/maike2"
    deadline = time.time() + (400 if c.thorough else 25)
    if go(c, m, list(F.ext_texts(3)) + list(F.generic_cases(c.rng))):
        return
    while True:
        files = list(F.generic_cases(c.rng)) + list(F.rule_cases(c.rng, 600)) + [
            f for _ in range(40) for f in same_patterns(c)]
        if c.thorough:
            files += [F.case("ext", "s.ext", F.X.FRAMES["ext"][0] + [y for _ in range(c.rng.randint(4, 12)) for y in c.rng.choice(F.EXT)]
                             + F.X.FRAMES["ext"][1]) for _ in range(8000)]
        if go(c, m, files) or time.time() > deadline:
            break
    c.sample({"kind": "ext", "text": repr(F.render(files[0], 0))})


def same_patterns(c):
    l = list(F.cxx_cases(c.rng, 25))
    for f in l[1:]:
        f["g"], f["gen"] = l[0]["g"], l[0]["gen"]
    return l
