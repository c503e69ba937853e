"""C14: dumped configurations against specs/Values.tla (through MergeTrace), whose laws Merge.tla checks."""

import json
import os
import random
import shutil
import time

import cfgfam as F
import proj
import vlib

BASE = {"maikeconfig": {
    "source_tree_loader": {"file_info_loaders": {}, "recursive": 1, "input_filter": [], "fullpath_input_filter": []},
    "source_file_info_loaders": {}, "dir_compiler": {"recipe": "r", "config": {}}}}


def plain(v):
    """What Values!Write gave, as a Python value."""
    if "o" in v:
        return {k: plain(x) for k, x in v["o"]}
    if "a" in v:
        return [plain(x) for x in v["a"]]
    return int(v["s"])


def dump(maike2, d, files, default=False):
    for i, t in enumerate(files):
        with open(os.path.join(d, "maikeconfig.json" if default else "c%d.json" % i), "w", encoding="utf-8",
                  errors="surrogateescape") as f:
            f.write(t)
    o = [] if default else ["--configfiles=" + ",".join("c%d.json" % i for i in range(len(files)))]
    return vlib.run([maike2, *o, "--configdump"], d)


def parse(r):
    try:
        return json.loads(r.out) if r.code == 0 else None
    except ValueError:
        return None


def one(job, maike2):
    kind, x = job
    rng = random.Random(x if kind == "random" else 1)
    if kind == "pair":
        files = []
        for i, v in enumerate(x):
            dc = {"config": v, **({} if i else {"recipe": "r"})}
            files.append({"maikeconfig": {**({} if i else BASE["maikeconfig"]), "dir_compiler": dc}})
    else:
        n = rng.choice([1, 2, 2, 3, 4])
        files = [{} if v is ... else v for v in F.split(rng, F.config(rng), n)]
    texts = [F.text(rng, v) for v in files]
    d = proj.fresh("c")
    try:
        r = dump(maike2, d, texts, default=len(texts) == 1 and rng.random() < .3)
        got = parse(r)
        it = {"files": [F.enc(v) for v in files], "exit0": got is not None, "dump": F.enc(got or {}), "again": F.enc({}),
              "same": False}
        r2 = None
        if got is not None:
            r2 = dump(maike2, d, [r.out])
            it["again"] = F.enc(parse(r2) or {})
            it["same"] = r2.out == r.out
        return it, [x for x in (r, r2) if x], texts
    finally:
        shutil.rmtree(d, True)


def c14(c):
    maike2 = vlib.build() + "/bin/maike2"
    c.model(vlib.tlc_ok("Merge"))
    r = vlib.tlc_ok("Merge", defs={"Mode": '"pairs"'})
    c.model(r)
    pairs = [[plain(v) for v in json.loads(x)["files"]] for x in r.printed("SCEN")]
    c.count("pairs_of_the_model", len(pairs))
    deadline = time.time() + (300 if c.thorough else 20)
    jobs = [("pair", p) for p in pairs]
    while True:
        jobs += [("random", c.rng.randrange(1 << 60)) for _ in range(1000)]
        res = vlib.pmap(lambda j: (j,) + one(j, maike2), jobs)
        by = {id(x[1]): x for x in res}
        rej, rs = vlib.judge("MergeTrace", [x[1] for x in res], file="items.json", workers=8)
        for r in rs:
            c.model(r)
        c.traces(len(res))
        rej.sort(key=lambda x: len(json.dumps(x[0]["files"])))
        for t, rec in rej[:5]:
            j, _, runs, texts = by[id(t)]
            again, _, _ = one(j, maike2)
            if vlib.judge("MergeTrace", [again], file="items.json", workers=1)[0]:
                c.violation(rec["why"][0], {"files": texts, "runs": [r.brief() for r in runs]})
        c.sample({"files": res[-1][3]})
        if rej or time.time() > deadline:
            break
        jobs = []
    c.assumptions.append("values of the same key have the same type in all files; no duplicate keys in a file")
