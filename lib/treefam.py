"""Source folders with filters and loader maps of all kinds, for C11 and C21."""

import json
import os
import random
import re
import shutil

import proj
import vlib

EXTS = [".x", ".y", ".x.y", ".y.x", ".x.x", ".z", ".y.x.y", ".xy", ".xx", ".X", ".x.Y"]
PROBE = "@probe.rr"


def pattern(rng, path):
    """(text for the configuration, pattern for the model)"""
    items, text = [], ""
    begin, end = rng.random() < .4, rng.random() < .35
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        kind = rng.choice(["chr", "chr", "chr", "any", "set", "neg"])
        if kind == "chr":
            c = rng.choice("abxabxABX._" + ("/" if path else "y"))
            s, neg, t = [c], False, "\\." if c == "." else c
        elif kind == "any":
            s, neg, t = [], True, "."
        else:
            s = rng.sample("abcxy_ABX", rng.choice([1, 2, 3]))
            neg = kind == "neg"
            t = "[" + "^" * neg + "".join(s) + "]"
        lo, hi = 1, 1
        if rng.random() < .25:
            lo, hi, q = rng.choice([(0, -1, "*"), (2, 2, "\\{2\\}"), (1, 2, "\\{1,2\\}"), (1, -1, "\\{1,\\}"), (0, 1, "\\{0,1\\}")])
            t += q
        items.append({"set": s, "neg": neg, "lo": lo, "hi": hi})
        text += t
    return "^" * begin + text + "$" * end, {"begin": begin, "end": end, "items": items}


class Tree:
    def __init__(self, rng, n=None, bad=0.0, plain=True):
        self.rng = rng
        n = n or rng.choice([1, 3, 6, 10, 16, 30])
        dirs, used = [()], {()}
        self.entries = []
        for _ in range(n):
            d = rng.choice(dirs)
            stem = "".join(rng.choice("aabbc_aabbc_AB") for _ in range(rng.choice([1, 1, 2, 3])))
            if rng.random() < .1:
                stem = rng.choice([".", "__", "_"]) + stem
            if rng.random() < .35:
                p = d + (stem + ("" if rng.random() < .8 else rng.choice(EXTS)),)
                kind = "dir"
            else:
                k = rng.choice([0, 1, 1, 1, 2, 3])
                p = d + (stem + "".join(rng.choice([".x", ".y", ".x", ".y", ".z", ".xy", ".xx", ".X", ".Y"]) for _ in range(k)),)
                kind = "file"
            if p in used:
                continue
            used.add(p)
            if kind == "dir":
                dirs.append(p)
            self.entries.append({"path": p, "kind": kind, "bad": kind == "file" and rng.random() < bad})
        if rng.random() < .5:
            self.names = [pattern(rng, False) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            self.paths = [pattern(rng, True) for _ in range(rng.choice([0, 1, 1, 2]))]
        else:
            # patterns made for one of the entries
            self.names, self.paths = [], []
            for _ in range(rng.choice([1, 2])):
                if self.entries:
                    e = rng.choice(self.entries)["path"]
                    (self.paths if rng.random() < .5 else self.names).append(self.exact(rng, e))
        self.recursive = rng.choice([1, 1, 1, 1, 0, 7])
        self.map = {x: rng.choice(["g0", "g1", "g2", "r0", "r1"]) for x in rng.sample(EXTS, rng.choice([1, 2, 4, 6]))}
        self.map[".rr"] = "r1"
        self.workers = rng.choice([1, 1, 2, 3, 4, 8])
        self.outside = rng.random() < .5
        self.links = {}
        if rng.random() < .2:
            for i, e in enumerate(self.entries):
                if e["kind"] == "file" and rng.random() < .3:
                    self.links[i] = rng.choice(["rel", "abs"])

        # symbolic links to folders, those inside and one outside of the source folder
        self.folder_links = []
        if rng.random() < .25:
            ext = [{"path": ("/ext",), "kind": "ext", "bad": False}]
            ext += [{"path": ("/ext", n), "kind": "file", "bad": False} for n in rng.sample(["e.x", "e.y", "f.x.y"], 2)]
            if rng.random() < .5:
                ext += [{"path": ("/ext", "i"), "kind": "dir", "bad": False},
                        {"path": ("/ext", "i", "g.x"), "kind": "file", "bad": False}]
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                at = rng.choice([()] + dirs)
                to = rng.choice([()] + dirs + [("/ext",)] * 2)
                path = tuple(at) + (rng.choice(["l1", "l2", "l.x", "L"]),)
                if path not in [e["path"] for e in self.entries + self.folder_links]:
                    self.folder_links.append({"path": path, "kind": "link", "bad": False, "to": to})
                    if len(list(self.walk(ext))) > 70:
                        self.folder_links.pop()
            self.ext = ext if any(e["to"] == ("/ext",) for e in self.folder_links) else []
        else:
            self.ext = []

    def walk(self, ext=None):
        """all entries there would be without filters: (path, kind)"""
        es = self.entries + self.folder_links + (self.ext if ext is None else ext)

        def below(real, at, chain):
            for e in es:
                if e["path"][:-1] == real and e["kind"] != "ext":
                    p = at + (e["path"][-1],)
                    to = e["to"] if e["kind"] == "link" else e["path"]
                    if e["kind"] == "file":
                        yield p, "file"
                    elif to in chain:
                        yield p, "loop"
                    else:
                        yield p, "dir"
                        yield from below(to, p, chain + [to])
        return below((), (), [()])

    def exact(self, rng, path):
        text = "/".join(path) if rng.random() < .7 else path[-1]
        if rng.random() < .25:
            text = text.swapcase()
        b, e = rng.random() < .7, rng.random() < .7
        if not b and len(text) > 1 and rng.random() < .5:
            text = text[1:]
        items = [{"set": [c], "neg": False, "lo": 1, "hi": 1} for c in text]
        return "^" * b + text.replace(".", "\\.") + "$" * e, {"begin": b, "end": e, "items": items}

    def config(self):
        def comp(k):
            return proj.compiler("vrecipe", {"l": k})
        loaders = {"g%d" % k: {"loader": "generic", "compiler": comp("g%d" % k),
                               "config": {"target_filename_ext": "-t%d" % k,
                                          "filename_ext_replacement_mode": "append"}} for k in range(3)}
        loaders.update({"r%d" % k: {"loader": "maikerule", "compiler": comp("r%d" % k)} for k in range(2)})
        return {"maikeconfig": {
            "source_tree_loader": {"file_info_loaders": self.map, "recursive": self.recursive,
                                   "input_filter": [t for t, _ in self.names],
                                   "fullpath_input_filter": [t for t, _ in self.paths]},
            "source_file_info_loaders": loaders, "dir_compiler": comp("dir")}}

    def setup(self):
        p = proj.Project(proj.fresh("t"), {}, None, recipe_names=())
        with open(p.top + "/c.json", "w") as f:
            json.dump(self.config(), f)
        os.makedirs(p.top + "/links")
        for i, e in enumerate(self.entries):
            path = "/".join(e["path"])
            if e["kind"] == "dir":
                os.makedirs(os.path.join(p.dir, path), exist_ok=True)
                continue
            text = json.dumps({"target": {"name": e["path"][-1] + "-r"}})
            if e["bad"]:
                text = self.rng.choice([text[:-1], text[1:], "[]", '{"target":{}}', '{"targets":{"name":"q"}}',
                                        '{"target":{"name":3}}', '{"qqq":1, "qqq":2}', '{"dependencies":[3]}'])
            if i in self.links:
                os.makedirs(os.path.dirname(os.path.join(p.dir, path)), exist_ok=True)
                to = p.top + "/links/%d" % i
                with open(to, "w") as f:
                    f.write(text)
                at = os.path.join(p.dir, path)
                os.symlink(to if self.links[i] == "abs" else os.path.relpath(to, os.path.dirname(at)), at)
                os.utime(to, (proj.BASE_TIME, proj.BASE_TIME))
            else:
                p.write(path, text)
        for e in self.ext:
            at = os.path.join(p.top, "ext", *e["path"][1:])
            if e["kind"] == "file":
                os.makedirs(os.path.dirname(at), exist_ok=True)
                with open(at, "w") as f:
                    f.write(json.dumps({"target": {"name": e["path"][-1] + "-r"}}))
                os.utime(at, (proj.BASE_TIME, proj.BASE_TIME))
        for e in self.folder_links:
            at = os.path.join(p.dir, *e["path"])
            to = os.path.join(p.top, "ext") if e["to"] else p.dir
            if e["to"] and e["to"] != ("/ext",):
                to = os.path.join(p.dir, *e["to"])
            os.makedirs(os.path.dirname(at), exist_ok=True)
            os.symlink(to if self.rng.random() < .4 else os.path.relpath(to, os.path.dirname(at)), at)
        p.record_args()
        return p

    def item(self):
        es = [{"path": [list(x) for x in e["path"]], "kind": e["kind"], "bad": e["bad"],
               "to": [list(x) for x in e.get("to", [])]} for e in self.entries + self.folder_links + self.ext]
        return {"tree": es, "names": [m for _, m in self.names], "paths": [m for _, m in self.paths],
                "recursive": bool(self.recursive), "map": [{"ext": list(k), "ld": v} for k, v in self.map.items()],
                "readers": ["r0", "r1"]}

    def observe(self, maike2, env=None, probes=True):
        p = self.setup()
        runs = []
        try:
            td = "../t" if self.outside else p.top + "/t"
            opts = ["--configfiles=../c.json", "--target-dir=" + td]
            e = dict(env or {})
            if e:
                e["CS_OUT"] = p.top + "/deadlock"
            r = p.maike(maike2, *opts, workers=self.workers, env=e)
            runs.append(r)
            if e and r.timed_out and not os.path.exists(p.top + "/deadlock"):
                return None, runs
            ran = []
            for n, argv in p.args().items():
                a = json.loads(argv[-1])
                src = os.path.normpath(a["source_file"])
                ran.append({"path": [] if src == "." else [list(x) for x in src.split("/")],
                            "ld": a["compiler_cfg"].get("l", "?")})
            yes, no = [], []
            bad = any(x["bad"] for x in self.entries)
            if probes and not bad and r.code == 0:
                todo = [path for path, kind in self.walk()]
                self.rng.shuffle(todo)
                for path in todo[:6]:
                    p.write(PROBE, json.dumps({"target": {"name": "q"}, "dependencies":
                                               [{"ref": "/".join(path), "origin": "project"}]}))
                    shutil.rmtree(p.ctl + "/args")
                    p.record_args()
                    q = p.maike(maike2, *opts, workers=self.workers)
                    # with the probe outside the source tree nothing can be said
                    if q.code == 0 and "P" + PROBE not in os.listdir(p.ctl + "/args") and not any(
                            n.endswith(PROBE) for n in os.listdir(p.ctl + "/args")):
                        break
                    runs.append(q)
                    (yes if q.code == 0 else no).append([list(x) for x in path])
            named = []
            for path, kind in self.walk():
                t = "/".join(path)
                if kind == "file" and re.search(r"(?<![\w./])(\./)%s" % ("?" if len(t) > 2 else "") + re.escape(t) + r"(?![\w./])", r.err):
                    named.append([list(y) for y in path])
            it = self.item()
            it["obs"] = {"ended": not r.timed_out, "exit0": r.code == 0, "ran": ran, "yes": yes, "no": no, "named": named}
            return it, runs
        finally:
            p.remove()

    def describe(self):
        return {"entries": [["/".join(e["path"]), e["kind"], e["bad"]] for e in self.entries + self.ext],
                "links": [["/".join(e["path"]), "/".join(e["to"])] for e in self.folder_links],
                "input_filter": [t for t, _ in self.names], "fullpath_input_filter": [t for t, _ in self.paths],
                "recursive": self.recursive, "map": self.map, "workers": self.workers}
