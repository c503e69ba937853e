"""Scenario projects for maike2 and ways of running them."""

import contextlib
import json
import os
import re
import shutil
import subprocess
import threading

import vlib

BASE_TIME = 1_000_000_000  # every project file is this old unless said otherwise


def compiler(recipe="vrecipe", config=None, **kw):
    return dict({"recipe": recipe, "config": config or {}}, **kw)


def default_config(recursive=1, input_filter=("^\\.", "^__"), fullpath=(), recipe="vrecipe", extra_loaders=None,
                   extra_map=None, gen_regex=(".\\.gen\\.hpp$",), dir_recipe=None):
    loaders = {
        "rule": {"loader": "maikerule", "compiler": compiler(recipe)},
        "cxx": {"loader": "cxx_src_loader", "compiler": compiler(recipe),
                "config": {"generated_includes": list(gen_regex)}},
        "cxx_link": {"loader": "cxx_src_loader", "compiler": compiler(recipe, {"actions": ["link", "run"]}),
                     "config": {"generated_includes": list(gen_regex)}},
        "ext": {"loader": "extension", "compiler": compiler("")},
        "lib": {"loader": "lib", "compiler": compiler(recipe)},
        "gen": {"loader": "generic", "compiler": compiler(recipe),
                "config": {"target_filename_ext": ".done", "filename_ext_replacement_mode": "append"}},
        "rep": {"loader": "generic", "compiler": compiler(recipe),
                "config": {"target_filename_ext": ".html", "filename_ext_replacement_mode": "replace"}},
    }
    loaders.update(extra_loaders or {})
    m = {".rule": "rule", ".cpp": "cxx", ".hpp": "cxx", ".lnk.cpp": "cxx_link", ".ext": "ext", ".lib": "lib",
         ".gen": "gen", ".rep": "rep"}
    m.update(extra_map or {})
    return {"maikeconfig": {
        "source_tree_loader": {"file_info_loaders": m, "recursive": recursive,
                               "input_filter": list(input_filter), "fullpath_input_filter": list(fullpath)},
        "source_file_info_loaders": loaders,
        "dir_compiler": compiler(dir_recipe or recipe)}}


class Project:
    """A project folder <top>/p with its control folder <top>/v."""

    def __init__(self, top, files, config=None, recipe_names=("vrecipe",), dirs=(), recipe_tool=None):
        self.top = top
        self.dir = os.path.join(top, "p")
        self.ctl = os.path.join(top, "v")
        os.makedirs(self.dir)
        os.makedirs(self.ctl + "/ctl")
        open(self.ctl + "/log", "w").close()
        self.tool = recipe_tool or vlib.tool("vrecipe", libs=["-ljansson"])
        for d in dirs:
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        for r in recipe_names:
            self.put_recipe(r)
        if config is not None:
            self.write("maikeconfig.json", json.dumps(config))
        for n, t in files.items():
            self.write(n, t)

    def put_recipe(self, r):
        p = os.path.join(self.dir, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        vlib.copy_program(self.tool, p)
        os.utime(p, (BASE_TIME, BASE_TIME))

    def write(self, name, text, mtime=BASE_TIME, mode=None):
        p = os.path.join(self.dir, name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape")
        if mode is None:
            mode = 0o755 if name.endswith(".ext") else 0o644
        with vlib.FORK if mode & 0o111 else contextlib.nullcontext():
            with open(p, "wb") as f:
                f.write(data)
        os.chmod(p, mode)
        os.utime(p, (mtime, mtime))

    def directive(self, src, *lines):
        with open(os.path.join(self.ctl, "ctl", src.replace("/", "!")), "w") as f:
            f.write("".join(x + "\n" for x in lines))

    def clear_log(self):
        open(self.ctl + "/log", "w").close()

    def events(self, ticks=False):
        out = []
        for line in open(self.ctl + "/log", errors="surrogateescape"):
            f = line.rstrip("\n").split(" ")
            out.append((f[0], f[1].replace("!", "/") if len(f) > 1 else None, f[2] if len(f) > 2 else None)
                       + ((int(f[3]),) if ticks and len(f) > 3 else (0,) if ticks else ()))
        return out

    def record_args(self):
        os.makedirs(self.ctl + "/args", exist_ok=True)

    def args(self):
        out = {}
        d = self.ctl + "/args"
        for n in os.listdir(d):
            if not n.startswith("~"):
                out[n[1:].replace("!", "/")] = open(os.path.join(d, n), "rb").read().split(b"\0")[:-1]
        return out

    def env(self):
        return {"VREC_DIR": self.ctl}

    def maike(self, maike2, *opts, workers=2, timeout=60, env=None, cwd=None, raw=False, pre=()):
        e = self.env()
        e.update(env or {})
        o = list(opts)
        if workers is not None:
            o.append("--num-workers=%d" % workers)
        return vlib.run([*pre, maike2, *o], cwd or self.dir, timeout=timeout, env=e, raw=raw)

    def remove(self):
        shutil.rmtree(self.top, True)


LOG_LINE = re.compile(r"^(?:(?P<cmd>.*) #)? (?P<id>\d+) \| (?P<st>✓|✗) \| (?P<path>.*) \| (?P<t0>-|\d+) \| (?P<t1>- ?|\d+)$")


def log_lines(out):
    """The per-task lines of maike2's standard output."""
    res = []
    for line in out.split("\n"):
        m = LOG_LINE.match(line)
        if m:
            res.append({"id": int(m["id"]), "ok": m["st"] == "✓", "path": m["path"], "ran": m["t0"] != "-",
                        "cmd": m["cmd"]})
    return res


_n = [0]
_nl = threading.Lock()


def fresh(name="s"):
    with _nl:
        _n[0] += 1
        d = os.path.join(vlib.scratch(), "%s%d" % (name, _n[0]))
    os.makedirs(d)
    return d


def ext_script(tags):
    """A source file that is its own recipe: its interpreter is the recipe program."""
    return "#!%s\n#@%s\n" % (vlib.tool("vrecipe", libs=["-ljansson"]), json.dumps(tags))


def install(build, name):
    """An installation of maike2 with the recipe program among its recipes. Returns the path of maike2."""
    top = os.path.join(vlib.scratch(), "inst_" + name)
    os.makedirs(top + "/bin", exist_ok=True)
    os.makedirs(top + "/lib/maike2/recipes", exist_ok=True)
    vlib.copy_program(os.path.join(build, "bin/maike2"), top + "/bin/maike2")
    to = top + "/lib/maike2/recipes/vrecipe"
    vlib.copy_program(vlib.tool("vrecipe", libs=["-ljansson"]), to)
    os.utime(to, (BASE_TIME, BASE_TIME))
    return top + "/bin/maike2"
