"""Configuration files of all kinds, for C14 and C18."""

import json

import clifam

KEYS = ["k", "l", "cflags", "", " ", "é", "a.b", "k/l", "\"q\"", "0", "config", "recipe", "o", "a", "s"]


def scalar(rng):
    k = rng.choice(["int", "int", "str", "str", "float", "bool", "null"])
    return {"int": lambda: rng.choice([0, 1, -1, 2, 17, 2**31, -2**31, 2**53 + 1, 2**63 - 1, -2**63]),
            "str": lambda: rng.choice(["", "x", clifam.value(rng), "y" * rng.choice([1, 50, 3000])]),
            "float": lambda: rng.choice([0.5, -0.0, 1e300, 0.1, 1.0, -2.5e-7, 123456789.125]),
            "bool": lambda: rng.random() < .5, "null": lambda: None}[k]()


def like(rng, v):
    """A scalar of the same type."""
    while True:
        w = scalar(rng)
        if type(w) is type(v):
            return w


def value(rng, depth):
    k = rng.choice(["s", "s", "a", "o", "o"]) if depth > 0 else "s"
    if k == "s":
        return scalar(rng)
    if k == "a":
        return [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 4]))]
    return obj(rng, depth)


def obj(rng, depth):
    return {rng.choice(KEYS): value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


def split(rng, v, n):
    """n values (or missing ones, as ...) that give v when they are merged from left to right."""
    out = [...] * n
    who = sorted(rng.sample(range(n), rng.choice([1, 1, 2, n]) if n > 1 else 1))
    if isinstance(v, dict):
        for i in who:
            out[i] = {}
        ks = list(v)
        rng.shuffle(ks)
        for key in ks:
            for i, x in zip(who, split(rng, v[key], len(who))):
                if x is not ...:
                    out[i][key] = x
    elif isinstance(v, list):
        cuts = sorted(rng.randint(0, len(v)) for _ in who[1:])
        for i, a, b in zip(who, [0] + cuts, cuts + [len(v)]):
            out[i] = v[a:b]
    else:
        for i in who[:-1]:
            out[i] = like(rng, v)
        out[who[-1]] = v
    return out


def enc(v):
    """A value for Values!Read."""
    if isinstance(v, dict):
        return {"o": [[k, enc(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return {"a": [enc(x) for x in v]}
    k = {bool: "bool", int: "int", float: "float", str: "str", type(None): "null"}[type(v)]
    return {"k": k, "s": v if k == "str" else repr(v)}


def config(rng):
    """A whole configuration."""
    def comp():
        c = {"config": obj(rng, 3)}
        if rng.random() < .8:
            c["recipe"] = rng.choice(["vrecipe", "r/x.py", "", clifam.value(rng).replace("\0", "")])
        if rng.random() < .4:
            c["use_get_tags"] = rng.choice([0, 1, -3])
        return c
    loaders = {}
    for _ in range(rng.choice([0, 1, 3, 6])):
        k = rng.choice(["app", "cxx_src_loader", "extension", "maikerule", "generic", "lib"])
        ld = {"loader": k, "compiler": comp()}
        if k == "cxx_src_loader":
            ld["config"] = {"generated_includes": [rng.choice(["a", ".gen$", "[x]"]) for _ in range(rng.choice([0, 1, 3]))]}
        elif k == "generic":
            ld["config"] = {"target_filename_ext": rng.choice([".x", "", "é"])}
            if rng.random() < .6:
                ld["config"]["filename_ext_replacement_mode"] = rng.choice(["append", "replace"])
        elif rng.random() < .3:
            ld["config"] = obj(rng, 1)
        if rng.random() < .2:
            ld["unknown"] = value(rng, 1)
        loaders[rng.choice(KEYS)] = ld
    return {"maikeconfig": {
        "source_tree_loader": {
            "file_info_loaders": {"." + rng.choice(KEYS): rng.choice(KEYS) for _ in range(rng.choice([0, 1, 4]))},
            "recursive": rng.choice([0, 1, 5]),
            "input_filter": [rng.choice(["^a", "b", "[c]"]) for _ in range(rng.choice([0, 1, 3]))],
            "fullpath_input_filter": [rng.choice(["^a", "b/", "[c]"]) for _ in range(rng.choice([0, 1, 3]))]},
        "source_file_info_loaders": loaders,
        "dir_compiler": comp()}}


def text(rng, v):
    return json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1, 8, "\t"]))
