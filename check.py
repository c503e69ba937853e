#!/usr/bin/env python3
"""Decides one property: check.py <id>. Exit 0: held; 1: violated (VIOLATION line); 3: the check could not run."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]

import vlib  # noqa: E402

WHERE = {
    "build": ["C01", "C02", "C03", "C04", "C17", "C19"],
    "inc": ["C05", "C06", "C15"],
    "cli": ["C13", "C16"],
    "scan": ["C10", "C22"],
    "tree": ["C11"],
    "kinds": ["C27"],
    "config": ["C14"],
    "recipes": ["C18"],
    "paths": ["C20"],
    "execs": ["C12"],
    "tags": ["C21"],
    "tools": ["C23", "C24"],
    "job": ["C25", "C26"],
    "graph": ["C07", "C08", "C09"],
}


def main():
    prop = sys.argv[1]
    for mod, ids in WHERE.items():
        if prop in ids:
            m = importlib.import_module(mod)
            vlib.main(prop, getattr(m, prop.lower(), None) or (lambda c: m.check(c, prop)))
    sys.exit("unknown property " + prop)


main()
