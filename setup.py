#!/usr/bin/env python3
"""Prepares a fresh sandbox: builds what the checks share from /repo's tree (they rebuild when it changes)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402

try:
    vlib.build()
    vlib.build(("-O0", "-finstrument-functions"))
except vlib.CheckError as e:
    print(e)
vlib.tool("vrecipe", libs=["-ljansson"])
vlib.tool("ctlsched", flags=("-shared", "-fPIC"), libs=["-ldl"])
os.makedirs(vlib.EVIDENCE, exist_ok=True)
