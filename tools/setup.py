#!/usr/bin/env python3
"""Builds the simulator for every check, so that the first check does not have to."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
done = set()
for p, c in sorted(PROPS.items()):
    g = tuple(c["groups"])
    if g not in done:
        done.add(g)
        print(p, B.build(list(g) if len(g) > 1 else g[0]), flush=True)
