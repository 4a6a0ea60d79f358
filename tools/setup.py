#!/usr/bin/env python3
"""Builds the front end and fills the cache of parsed configurations (checks refresh it when /repo changed)."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import ir
from concurrent.futures import ThreadPoolExecutor
ir.load("default")
with ThreadPoolExecutor(4) as ex:
    for c, p in zip(("jit", "mpi", "opencv", "cuda", "hip"),
                    ex.map(ir.load, ("jit", "mpi", "opencv", "cuda", "hip"))):
        print(c, len(p.funcs), "functions", len(p.errors), "errors")
