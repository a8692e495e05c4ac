#!/usr/bin/env python3
"""python3 check.py C01   - decide one property on /repo's current tree"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import common  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1].upper()
    mod = importlib.import_module('checks.' + prop.lower())
    common.main(prop, mod.run, mod.LEVEL, mod.EXPLAIN)
