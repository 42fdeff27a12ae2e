#!/usr/bin/env python3
"""Builds the drivers (a cache only: every check builds what it needs from /repo's working tree)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vlib import *
os.makedirs(BUILD, exist_ok=True)
drivers = sorted(f[:-4] for f in os.listdir(HARNESS) if f.endswith("_driver.cpp"))
for d in drivers + [None]:
    try:
        build_all([("exec_driver", "tsan"), ("exec_driver", "sanx"), ("exec_driver", "alias")] if d is None else [(d, "fast")] if d == "big_driver" else [(d, "san"), (d, "plain")])
        print("built", d or "the other configurations")
    except (CheckError, Uncompilable) as e:
        print("not built:", d, str(e)[:300])    # the checks say so themselves
