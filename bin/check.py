#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

VERIF_TIER=quick|thorough, VERIF_SEED=<n>.  Exit 0: held; 1: VIOLATION; 2: the check failed.
"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import alias, conc, core, cross, leak, rnd, traces


def table():
    t = {p: traces.check for p in traces.BUDGET}
    t["C10"] = alias.check
    t["C14"] = cross.check
    t["C15"] = conc.check
    t["C16"] = rnd.check
    t["C17"] = leak.check
    return t


if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(core.run(prop, table()[prop]))
