#!/usr/bin/env python3
"""run.py Cnn [-n CASES] [--replay FILE [-choices]]

Decides one property on /repo's working tree.  VERIF_SEED seeds every choice,
VERIF_TIER=thorough raises the number of cases."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from amv import engine  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("amv.props." + pid.lower())
    sys.exit(engine.main(mod.PROP, sys.argv[2:]))
