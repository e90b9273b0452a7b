#!/usr/bin/env python3
"""check.py <property id>: runs one check. Tier and seed come from VERIF_TIER / VERIF_SEED."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    importlib.import_module("checks." + prop.lower()).main()
