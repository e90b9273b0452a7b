#!/usr/bin/env python3
"""setup_cmd: warms the Go build cache (every check rebuilds from /repo's working tree by itself)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import core  # noqa

core.build_server()
core.build_server(race=True)
for d in sorted(os.listdir(os.path.join(core.VERIF, "harness", "cmd"))):
    core.build_overlay(d, d)
    if d != "parsefilter":
        core.build_overlay(d, d, race=True)
print("ready")
