#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only properties whose check exists)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props  # noqa

built = [p for p in props.PROPS if os.path.exists(os.path.join(verif, "checks", p["id"].lower() + ".py"))]
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in built:
        q = {k: v for k, v in p.items() if k not in ("technique", "level", "level_note")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="none", enable="no hooks are compiled into /repo: black-box monitors drive the released binary, "
               "in-process monitors are added with go build -overlay", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                 thorough_cmd="python3 check.py %s thorough" % p["id"],
                 technique=p["technique"], level=p["level"], level_note=p["level_note"]) for p in built],
    not_applicable=props.NOT_APPLICABLE,
    notes=props.NOTES)
with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print("properties:", [p["id"] for p in built])
