#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue and the checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(VERIF, "sa")]
import catalog
import props

specs = props.all_specs()
with open(os.path.join(VERIF, "properties.jsonl"), "w") as o:
    for p in catalog.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps(p) + "\n")
ids = [p["id"] for p in catalog.PROPERTIES]
checks, na = [], []
for i in ids:
    if i in specs:
        s = specs[i]()
        checks.append({
            "property": i,
            "quick_cmd": "python3 sa/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 sa/check.py %s --tier thorough" % i,
            "technique": s.technique,
            "level": s.level,
            "level_note": s.level_note,
        })
        assert i not in catalog.NOT_APPLICABLE, i
    else:
        na.append({"property": i, "reason": catalog.NOT_APPLICABLE.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 sa/build.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks compile /repo's current sources to LLVM IR (with debug info, clang 18), link them and run "
             "abstract interpreters with property automata on the IR; nothing of the program is executed.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
print(len(checks), "checks", len(na), "not applicable")
