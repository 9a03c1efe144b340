#!/usr/bin/env python3
"""regenerate MANIFEST.json from sa/registry.py and properties.jsonl"""
import json
import os
import sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
sys.dont_write_bytecode = True
from sa import registry  # noqa
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.CHECKS:
        tech, note = registry.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "no static check built yet")} for p in props if p not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, json'", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: abstract interpreters for the Python sources, Jinja templates, LLVM IR and clang AST of /repo. "
              "See DESIGN.md. No hooks in /repo."}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
