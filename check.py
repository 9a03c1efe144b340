#!/usr/bin/env python3
"""check.py PROPERTY [...]  - decide properties of /repo by static analysis (see DESIGN.md)"""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import registry, report          # noqa: E402


def run(props, result):
    rc = 0
    for p in props:
        try:
            mod, fn = registry.CHECKS[p]
            r = getattr(importlib.import_module("sa." + mod), fn)(p)
            rc = max(rc, r)
        except report.AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (p, e))
            rc = max(rc, 2)
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s internal error" % p)
            rc = max(rc, 2)
    result.append(rc)


def main():
    props = sys.argv[1:]
    if props == ["all"]:
        props = sorted(registry.CHECKS)
    unknown = [p for p in props if p not in registry.CHECKS]
    if not props or unknown:
        print("usage: check.py PROPERTY...; known: %s" % " ".join(sorted(registry.CHECKS)))
        return 2
    sys.setrecursionlimit(200000)
    threading.stack_size(768 * 1024 * 1024)
    result = []
    t = threading.Thread(target=run, args=(props, result))
    t.start()
    t.join()
    sys.stdout.flush()
    return result[0] if result else 2


if __name__ == "__main__":
    sys.exit(main())
