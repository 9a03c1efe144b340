#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE <<< JSON-less edits: reads a python file with EDITS=[(file,old,new)], DEMO=str, EXTRA={name:text}.
Creates seeded/<ID>/ with patch.diff made in a scratch worktree."""
import json, os, runpy, shutil, subprocess, sys, tempfile
def main(spec):
    ns = runpy.run_path(spec)
    for s in ns["SEEDS"]:
        d = os.path.join("/verif/seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="seed")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(t, "r", f)
                src = open(p).read()
                assert src.count(old) == 1, (s["id"], f, src.count(old), old)
                open(p, "w").write(src.replace(old, new))
            diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
            open(d + "/patch.diff", "wb").write(diff)
        finally:
            shutil.rmtree(t)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + s["demo"])
        for n, txt in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(txt)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"])
main(sys.argv[1])
