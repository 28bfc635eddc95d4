#!/usr/bin/env python3
"""write /verif/seeded/<id> from a spec: mkbug.py spec.py  (spec: list BUGS of dicts id, property, file, edits, needs, breaks, demo)"""
import json, os, subprocess, sys, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
S = "/verif/seeded"
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(S, b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug.")
    try:
        out = ""
        files = {}
        for f, old, new in b["edits"]:
            if f not in files:
                files[f] = open("/repo/" + f).read()
            if files[f].count(old) != 1:
                print(b["id"], "edit matches", files[f].count(old), "times:", old[:60]); raise SystemExit(1)
            files[f] = files[f].replace(old, new)
        for f, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(w, f)), exist_ok=True)
            open(os.path.join(w, f), "w").write(t)
            r = subprocess.run(["git", "diff", "--no-index", "--src-prefix=a/", "--dst-prefix=b/", "/repo/" + f, os.path.join(w, f)], capture_output=True, text=True).stdout
            lines = r.split("\n")
            o = []
            for l in lines:
                if l.startswith("diff --git"): l = "diff --git a/%s b/%s" % (f, f)
                elif l.startswith("--- "): l = "--- a/" + f
                elif l.startswith("+++ "): l = "+++ b/" + f
                elif l.startswith("index "): continue
                o.append(l)
            out += "\n".join(o)
        open(d + "/patch.diff", "w").write(out)
        # removed lines must be lines of the original repository
        for f in files:
            base = subprocess.run(["git", "-C", "/repo", "show", "258498e:" + f], capture_output=True, text=True).stdout.split("\n")
            for l in out.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
                    print(b["id"], "NOT ORIGINAL:", l)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.py", "w").write("import numpy as np\nimport logging\nlogging.disable(logging.CRITICAL)\n" + b["demo"].strip("\n") + "\n")
    if "fakepsr" in b["demo"]:
        shutil.copy("/verif/tools/bugs/fakepsr.py", d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$D/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
