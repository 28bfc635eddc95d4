"""writes MANIFEST.json from properties.jsonl and the harness files present in checks/"""
import json
import os

R = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = json.load(open(R + "/not_applicable.json")) if os.path.exists(R + "/not_applicable.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (R, i.lower())):
        checks.append(dict(
            property=i, quick_cmd="/opt/venv/bin/python run_check.py %s" % i, thorough_cmd="/opt/venv/bin/python run_check.py %s --thorough" % i,
            technique="symbolic execution of the real functions from /repo's source into exact terms, claims discharged by z3, counterexamples replayed on the real code",
            level="model_checking",
            level_note="all values of the symbolic inputs within the instance bounds (array sizes, layouts, path limits) in exact real arithmetic; library linear algebra replaced by its contract"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="run_check.py <ID> [--thorough]; see DESIGN.md. Exit 0 held on everything explored, 1 violation, 2 no answer.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
