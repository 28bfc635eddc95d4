"""writes BOUNDS.md from the registered instances and the bug table of DESIGN.md"""
import glob, importlib, json, os, re, sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vlib import harness

titles = {d["id"]: d["title"] for d in map(json.loads, open(R + "/properties.jsonl"))}
for p in sorted(titles):
    importlib.import_module("checks." + p.lower())
importlib.import_module("checks.large")
importlib.import_module("checks.gaps")
importlib.import_module("checks.gaps2")
importlib.import_module("checks.gaps3")
importlib.import_module("checks.gaps4")
importlib.import_module("checks.gaps5")
importlib.import_module("checks.gaps6")
with open(R + "/BOUNDS.md", "w") as f:
    f.write("# Instances and bounds (generated by tools/bounds.py)\n")
    for p, t in sorted(titles.items()):
        f.write("\n## %s %s\n\n" % (p, t))
        for i in harness.INSTANCES:
            if i.prop == p:
                f.write("* %s%s: %s\n" % (i.name, " (thorough)" if i.tier != "quick" else "", i.kw.get("bounds", "")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/").replace("\n", " "), caught.get(i, d["property"])))
s = open(R + "/DESIGN.md").read()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("@@BUGS@@", t) if "@@BUGS@@" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: t, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
