#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from propdefs.py, props.py and DESIGN.in.md."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from propdefs import DEFS
try: from propdefs import NA
except ImportError: NA = []
from props import PROPS
KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
ids = [d["id"] for d in DEFS]; assert len(ids) == len(set(ids)), ids
DEFS.sort(key=lambda d: d["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in DEFS:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps({k: d[k] for k in KEYS}, ensure_ascii=True) + "\n")
na = {i: r for i, r in NA}
checks = []
for d in DEFS:
    if d["id"] in na: continue
    if d["id"] not in PROPS: na[d["id"]] = "no check built yet"; continue
    c = dict(property=d["id"], quick_cmd="python3 run.py %s" % d["id"], thorough_cmd="python3 run.py %s --thorough" % d["id"], technique=d["technique"], level="model_checking",
             level_note=d["note"] or "Exhaustive within the bounds stated in DESIGN.md and recorded in the evidence file; the code under test is the real source, compiled from /repo.")
    checks.append(c)
fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
man = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: checks compile /repo's sources unchanged and interpose libc symbols", source_commits=[]), checks=checks, not_applicable=[dict(property=i, reason=na[i]) for i in sorted(na)])
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
src = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
sec = ""
for d in DEFS:
    b = PROPS.get(d["id"])
    sec += "### %s — %s\n\n%s\n\n*Explored:* %s.\n\n*How:* %s\n\n*Why tests cannot:* %s\n" % (d["id"], d["title"], d["statement"], d["quantifier"]["text"], d["design"], d["why_tests_cant"])
    if d["note"]: sec += "\n*Limits:* %s\n" % d["note"]
    if d["id"] in na: sec += "\n*Not claimed:* %s\n" % na[d["id"]]
    sec += "\n"
seeded = ""
sd = os.path.join(V, "seeded")
notes = {}
np = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(np): notes = json.load(open(np))
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = os.path.join(sd, n, "meta.json")
    if os.path.exists(m):
        j = json.load(open(m)); seeded += "| %s | %s | %s | %s |\n" % (n, j["property"], j["what_it_breaks"].replace("|", "/"), notes.get(n, "?"))
open(os.path.join(V, "DESIGN.md"), "w").write(src.replace("@@NOTES@@", open(os.path.join(V, "tools", "NOTES.md")).read()).replace("@@PROPERTIES@@", sec).replace("@@SEEDED@@", seeded))
print(len(DEFS), "properties,", len(checks), "checks,", len(na), "not applicable")
