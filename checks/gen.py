#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402
VERIF = os.path.dirname(HERE)
ids = sorted(PROPS)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for i in ids:
        p = PROPS[i]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], state=list(p["state"]), mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for i in ids:
    p = PROPS[i]
    if not p["jobs"]:
        na.append(dict(property=i, reason=p["na"]))
        continue
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s" % i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is observed at its public interface, at sockets and through sanitizers. See DESIGN.md.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
# DESIGN.md: head, one section per property, tail, table of planted bugs
d = open(os.path.join(HERE, "design_head.md")).read()
for i in ids:
    p = PROPS[i]
    d += "### %s %s\n\n" % (i, p["title"])
    if not p["jobs"]:
        d += "Not claimed: %s\n\n" % p["na"]
        continue
    d += "*Monitored.* %s\n\n*Technique.* %s. *Bounds.* %s\n\n" % (p["rule"], p["technique"][0].upper() + p["technique"][1:], p["note"])
    d += "*Why tests cannot.* %s\n\n" % p["why"]
    d += "| Workload | Flavour | quick | thorough | violations of this property |\n|---|---|---|---|---|\n"
    for j in p["jobs"]:
        d += "| %s/%s | %s | %s | %s | %s |\n" % (j["harness"], j["scenario"], j["flavor"], j["seeds"]["quick"] if "quick" in j["tiers"] else "-",
                                                 j["seeds"]["thorough"] if "thorough" in j["tiers"] else "-", "`%s`" % j["keys"].replace("|", "\\|") if j.get("keys") else "all")
    d += "\n"
d += open(os.path.join(HERE, "design_tail.md")).read()
results = os.path.join(HERE, "planted.json")
if os.path.exists(results):
    r = json.load(open(results))
    d += "| Bug | Property | What it breaks | Needs | Quick check |\n|---|---|---|---|---|\n"
    for k in sorted(r):
        d += "| %s | %s | %s | %s | %s |\n" % (k, r[k]["property"], r[k]["what_it_breaks"], r[k]["needs"], r[k]["result"])
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write(d)
print(len(checks), "checks;", len(na), "not claimed")
