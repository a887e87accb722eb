#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py. A property is claimed iff checks/<ID>.* exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
claimed = {f.split(".")[0].split("_")[0] for f in os.listdir(V + "/checks") if f.endswith(".cc")}
with open(V + "/properties.jsonl", "w") as fh:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"],
                              state=p["state"], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in claimed and not p["na"]:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                           thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique="model checking: " + p["technique"], level=p["level"],
                           level_note=p["note"] or "Exhaustive within the bounds printed in the evidence file; trusts the reference model in the explorer, the compiler and the sanitizers."))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
               notes="Every check builds /repo's current sources (out of tree, under /verif/build) with its explorer and enumerates the bounded space described in DESIGN.md. No hooks are added to /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
