"""Writes MANIFEST.json: one check per property that has subchecks."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = "".join(open(os.path.join(here, "pbt/props", f)).read()
              for f in sorted(os.listdir(os.path.join(here, "pbt/props")))
              if f.endswith(".py"))
have = set(re.findall(r'@sub\("(C\d\d)"', src))
TECH = json.load(open(os.path.join(here, "tools/techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, "")
        checks.append(dict(
            property=i, quick_cmd=f"bash run.sh {i} --tier quick",
            thorough_cmd=f"bash run.sh {i} --tier thorough",
            technique="property-based testing (Hypothesis): "+t if t else
            "property-based testing (Hypothesis)",
            level="exploration",
            level_note="generated inputs against an explicit oracle; the "
            "bounds are those of the generators (DESIGN.md)"))
    else:
        na.append(dict(property=i, reason="the check is not written yet"))
json.dump(dict(
    version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="run.sh PROPERTY [--tier quick|thorough] [--seed N] rebuilds batoid "
    "from /repo and explores; run.sh PROPERTY --replay FILE re-runs one case."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
