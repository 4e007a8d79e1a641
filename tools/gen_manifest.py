"""Writes MANIFEST.json: a property is claimed when mc/checks/<id>.py exists and is not in HELD_BACK."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python run.py"
EXH = "stateless exhaustive enumeration of bounded inputs and environment answers on the real code"
HIST = "explicit-state exploration of bounded operation histories on the real code in lock-step with a reference model"
T = {p: EXH for p in "C18 C19 C20 C09 C10 C11 C08 C25 C29 C22 C21 C17 C16 C14 C13 C15 C26 C28 C23 C30 C31 C32 C33".split()}
T.update({p: HIST for p in "C01 C02 C03 C04 C05 C06 C07 C12 C24 C27".split()})
NOTE = ("Every execution within the stated bounds is run on the real code and judged; outside the bounds nothing is claimed. "
        "Trusts numpy, pyAT tracking and the reference model/oracle in the check.")
HELD_BACK = {}

props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")) and i not in HELD_BACK:
        checks.append(dict(property=i, quick_cmd=f"{PY} {i}", thorough_cmd=f"{PY} {i} --tier thorough",
                           technique=T[i], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=HELD_BACK.get(i, "no check registered yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, matplotlib, at\"",
         hooks=dict(guard="none", enable="No hooks in /repo are needed: the checks replace numpy.random and the pyAT tracking entry points before importing pySC from /repo."),
         checks=checks, not_applicable=na,
         notes="All checks import pySC from /repo's working tree (pure Python, nothing to build). See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na], "not")
