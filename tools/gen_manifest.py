#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: a check is claimed when mc/checks/<id>.py exists."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
HIST = "explicit-state exploration of operation histories on the real code in lock step with a reference model"
ENUM = "exhaustive bounded enumeration on the real code against a reference model"
TECH = {"C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST,
        "C05": "exhaustive fault-point enumeration on the real code with continuation histories",
        "C08": HIST, "C12": HIST, "C13": HIST, "C14": HIST, "C18": HIST, "C19": HIST, "C23": HIST,
        "C31": HIST, "C32": HIST, "C33": "exhaustive fault-point enumeration on the real code with continuation histories", "C35": HIST}
NOTE = ("Every history/case of the alphabet up to the bound stated in the evidence file is executed on the real code "
        "and compared with an independent reference model; no sampling. Trusts the reference model, numpy, matplotlib "
        "and that behaviours outside the bound resemble those inside.")
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists("mc/checks/%s.py" % i.lower()):
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique="model checking: " + TECH.get(i, ENUM),
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Pure Python checks: nothing to build. They import the working tree of /repo directly.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed;", len(na), "not")
