#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the components that exist."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from check import COMPONENT  # noqa: E402

TECH = ("TLA+ specification (%s) model-checked with TLC; its transitions are "
        "replayed into the code and recorded histories of the code are "
        "validated against it with TLC")
NOTE = ("Every state of the bounded model, and every record of the recorded "
        "histories of the real code, is decided by TLC against the "
        "specification; beyond the explored inputs and histories nothing is "
        "claimed. Trusted: TLC, the observation code in harness/comp_%s.py, "
        "Python and numpy. %s")
EXTRA = {
    "C08": "One known finding (extended diagnostics off by one) is listed in "
           "known_findings.json.",
}
checks, missing = [], []
for p, c in sorted(COMPONENT.items()):
    comp = os.path.join(ROOT, "harness", "comp_%s.py" % c)
    if not os.path.exists(comp):
        missing.append(dict(property=p, reason="the check is not built yet"))
        continue
    module = next(l.split('"')[1] for l in open(comp)
                  if l.startswith("TRACE_MODULE"))
    checks.append(dict(
        property=p, quick_cmd="python3 check.py %s" % p,
        thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
        evidence_file="evidence/%s.json" % p,
        technique=TECH % module.replace("T_", "spec/"),
        level="model_checking",
        level_note=(NOTE % (c, EXTRA.get(p, ""))).strip()))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1,
                   setup_cmd="python3 -m py_compile check.py harness/*.py && "
                             "mkdir -p evidence replays",
                   checks=checks, not_applicable=missing,
                   notes="No hooks: the code under test is observed through "
                         "its public interface only."), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not built")
