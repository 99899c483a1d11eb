#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md between markers (run by hand)."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
fixed = json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]
rows = ["* " + re.sub(r"fixed: property=(\S+) (\S+) (.*)",
                      r"**\1** `\2` \3", x) for x in fixed]
caught = {}
log = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(log):
    caught = json.load(open(log))
seeds = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (
        d, m["needs"], m["what_it_breaks"], caught.get(d, "not yet run")))


def put(s, name, lines):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    text = a + "\n" + "\n".join(lines) + "\n" + b
    if "@%s@" % name in s:
        return s.replace("@%s@" % name, text)
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: text, s,
                  flags=re.S)


s = put(put(s, "FIXED", rows), "SEEDS", seeds)
open(p, "w").write(s)
