#!/usr/bin/env python3
"""Regenerates the tables at the end of DESIGN.md from seeded/*/meta.json, tools/trials.txt (lines of trybugs.sh and
tryrefactors.py) and, when all of them are there and quiet, evidence/*.json."""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res, ref = {}, {}
for l in open(R + "/tools/trials.txt", errors="replace"):
    w = l.split(None, 3)
    if len(w) > 2 and re.fullmatch(r"C\d\d", w[1]):
        res[w[0]] = w[2]
    elif len(w) > 1 and (w[1] == "quiet" or w[1].startswith("alarms")):
        ref[w[0]] = l.split(None, 1)[1].strip()
out = ["<!-- tables -->", "### Planted bugs", "", "Kept in `seeded/`; `tools/trybugs.sh` applies each and runs the quick check of its property.", "",
       "| bug | property | what it needs | quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    out.append("| {} | {} | {} | {} |".format(d, m["property"], " ".join(m["needs"].split()).replace("|", "\\|"), res.get(d, "not tried")))
out += ["", "### Behaviour-preserving edits", "", "`tools/tryrefactors.py` runs all quick checks on each edit of `tools/refactors.py`.", "", "| edit | checks |", "|---|---|"]
out += [f"| {k} | {v} |" for k, v in ref.items()]
ev = [json.load(open(f)) for f in sorted(glob.glob(R + "/evidence/C*.json"))]
if len(ev) == 33 and all(e["violations"] == 0 and e["tier"] == "quick" for e in ev):
    out += ["", "### Sizes of the quick tier", "", "| property | executions of the code | states | transitions | seconds on 8 cores |", "|---|---|---|---|---|"]
    for e in ev:
        c = e["coverage"]
        out.append(f"| {e['property']} | {c['traces_validated_against_impl']} | {c['states']} | {c['transitions']} | {e['wall_s']:.1f} |")
p = R + "/DESIGN.md"
s = open(p).read()
old = s[s.index("<!-- tables -->"):]
if "### Sizes of the quick tier" in old and "### Sizes of the quick tier" not in out:
    out += ["", old[old.index("### Sizes of the quick tier"):].rstrip()]
open(p, "w").write(s[:s.index("<!-- tables -->")] + "\n".join(out) + "\n")
