#!/usr/bin/env python3
"""Says which planted bugs change lines of the original repository (and not only lines of fix: commits)."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[-1]
blame = {}
def original(f):
    if f not in blame:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout
        blame[f] = [l.lstrip("^").startswith(base[:39]) for l in o.splitlines()]
    return blame[f]
for i in sorted(os.listdir(V + "/seeded")):
    f, n, hit, cut, add = None, 0, 0, 0, 0
    for l in open(f"{V}/seeded/{i}/patch.diff"):
        if l.startswith("--- "):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-"):
            hit += original(f)[n - 1]
            cut += 1
            n += 1
        elif l.startswith("+") and not l.startswith("+++"):
            add += 1
        elif l.startswith(" "):
            n += 1
    if cut and not hit:
        print(i, "removes no original line")
