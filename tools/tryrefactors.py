#!/usr/bin/env python3
"""Runs the checks on copies of /repo with behaviour-preserving edits: tryrefactors.py [-j N] [--checks C01,C02] [id ...]
Works in a copy of /verif and /repo under /tmp/rf, so it does not disturb the real ones."""
import os, re, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get("RF", "/tmp/rf")
sys.path.insert(0, V + "/tools")
from refactors import REFACTORS
args = sys.argv[1:]
checks = [f"C{i:02}" for i in range(1, 34)]
if args[:1] == ["--checks"]:
    checks = args[1].split(",")
    args = args[2:]
def sh(c, cwd=None, t=900):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "timeout", "")
# a+b+c: these edits together
for a in [a for a in args if "+" in a]:
    REFACTORS.append(dict(id=a, edits=[e for i in a.split("+") for r in REFACTORS if r["id"] == i for e in r["edits"]]))
os.makedirs(D, exist_ok=True)
shutil.rmtree(D + "/repo", ignore_errors=True)
sh(f"cp -a /repo {D}/repo && git -C {D}/repo checkout -- .")
sh(f"mkdir -p {D}/verif && cd {V} && cp -a bin mc rt certs known_findings.txt {D}/verif/ && sed -i 's|/repo|{D}/repo|g' {D}/verif/bin/build {D}/verif/mc/Cargo.toml {D}/verif/bin/rustc-wrap")
for r in REFACTORS:
    if args and r["id"] not in args:
        continue
    sh("git checkout -- .", D + "/repo")
    bad = None
    for f, old, new in r["edits"]:
        p = f"{D}/repo/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            bad = f"{f}: {s.count(old)} times: {old[:80]!r}"
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(r["id"], "EDIT", bad, flush=True)
        continue
    b = sh("bin/build all", D + "/verif", 600)
    if b.returncode:
        print(r["id"], "BUILD", b.stderr[-1500:], flush=True)
        continue
    alarms = []
    for c in checks:
        x = sh(f"bin/check {c} quick", D + "/verif")
        if x.returncode:
            alarms.append(c)
            open(f"{D}/{r['id']}-{c}.txt", "w").write(x.stdout + x.stderr)
    print(r["id"], "alarms: " + " ".join(alarms) if alarms else "quiet", flush=True)
