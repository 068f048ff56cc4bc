#!/usr/bin/env python3
"""Regenerates the fixed: lines of known_findings.txt from the fix commits in /repo."""
import subprocess, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], text=True).splitlines()
P = [("parser looped", "C01"), ("integer overflow", "C03"), ("an integer and a float", "C03"), ("text of a map", "C06"), ("negative numbers of a JSON", "C16"),
     ("deeply nested expr", "C01"), ("interactive session never", "C08"), ("last token of a source", "C09"), ("iterations were lost", "C22"), ("large duration", "C30"),
     ("calls of an iteration that ends", "C21"), ("run of all tests printed no", "C26"), ("short write to a record", "C29"), ("arrays in record", "C28"),
     ("readers stop at the empty", "C28"), ("request target was cut", "C12"), ("upper case HTTPS", "C12"), ("recorded URL lost", "C12"), ("reason phrase", "C14"),
     ("interrupted first read", "C14"), ("form values", "C13"), ("line breaks of a body", "C11"), ("multipart body was sent", "C13"), ("assertions that are no", "C20")]
EXTRA = os.path.join(ROOT, "tools", "fixes_extra.txt")
if os.path.exists(EXTRA):
    P += [tuple(l.rstrip("\n").split("\t")) for l in open(EXTRA) if l.strip()]
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    m = [p for k, p in P if k in s]
    assert len(m) == 1, (s, m)
    out.append(f"fixed: property={m[0]} {h} {s[4:].strip()}")
path = os.path.join(ROOT, "known_findings.txt")
keep = [l.rstrip("\n") for l in open(path)] if os.path.exists(path) else ["# known: property=<id> <key> :: <what fails>   (reported as KNOWN-FINDING, never added to at run time)", "# fixed: property=<id> <commit> <what failed> (suppresses nothing)"]
keep = [l for l in keep if not l.startswith("fixed:")]
open(path, "w").write("\n".join(keep + out) + "\n")
