#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the descriptions in a file: confirms each planted bug in scratch copies of /repo.
usage: seed.py FILE [id ...]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "/tmp/seed-base", "/tmp/seed-work"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", **k)
def build(d):
    return sh("cargo test --workspace --no-run --offline", d)
def fresh():
    head = sh("git rev-parse HEAD", "/repo").stdout
    for d in (A, B):
        if not os.path.isdir(d) or sh("git rev-parse HEAD", d).stdout != head:
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            sh("git checkout -- .", d)
            r = build(d)
            assert r.returncode == 0, r.stderr
def tests(d):
    log = d + ".log"
    open(log, "w").write("")
    sh(f"timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1", d)
    out = d + ".json"
    subprocess.run(["python3", "/opt/vp/results.py", out, "cargo:" + log], capture_output=True)
    return stable - set(json.load(open(out))["passed"])
def one(bug):
    i = bug["id"]
    sh("git checkout -- .", B)
    for f, old, new in bug["edits"]:
        p = f"{B}/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return f"text not found in {f}: {old!r}"
        if s.count(old) > 1 and not bug.get("first"):
            return f"text not unique in {f}: {old!r}"
        open(p, "w").write(s.replace(old, new, 1))
    diff = sh("git diff", B).stdout
    r = build(B)
    if r.returncode:
        return "no build\n" + r.stderr[-3000:]
    lost = tests(B)
    if lost:
        return f"tests fail: {lost}"
    d = f"/tmp/seed-demo/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(f"{V}/tools/demo.py", f"{d}/demo.py")
    open(f"{d}/run.py", "w").write("from demo import *\n" + bug["demo"].strip() + "\ndone()\n")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/run.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, (src) in bug.get("files", {}).items():
        shutil.copy(src, f"{d}/{n}") if os.path.exists(src) else open(f"{d}/{n}", "w").write(src)
    for where, want in ((A, 0), (B, 1)):
        for k in range(2):
            try:
                r = sh(f"{d}/demo.sh", where, timeout=200)
                rc, o = r.returncode, r.stdout[-600:] + r.stderr[-600:]
            except subprocess.TimeoutExpired:
                rc, o = 99, "timeout"
            if (rc == 0) != (want == 0) or rc == 99:
                return f"demo in {where}: exit {rc}: {o}"
            if want: last = o.strip()[-160:]
    t = f"{V}/seeded/{i}"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(V + "/seeded", exist_ok=True)
    shutil.copytree(d, t)
    open(f"{t}/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{t}/meta.json", "w"), indent=1)
    return "kept; " + last
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    fresh()
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print(b["id"], one(b), flush=True)
main()
