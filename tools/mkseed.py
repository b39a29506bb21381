#!/usr/bin/env python3
"""Usage: mkseed.py SPEC.json...   Makes /verif/seeded/<id>/ from a spec and confirms it
(builds, passes the stable tests, demo passes without and fails with the patch).
Spec: {id, property, needs, breaks, edits: [[file, old, new], ...], pkg, demo: go test source}"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = """#!/bin/bash
# Runs the demonstration test inside package %s of the tree in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)"
trap 'rm -r "$T"' EXIT
echo '{"Replace": {"'"$R"'/%s/seeded_demo_test.go": "'"$D"'/demo_test.go"}}' > "$T/ov.json"
cp go.mod "$T/go.mod"; [ -f go.sum ] && cp go.sum "$T/go.sum"
GOFLAGS=-mod=mod go test -modfile="$T/go.mod" -overlay "$T/ov.json" -count=1 -timeout 120s -run 'TestSeededDemo' ./%s
"""
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for sp in sys.argv[1:]:
    s = json.load(open(sp))
    w = tempfile.mkdtemp(prefix="seedw.", dir="/tmp")
    r = os.path.join(w, "repo")
    sh(["git", "clone", "-q", "/repo", r])
    try:
        d = os.path.join(w, s["id"]); os.makedirs(d)
        open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("go test", "go test -race" if s.get("race") else "go test") % (s["pkg"], s["pkg"], s["pkg"]))
        env = dict(os.environ, GOFLAGS="-mod=readonly")
        a = sh(["bash", os.path.join(d, "demo.sh")], cwd=r)
        sh(["git", "checkout", "-q", "--", "."], cwd=r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT not unique/found", f, repr(old), t.count(old)); raise SystemExit(1)
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], cwd=r).stdout
        b = sh(["go", "vet", "./..."], cwd=r, env=env)
        t = sh("go test -p 1 -vet=off -count=1 $(go list ./... | grep -vE '/(core/api|core/testutils|pkg/arbiter)$') 2>&1 | grep -E '^(---|FAIL|panic|ok)' ", cwd=r, env=env, shell=True)
        c = sh(["bash", os.path.join(d, "demo.sh")], cwd=r)
        okt = "FAIL" not in t.stdout and "panic" not in t.stdout
        good = a.returncode == 0 and c.returncode != 0 and okt
        print(s["id"], "OK" if good else "BAD", "clean demo", a.returncode, "patched demo", c.returncode, "tests", "pass" if okt else t.stdout)
        if a.returncode: print(a.stdout)
        if good:
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            o = os.path.join(V, "seeded", s["id"])
            if os.path.isdir(o): shutil.rmtree(o)
            shutil.copytree(d, o)
        elif c.returncode: print(c.stdout[-1500:])
    finally:
        shutil.rmtree(w)
