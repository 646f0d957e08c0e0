#!/usr/bin/env python3
"""Development aid: (re)create /verif/seeded/<id>/ from the tables in tools/seeds/*.py and confirm each one
in a scratch copy (applies, builds, stable tests pass, demo passes without and fails with the change).
usage: seed.py [ID,..]"""
import importlib.util, os, subprocess, sys, shutil, json, glob
V = "/verif"
S = []
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    spec = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); S += m.S
only = sys.argv[1].split(",") if len(sys.argv) > 1 else None
DEMO = """#!/bin/bash
# Builds the library sources of the current directory with demo.cpp and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s -I. -Isrc -Iinclude src/accumulator.cpp src/batchproof.cpp src/pollard.cpp src/ram_forest.cpp src/state.cpp src/crypto/sha512.cpp "$D/demo.cpp" -o "$T/demo" -lpthread || exit 2
cd "$T" && timeout 200 ./demo
"""
SRC = ["src/accumulator.cpp","src/batchproof.cpp","src/pollard.cpp","src/ram_forest.cpp","src/state.cpp","src/crypto/sha512.cpp"]
for s in S:
    if only and s["id"] not in only: continue
    d = V + "/seeded/" + s["id"]; w = "/tmp/seed/" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    for f, a, b in s["edits"]:
        p = w + "/" + f; t = open(p).read()
        assert t.count(a) >= 1, (s["id"], f, a)
        open(p, "w").write(t.replace(a, b, 1))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    exe = w + "/t.exe"
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-I.", "-Isrc", "-DUTREEXO_VERIFY", "-DBOOST_TEST_DYN_LINK"] + SRC + ["src/test/tests.cpp"]
        + ["src/test/" + f for f in os.listdir(w + "/src/test") if f.endswith("_tests.cpp")] + ["-lboost_unit_test_framework", "-o", exe], cwd=w, capture_output=True, text=True)
    t = subprocess.run([exe], cwd=w, capture_output=True, text=True, timeout=300) if r.returncode == 0 else r
    good = ok.returncode == 0 and bad.returncode not in (0, 2) and t.returncode == 0
    res = subprocess.run(["python3", "-m", "ux.run", s["prop"]], cwd=V, env=dict(os.environ, UX_REPO=w, UX_EVIDENCE=w + "/ev"), capture_output=True, text=True)
    print("%-26s %s %s demo %d/%d tests %d  check rc=%d" % (s["id"], s["prop"], "ok " if good else "BAD", ok.returncode, bad.returncode, t.returncode, res.returncode))
    if not good: print(ok.stdout[-300:], ok.stderr[-300:], bad.stdout[-300:], bad.stderr[-600:], t.stdout[-300:], t.stderr[-300:])
    shutil.rmtree(w, ignore_errors=True)
