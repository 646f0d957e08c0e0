#!/usr/bin/env python3
"""Development aid: apply textual edits to scratch copies of /repo, build and run the stable tests, run checks.
usage: mut.py FILE.py [--checks C01,C02|own|all] [--only ID,..] [--notest]
FILE.py defines M = [dict(id=, prop=, edits=[(file, old, new), ...], kind="bug"|"refactor"), ...]"""
import importlib.util, os, subprocess, sys, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
spec = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
args = sys.argv[2:]
def opt(n, d=None):
    return args[args.index(n) + 1] if n in args else d
which = opt("--checks", "own")
only = opt("--only")
notest = "--notest" in args
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
avail = sorted(f[:-3].upper() for f in os.listdir(V + "/ux/checks") if re.match(r"c\d\d\.py$", f))
SRC = ["src/accumulator.cpp","src/batchproof.cpp","src/pollard.cpp","src/ram_forest.cpp","src/state.cpp","src/crypto/sha512.cpp"]
def run(x):
    d = "/tmp/mut/%s" % x["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "*.o", "*.lo", ".libs", ".deps"), symlinks=True)
    out = {"id": x["id"], "prop": x.get("prop"), "kind": x.get("kind", "bug")}
    try:
        for f, a, b in x["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) < 1:
                out["err"] = "pattern missing in %s: %r" % (f, a[:60]); return out
            s = s.replace(a, b, 1); open(p, "w").write(s)
        if not notest:
            exe = d + "/t.exe"
            r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-I.", "-Isrc", "-DBOOST_TEST_DYN_LINK"] + SRC + ["src/test/tests.cpp"]
                + ["src/test/" + f for f in os.listdir(d + "/src/test") if f.endswith("_tests.cpp")] + ["-lboost_unit_test_framework", "-o", exe], cwd=d, capture_output=True, text=True)
            if r.returncode:
                out["err"] = "build: " + r.stderr[-800:]; return out
            try:
                r = subprocess.run([exe], cwd=d, capture_output=True, text=True, timeout=300)
                out["tests"] = "pass" if r.returncode == 0 else "FAIL " + (r.stdout + r.stderr)[-200:]
            except subprocess.TimeoutExpired:
                out["tests"] = "TIMEOUT"
        cs = avail if which == "all" else ([x["prop"]] if which == "own" else which.split(","))
        out["res"] = {}
        for c in cs:
            if c not in avail: out["res"][c] = "n/a"; continue
            e = dict(os.environ, UX_REPO=d, UX_EVIDENCE=d + "/ev", PYTHONPATH=V)
            r = subprocess.run(["python3", "-m", "ux.run", c], cwd=V, env=e, capture_output=True, text=True)
            out["res"][c] = r.returncode
            out.setdefault("log", {})[c] = (r.stdout + r.stderr)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
ms = [x for x in m.M if not only or any(re.fullmatch(o, x["id"]) for o in only.split(","))]
with ThreadPoolExecutor(int(opt("-j", "6"))) as ex:
    for o in ex.map(run, ms):
        if o.get("err"): print("%-28s ERR %s" % (o["id"], o["err"])); continue
        rs = o["res"]; t = o.get("tests", "-")
        hit = [c for c, v in rs.items() if v == 1]; bad = [c for c, v in rs.items() if v not in (0, 1)]
        verdict = ("caught" if hit else "MISSED") if o["kind"] == "bug" else ("FALSE ALARM" if hit else "quiet")
        print("%-28s %-4s %-12s hit=%s err=%s tests=%s" % (o["id"], o["prop"], verdict, ",".join(hit), ",".join(bad), t[:150]))
        if "-v" in args or (o["kind"] != "bug" and hit) or bad:
            for c in (hit if o["kind"] != "bug" or "-v" in args else []) + bad if "-v" not in args else rs: print("   | " + o["log"][c][-1500:].replace("\n", "\n   | "))
        sys.stdout.flush()
