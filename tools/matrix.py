#!/usr/bin/env python3
"""Development aid: every seeded bug against every registered check; prints which checks report it."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
checks = [c.get("property") or c["property_id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
ids = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(os.listdir(V + "/seeded"))
def one(i):
    w = "/tmp/matrix/" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    if subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=w).returncode:
        return i, None, ["patch does not apply"]
    hit = []
    for c in checks:
        r = subprocess.run(["python3", "-m", "ux.run", c], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, UX_REPO=w, UX_EVIDENCE=w + "/.ev"))
        if r.returncode == 1: hit.append(c)
        elif r.returncode: hit.append(c + "?%d" % r.returncode)
    shutil.rmtree(w)
    return i, json.load(open(V + "/seeded/%s/meta.json" % i))["property"], hit
with ThreadPoolExecutor(7) as ex:
    for i, p, hit in ex.map(one, ids):
        print("%-32s %s %s %s" % (i, p, "ok  " if p in hit else "MISS", " ".join(hit)), flush=True)
