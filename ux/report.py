"""Obligations, verdicts, evidence and exit status of one check."""
import json
import os
import re
import sys
import time

from .facts import VERIF


class Report:
    current = None

    def __init__(self, pid, tier, rule, assumptions=()):
        self.pid = pid
        self.tier = tier
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.obligations = []   # (kind, where, ok, detail)
        self.viol = {}          # key -> dict
        self.undec = []
        self.functions = set()
        self.counts = {}
        self.notes = []
        Report.current = self

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def analysed(self, fn):
        self.functions.add(fn["n"] if isinstance(fn, dict) else fn)

    def ob(self, kind, where, detail=""):
        """An obligation that was discharged."""
        self.obligations.append((kind, where, True, detail))

    def violation(self, key, where, text, trace=None):
        self.obligations.append((key.split(":")[0], where, False, text))
        if key not in self.viol:
            self.viol[key] = {"key": key, "where": where, "what": text, "trace": trace or []}

    def undecided(self, where, why):
        if (where, why) not in self.undec:
            self.undec.append((where, why))

    def findings(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding:\s*property=(\S+)\s+key=(.*?)\s*\|\s*(.*)$", line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.findings()
        new = [v for k, v in sorted(self.viol.items()) if k not in known]
        old = [v for k, v in sorted(self.viol.items()) if k in known]
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s at %s)" % (self.pid, known[v["key"]], v["key"], v["where"]))
        ev_dir = os.environ.get("UX_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join(ev_dir, self.pid + "-violation.json")
        if os.path.exists(replay):
            os.remove(replay)
        for v in new:
            print("%s: %s\n  at %s" % (v["key"], v["what"], v["where"]))
            for t in v["trace"][:40]:
                print("    " + t)
        for w, y in self.undec[:20]:
            print("undecided: %s: %s" % (w, y))
        total = len(self.obligations)
        done = sum(1 for o in self.obligations if o[2])
        kinds = {}
        for k, w, ok, d in self.obligations:
            e = kinds.setdefault(k, {"obligations": 0, "discharged": 0})
            e["obligations"] += 1
            e["discharged"] += bool(ok)
        seen, samples = set(), []
        for k, w, ok, d in self.obligations:
            if k not in seen or len(samples) < 12:
                seen.add(k)
                samples.append({"rule": k, "construct": w, "held": ok, "detail": str(d)[:400]})
            if len(samples) >= 40:
                break
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": total,
                "discharged": done,
                "by_rule": kinds,
                "functions_analysed": sorted(self.functions),
                "counts": self.counts,
                "undecided": [{"where": w, "why": y} for w, y in self.undec],
                "known_findings": [v["key"] for v in old],
                "samples": samples,
                "notes": self.notes,
                "trusted_base": ["clang 18 front end (name and type resolution)", "/verif/ux (the analysis itself)",
                                 "models of the C++ standard library operations used"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(ev_dir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1f s"
              % (self.pid, total, done, len(self.undec), len(self.functions), time.time() - self.t0))
        if new:
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "violations": new}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        if total == 0:
            print("error: nothing was analysed")
            return 2
        return 0
