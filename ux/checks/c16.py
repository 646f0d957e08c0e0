"""C16: self-checks only observe (syntax-tree comparison of the configurations + effects of the check conditions)."""
from ..effects import Effects, FnEffects
from ..facts import Program, Type, children, loc, walk, AnalysisError
from ..report import Report

MACROS = {"CHECK", "CHECK_SAFE", "assert"}
SKIP = {"l", "c", "el", "f", "m", "key", "tu", "unit", "did", "file", "usr"}


def in_check(n):
    """Does this node come from the expansion of a check macro itself?"""
    return any(m in MACROS for m in n.get("m", []))


def is_check_stmt(s):
    if s is None:
        return True
    if s["k"] == "null":
        return True
    if s["k"] == "expr":
        x = s["x"]
        if in_check(x) or in_check(s):
            return True
        return False
    return in_check(s) and s["k"] in ("do", "if", "block", "while", "expr")


def mentions_check(n):
    return any(in_check(x) for x in walk(n))


class Canon:
    """Canonical form of a function without its check statements; local names are numbered."""

    def __init__(self, prog=None):
        self.ids = {}
        self.prog = prog

    def c(self, o):
        if isinstance(o, dict):
            if o.get("k") == "block":
                return ("block", tuple(self.c(s) for s in o["s"] if not is_check_stmt(s)))
            if "k" in o and is_check_stmt(o) and o["k"] in ("expr", "do", "if", "null"):
                return ("nothing",)
            items = []
            if o.get("k") == "lambda" and self.prog is not None:
                lf = self.prog.functions.get("lambda:%d:%d" % o["did"])
                if lf:
                    items.append(("body", self.c([{"d": q["d"], "t": q["t"]} for q in lf["params"]]), self.c(lf["body"])))
            for k in sorted(o):
                if k in SKIP:
                    continue
                v = o[k]
                if k == "d" and isinstance(v, tuple):
                    v = self.ids.setdefault(v, len(self.ids))
                if k == "hold":
                    continue
                items.append((k, self.c(v)))
            return tuple(items)
        if isinstance(o, list):
            return tuple(self.c(x) for x in o)
        if isinstance(o, Type):
            # types of lambdas carry their source position
            import re
            return re.sub(r"\(lambda at [^)]*\)", "(lambda)", o.s)
        return o


def canon(f, prog):
    c = Canon(prog)
    return (tuple(c.c({"d": p["d"], "t": p["t"]}) for p in f["params"]), c.c(f.get("inits", [])), c.c(f.get("body")))


def stmts_of(n):
    out = []
    for x in walk(n):
        if x["k"] == "block":
            out.append(x)
    return out


def check_sites(f):
    """Outermost nodes of each check expansion in a function."""
    out = []

    def rec(n):
        if in_check(n) and n["k"] != "block" or n["k"] == "expr" and in_check(n["x"]):
            out.append(n)
            return
        for c in children(n):
            rec(c)
    if f.get("body"):
        rec(f["body"])
    return out


NORETURN = {"abort", "__assert_fail", "fprintf", "__assert_perror_fail", "__assert"}


def impure(prog, eff, f, node):
    """Why evaluating this check can change something, or None."""
    fe = FnEffects(eff, f)
    # learn what the function's variables refer to
    fe.run()
    fe.s.writes = {}
    declared = {x["d"] for x in walk(node) if x["k"] == "var"}

    class Watch(FnEffects):
        pass
    w = fe
    found = []
    orig = FnEffects.write

    def write(self, lv, n, what):
        base = n
        for r in lv.D:
            if r in ("fresh", "io"):
                continue
            if r == "local":
                # a variable of the function itself (not of the check)?
                t = n.get("x") or n.get("obj") or (n.get("args") or [None])[0]
                d = root_decl(t)
                if d is not None and (d in declared or d in lambda_locals):
                    continue
                if d is None and n["k"] in ("ctor",):
                    continue
                found.append((n, what, "a local variable"))
            else:
                found.append((n, what, str(r)))
    lambda_locals = set()
    for x in walk(node):
        if x["k"] == "lambda":
            lf = prog.functions.get("lambda:%d:%d" % x["did"])
            if lf:
                lambda_locals |= {y["d"] for y in walk(lf["body"]) if y["k"] == "var"}
                lambda_locals |= {p["d"] for p in lf["params"] if p["t"].k != "ref"}
    w.write = write.__get__(w)
    before = set()
    w.any(node)
    for r, (wf, n2, what) in w.s.writes.items():
        if r not in ("local", "fresh", "io"):
            found.append((n2, what, str(r)))
    return found


def root_decl(t):
    while t is not None:
        k = t["k"]
        if k == "ref":
            return t["d"]
        if k in ("member", "idx"):
            t = t["b"]
        elif k in ("cast", "un"):
            t = t["x"]
        elif k == "call":
            t = t.get("obj") or (t["args"][0] if t["args"] else None)
        else:
            return None
    return None


def extra_is_observer(prog, eff, f, s):
    """A statement that exists in one configuration only and just prepares data for checks."""
    return s["k"] == "decl"


def check(tier):
    r = Report("C16", tier,
               "Every library function is parsed in each configuration (checks off, UTREEXO_VERIFY, NDEBUG, both); with the check "
               "statements (CHECK, CHECK_SAFE, assert) removed the resolved syntax trees must be identical, and the condition of "
               "every check must be free of effects on anything but its own temporaries (effect analysis).",
               ["a check that fails aborts; only passing checks are considered"])
    progs = {c: Program(c) for c in ("release", "verify", "ndebug", "verify-ndebug")}
    base = progs["release"]

    def named(p):
        out = {}
        for f in p.functions.values():
            if f.get("lambda"):
                continue
            out[(f["usr"], f["unit"] if f.get("internal") else "")] = f
        return out
    bn = named(base)
    for cfg, p in progs.items():
        if cfg == "release":
            continue
        pn = named(p)
        for key in sorted(set(bn) | set(pn)):
            a, b = bn.get(key), pn.get(key)
            if a is None or b is None:
                # present in one configuration only: harmless if only checks use it
                pr, f = (p, b) if a is None else (base, a)
                users = []
                for g in pr.functions.values():
                    for n in walk(g["body"]) if g.get("body") else []:
                        if n["k"] in ("call", "fnref", "ctor") and n.get("fn", {}).get("usr") == f["usr"] and not mentions_check_site(g, n):
                            users.append(g["n"])
                eff = Effects(pr)
                if any(u != f["n"] for u in users) or (f.get("overrides")):
                    r.violation("config:%s" % f["n"], loc(f, f),
                                "%s exists only in the %s configuration and ordinary code uses it" % (f["n"], cfg))
                else:
                    r.ob("check-only function (%s)" % cfg, f["n"], "")
                continue
            r.analysed(a)
            if canon(a, base) == canon(b, p):
                r.ob("same code apart from checks (release = %s)" % cfg, a["n"], "")
            else:
                d = first_diff(a, b)
                verdict, why = explain_diff(base, p, a, b)
                if verdict:
                    r.ob("same code apart from checks (release = %s)" % cfg, a["n"], why)
                else:
                    r.violation("config:%s" % a["n"], d, "%s does different things in the release and %s configurations (%s)"
                                % (a["n"], cfg, why))
        # class layout
        for name, rec in sorted(p.records.items()):
            o = base.records.get(name)
            if o and [(x["n"], x["t"].s) for x in o["fields"]] != [(x["n"], x["t"].s) for x in rec["fields"]]:
                r.violation("layout:%s" % name, "%s:%s" % (rec.get("f", "?"), rec.get("l", "?")),
                            "the fields of %s differ between the release and %s configurations" % (name, cfg))
            else:
                r.ob("same class layout (release = %s)" % cfg, name, "")
    # purity of every check
    for cfg in ("verify", "release"):
        p = progs[cfg]
        eff = Effects(p)
        for f in sorted(p.functions.values(), key=lambda f: f["n"]):
            if f.get("lambda"):
                continue
            for s in check_sites(f):
                bad = impure(p, eff, f, s)
                if bad:
                    n, what, root = bad[0]
                    r.violation("effect:%s" % f["n"], loc(f, s), "a check in %s has an effect: it %s %s" % (f["n"], what, root))
                else:
                    r.ob("check condition has no effect (%s)" % cfg, loc(f, s), f["n"])
                    r.count("checks (%s)" % cfg)
    if r.counts.get("checks (verify)", 0) + len(r.viol) < 3:
        raise AnalysisError("no check macros found")
    return r


def mentions_check_site(f, node):
    for s in check_sites(f):
        for x in walk(s):
            if x is node:
                return True
            if x["k"] == "lambda":
                pass
    return False


def first_diff(a, b):
    def flat(f):
        out = []

        def rec(n):
            if n is None:
                return
            if n["k"] == "block":
                for s in n["s"]:
                    if not is_check_stmt(s):
                        out.append((s, Canon().c(strip_ids(s))))
                        for c in children(s):
                            rec(c)
            else:
                for c in children(n):
                    rec(c)
        if f.get("body"):
            rec(f["body"])
        return out
    x, y = flat(a), flat(b)
    cx = [c for _, c in x]
    cy = [c for _, c in y]
    for s, c in y:
        if c not in cx and not any(True for q in children(s) if q["k"] == "block"):
            return loc(b, s)
    for s, c in x:
        if c not in cy and not any(True for q in children(s) if q["k"] == "block"):
            return loc(a, s)
    return loc(a, a)


def strip_ids(o):
    if isinstance(o, dict):
        return {k: strip_ids(v) for k, v in o.items() if k not in ("d", "did", "hold")}
    if isinstance(o, list):
        return [strip_ids(x) for x in o]
    return o


def explain_diff(pa, pb, a, b):
    """Accept a difference that consists of extra local declarations used by checks only, and extra statements that
    write nothing but those."""
    for (px, x), (py, y) in (((pa, a), (pb, b)), ((pb, b), (pa, a))):
        # find declarations in y that no non-check code reads
        eff = Effects(py)
        only = set()
        changed = True
        decls = {v["d"]: v for v in walk(y["body"]) if v["k"] == "var"} if y.get("body") else {}
        base = Canon
        for _ in range(3):
            used = set()

            def rec(n, inside):
                if n is None:
                    return
                if is_check_stmt(n) and n["k"] in ("expr", "do", "if", "null"):
                    return
                if in_check(n):
                    return
                if n["k"] == "decl" and n["vars"] and all(v["d"] in only for v in n["vars"]):
                    return
                if n["k"] == "expr" and root_write(n["x"]) in only and root_write(n["x"]) is not None:
                    return
                if n["k"] == "ref":
                    used.add(n["d"])
                if n["k"] == "lambda":
                    lf = py.functions.get("lambda:%d:%d" % n["did"])
                    if lf:
                        rec(lf["body"], inside)
                for c in children(n):
                    rec(c, inside)
            rec(y["body"], False)
            new = set(d for d in decls if d not in used)
            if new == only:
                break
            only = new
        if not only:
            continue
        for d in only:
            v = decls[d]
            if v.get("init"):
                if impure(py, eff, y, v):
                    return False, "a declaration for a check has an effect"

        def strip(o):
            if isinstance(o, dict):
                if o.get("k") == "block":
                    o = dict(o)
                    o["s"] = [strip(s) for s in o["s"] if not (
                        s and (s["k"] == "decl" and s["vars"] and all(v["d"] in only for v in s["vars"])
                               or s["k"] == "expr" and root_write(s["x"]) is not None and root_write(s["x"]) in only))]
                    return o
                return {k: strip(v) for k, v in o.items()}
            if isinstance(o, list):
                return [strip(z) for z in o]
            return o
        y2 = dict(y)
        y2["body"] = strip(y["body"])
        decls_x = {v["d"]: v for v in walk(x["body"]) if v["k"] == "var"} if x.get("body") else {}
        if canon(x, px) == canon(y2, py):
            return True, "extra declarations are used by checks only and have no effect"
    return False, "beyond the check statements"


def root_write(x):
    if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
        return root_decl(x["x"])
    if x["k"] == "un" and x["op"] in ("++", "--", "post++", "post--"):
        return root_decl(x["x"])
    return None
