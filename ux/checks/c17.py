"""C17: no failure inside the library is dropped."""
from ..report import Report
from ..facts import children, walk, fn_nodes, AnalysisError, loc
from ..interp import *
from ..terms import *
from ..terms import T as T_
from ..vc import program
from .serial import short_facts

# steps that report failure through their boolean result
STEPS = {"Modify", "Remove", "Add", "Prove", "Verify", "Undo", "BuildUndoBatch", "Restore", "Commit", "Unserialize", "CheckSanity",
         "CheckTargetsSanity", "IsSortedNoDupes", "CreateProofTree", "VerifyProofTree", "ReHashAndVerify"}


def last(n):
    return n.split("::")[-1]


def is_bool(f):
    return f.get("ret") is not None and f["ret"].k == "bool"


def callee(prog, f, x):
    if x["k"] in ("call", "mcall", "opcall") and x.get("fn"):
        return prog.lookup(x["fn"], f["tu"])
    return None


def bodies(prog, f):
    """Nodes of a function and of the lambdas in it."""
    todo = [f]
    while todo:
        g = todo.pop()
        for x in fn_nodes(g):
            yield g, x
            if x["k"] == "lambda":
                h = prog.functions.get("lambda:%d:%d" % x["did"])
                if h:
                    todo.append(h)


def fallible(prog):
    """Steps and boolean functions built from them."""
    calls = {}
    for f in prog.functions.values():
        if f["n"].startswith("utreexo::") and f.get("body") is not None and not f.get("lambda"):
            calls[f["key"]] = [(g, x, h) for g, x in bodies(prog, f) for h in [callee(prog, g, x)] if h is not None]
    out = {k for k in calls if last(prog.functions[k]["n"]) in STEPS and is_bool(prog.functions[k])}
    # a virtual step stands for its overriders
    grow = True
    while grow:
        grow = False
        for k, cs in calls.items():
            f = prog.functions[k]
            if k not in out and is_bool(f) and any(h["key"] in out for _, _, h in cs):
                out.add(k)
                grow = True
    contains = set(out)
    grow = True
    while grow:
        grow = False
        for k, cs in calls.items():
            if k not in contains and any(h["key"] in contains for _, _, h in cs):
                contains.add(k)
                grow = True
    return out, contains, calls


def discarded(f):
    """Expressions whose value is thrown away."""
    out = set()

    def drop(x):
        while x["k"] in ("cast", "paren", "implicit", "cleanup", "bind", "conv") and isinstance(x.get("x"), dict):
            out.add(id(x))
            x = x["x"]
        out.add(id(x))
        if x["k"] == "binop" and x.get("op") == ",":
            drop(x["b"])
    for x in fn_nodes(f):
        if x["k"] == "expr":
            drop(x["x"])
        elif x["k"] == "for" and x.get("inc"):
            drop(x["inc"])
        elif x["k"] == "binop" and x.get("op") == ",":
            drop(x["a"])
    return out


def check(tier):
    r = Report("C17", tier,
               "Fallible steps are the library's operations that report failure through a boolean result, and boolean functions that "
               "call one. At every call of a step: the result is not discarded; and on every path of the calling function that goes on "
               "although the result is (or may be) false, the function itself returns false, or throws where it cannot return a "
               "result. Destructors are exempt.",
               ["a step that fails has reported so through its result"])
    sites = {}
    for config in ("release", "ndebug") + (("verify", "verify-ndebug") if tier == "thorough" else ()):
        prog, eff = program(config)
        steps, contains, calls = fallible(prog)
        if len({last(prog.functions[k]["n"]) for k in steps} & STEPS) < 6:
            raise AnalysisError("the library's fallible steps were not found")
        count = sites.setdefault(config, {})
        for k in sorted(contains):
            f = prog.functions[k]
            cs = [(g, x, h) for g, x, h in calls[k] if h["key"] in steps]
            if not cs or "~" in f["n"]:
                continue
            r.analysed(f)
            gone = {}
            for g, x, h in cs:
                if id(g) not in gone:
                    gone[id(g)] = discarded(g)
                w = loc(g, x)
                count[(f["n"], h["n"])] = count.get((f["n"], h["n"]), 0) + 1
                if id(x) in gone[id(g)]:
                    r.violation("discarded:%s:%s" % (f["n"], h["n"]), w, "%s ignores the result of %s" % (f["n"], h["n"]))
                else:
                    r.ob("result used", w, "%s uses the result of %s" % (f["n"], last(h["n"])))
            paths(r, prog, eff, f, steps, contains)
    for a in sites:
        if "ndebug" in a:
            continue
        b = a.replace("verify", "verify-ndebug") if a == "verify" else "ndebug"
        for key, n in sites[a].items():
            m = sites.get(b, {}).get(key, 0)
            if m < n:
                r.violation("assert-only:%s:%s" % key, key[0], "%s calls %s only inside a check that can be compiled out" % key)
    return r


def paths(r, prog, eff, f, steps, contains):
    def opaque(g):
        return g is not f and (g["key"] in steps or g["key"] not in contains)
    bad = {}

    def hook(I, kind, st, n, kw):
        if kind == "result" and kw["f"]["key"] in steps:
            st.note = st.note + ((last(kw["f"]["n"]), I.tobool(kw["val"]), loc(I.fr.fn, n)),)
        elif kind == "loop":
            loop(I, kw, n)

    def loop(I, kw, n):
        e, head = kw["entry"], kw["head"]
        flows = [("n", s, None) for s in kw["back"]] + [x for x in kw["out"] if x[0] in ("b", "r")]
        for s in kw["back"]:
            for name, v, w in s.note:
                if (name, v, w) in e.note or s.holds(v):
                    continue
                failed = s.holds(not_(v))
                heap = any(k[0] == "h" and v in set(subterms(x)) for k, x in s.env.items())
                carry = [k for k in e.env if k in s.env and isinstance(s.env[k], T_) and s.env[k] is not head.get(k, e.env[k])
                         and (v in set(subterms(s.env[k])) or failed and s.env[k].op in ("true", "false", "num"))]
                if heap:
                    r.undecided(w, "result of %s is stored in an object" % name)
                elif not carry:
                    bad[("loop", w)] = (name, w, "the loop goes on whatever %s reported" % name)
                else:
                    # every later round and exit has to look at (or keep) one of the variables that carry the outcome
                    for k in carry:
                        hv = head.get(k)
                        if hv is None:
                            continue
                        lost = [x for kd, x, val in flows
                                if not any(hv in set(subterms(y)) for y in x.facts) and hv not in set(subterms(x.env.get(k, hv)))
                                and not (kd == "r" and val is not None and (hv in set(subterms(val)) or x.refuted(I.tobool(val))))]
                        if not lost:
                            r.ob("outcome kept around the loop", w, "the outcome of %s is looked at before it is replaced" % name)
                            break
                    else:
                        if len(carry) == 1 and not I.joins and not failed:
                            bad[("loop", w)] = (name, w, "the outcome of %s is replaced by a later one without being looked at" % name)
                        else:
                            r.undecided(w, "result of %s is carried around a loop" % name)
    for world in (("utreexo::Pollard", "utreexo::RamForest") if f.get("cls") == "utreexo::Accumulator" else (f.get("cls"),)):
        I = Interp(prog, world=world or "utreexo::Pollard", effects=eff, opaque=opaque, hook=hook)
        try:
            ex = I.run(f)
        except (AnalysisError, Limit) as e:
            r.undecided(f["n"], "paths: %s" % e)
            continue
        for s, val in ex:
            for name, v, w in s.note:
                if s.holds(v):
                    r.ob("failure cannot pass", w, "%s goes on only if %s succeeded" % (f["n"], name))
                    continue
                s2 = s.copy()
                s2.assume(not_(v))
                if not is_bool(f):
                    if s.holds(not_(v)) or not any(v in set(subterms(x)) for x in s.facts):
                        bad[("exit", w)] = (name, w, "%s returns normally although %s may have failed" % (f["n"], name))
                    else:
                        r.undecided(w, "%s after a failure of %s" % (f["n"], name))
                    continue
                b = I.tobool(val)
                if s2.refuted(b):
                    r.ob("failure is reported", w, "%s returns false if %s failed" % (f["n"], name))
                    continue
                known = s.holds(not_(v)) or not any(v in set(subterms(x)) for x in s.facts)
                mention = v in set(subterms(b))
                if known and (b is TRUE or s2.holds(b) or not mention and b.op == "call" and not has_op(b, {"phi", "unk"})):
                    bad[("exit", w)] = (name, w, "%s can return true although %s failed" % (f["n"], name))
                else:
                    r.undecided(w, "%s after a failure of %s" % (f["n"], name))
    for name, w, text in bad.values():
        r.violation("dropped:%s:%s" % (f["n"], name), w, text)
