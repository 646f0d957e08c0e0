"""C04: removal lists are accepted exactly when acceptable, and refused before anything changes."""
from ..report import Report
from ..interp import *
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .serial import short_facts

THISV = mk("this")
N = "utreexo::Accumulator::m_num_leaves"
# operations on the accumulator's nodes and lookup that are not followed further: calling one is a change
CHANGES = ("SwapSubTrees", "FinalizeRemove", "NewLeaf", "MergeRoot", "UpdatePositionMapForRange", "UpdatePositionMapForSubtreeSwap",
           "Add", "SwapRange", "RestoreRoots", "Prune")
QUIET = ("ReHash", "Parent", "GetHash", "BuildUndoBatch", "ParentHash")


def last(n):
    return n.split("::")[-1]


def opaque(f):
    if f.get("cls") == "utreexo::ForestState":
        return not f.get("ctor") and last(f["n"]) != "CheckTargetsSanity"
    return last(f["n"]) in CHANGES or last(f["n"]) in QUIET or f["n"].startswith("utreexo::_")


def hook(I, kind, st, n, kw):
    if I.kap and kind in ("branch", "store"):
        for v in (st.facts if kind == "branch" else (kw["val"],)):
            if any(x.op == "rd" and x.args[0].op == "arr" and x.args[0].args[0].op == "sym" and I.kap[0] in syms(x.args[1]) for x in subterms(v)):
                I.reading.update(k.args[0] for k in I.kap)
    if kind == "call" and last(kw["f"]["n"]) in CHANGES and kw["o"] is not None:
        st.note = st.note + ("%s called at %s" % (last(kw["f"]["n"]), loc(I.fr.fn, n)),)


def acceptable(T, n):
    """Facts of an acceptable non-empty list."""
    sz = vsize(T)
    b = mk("bv", 1)
    asc = forall(sub(sz, ONE), 1, lt(rd(varr(T), b, 1), rd(varr(T), add(b, ONE), 1)))
    return asc, lt(rd(varr(T), sub(sz, ONE), 1), n)


def entails_accept(s, T, n):
    if s.holds(eq0(vsize(T))):
        return True
    asc, fit = acceptable(T, n)
    # one element is always ascending
    return (s.holds(asc) or s.holds(eq0(sub(vsize(T), ONE)))) and s.holds(fit)


def excludes_accept(s, T, n):
    """The facts contradict an acceptable list (strictly ascending numbers below n are at most n many)."""
    s2 = s.copy()
    sz = vsize(T)
    if not s2.holds(le(ONE, sz)):
        return False
    if not s2.assume(le(sz, n)):
        return True
    asc, fit = acceptable(T, n)
    if not s2.assume(fit):
        return True
    s2.add(asc)
    # consequences of ascending order at the positions the path looked at
    ix = {sub(sz, ONE)}
    for f in s.facts:
        for x in subterms(f):
            if x.op == "rd" and x.args[0] is varr(T) and not has_op(x.args[1], {"bv"}):
                ix.add(x.args[1])
    ix = sorted(i for i in ix if s2.holds(le(ZERO, i)) and s2.holds(lt(i, sz)))
    el = lambda i: rd(varr(T), i, 1)
    for i in ix:
        for j in ix:
            if i is not j and s2.holds(lt(i, j)):
                s2.add(lt(el(i), el(j)))
            elif i is not j and s2.holds(le(i, j)):
                s2.add(le(el(i), el(j)))
    for f in list(s.facts):
        t = s2.copy()
        t.facts.pop(f, None)
        t._le, t._memo = None, {}
        if t.refuted(f):
            return True
    return s2.holds(FALSE)


def clean(s, T=None, n=None, loops=()):
    """Are the facts (about the list and the leaf count) exact? `loops`: those whose bodies look at list elements."""
    if any(x.op == "phi" and x.args[0][:2] in loops for f in s.facts for x in subterms(f)):
        return False
    if T is None:
        return all(exact(f) for f in s.facts)

    def about(f):
        return any(x is n or x is vsize(T) or x.op == "rd" and x.args[0] is varr(T) for x in _top(f))
    return all(exact(f) for f in s.facts if about(f))


def _top(f):
    """Integer atoms a literal is about (not those inside opaque calls)."""
    if f.op in ("all", "not", "and", "or", "iff", "ite"):
        return {y for x in f.args if isinstance(x, T_) for y in _top(x)}
    if f.op in ("le", "eq"):
        return set(dec(f.args[0])[1])
    return {f}


def outcomes(I, ex):
    out = []
    for s, v in ex:
        b = I.tobool(v)
        for val in (True, False):
            s2 = s.copy()
            if s2.assume(b if val else not_(b)):
                out.append((s2, val))
    return out


def judge_exits(r, I, f, ex, T, n, who, changes):
    where = "%s:%d %s" % (f["f"], f["l"], who)
    for s, val in outcomes(I, ex):
        if val:
            if entails_accept(s, T, n):
                r.ob("accepted list", where, "path facts entail that the list is strictly ascending and inside the forest, or empty")
            elif clean(s, T, n, I.reading) and not I.notes:
                r.violation("accepts-bad:" + who, where, "returns true for a list that need not be strictly ascending and inside the forest; path facts: %s" % short_facts(s))
            else:
                r.undecided(where, "accepting path: " + short_facts(s)[:200])
            continue
        if excludes_accept(s, T, n):
            r.ob("refused list", where, "path facts contradict an acceptable list")
        elif clean(s, T, n, I.reading) and not I.notes:
            r.violation("refuses-good:" + who, where, "returns false although the list may be acceptable; path facts: %s" % short_facts(s))
        else:
            r.undecided(where, "refusing path: " + short_facts(s)[:200])
        if not changes:
            continue
        ch = [q for q, h in fields_changed(s).items() if final(s, q) is not hsel(hb(q), THISV)]
        if s.note:
            r.violation("changed:" + who, where, "returns false after a change to the accumulator (%s)" % "; ".join(s.note[:3]))
        elif any(exact(final(s, q)) for q in ch):
            r.violation("changed:" + who, where, "returns false after writing %s" % ", ".join(sorted(last(q) for q in ch)))
        elif ch:
            r.undecided(where, "refusing path may have written " + ", ".join(sorted(ch)))
        else:
            r.ob("refusal changes nothing", where, "no member written and no changing operation called on this path")


def check(tier):
    r = Report("C04", tier,
               "Abstract interpretation with universally quantified path facts: on every path of the target check and of every modify "
               "operation that returns true, the facts must entail 'empty, or strictly ascending with the last element below the leaf "
               "count'; on every path that returns false they must contradict it, and no accumulator member may have been written nor a "
               "changing operation called. Operations after the check are shown not to fail.",
               ["a forest's bottom row holds at least as many hashes as it has leaves (class invariant)", "container sizes are below 2^62"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        # the check itself
        f = prog.fn("utreexo::ForestState::CheckTargetsSanity")
        r.analysed(f)
        I = Interp(prog, effects=eff, opaque=opaque, hook=hook)
        nl = hsel(hb("utreexo::ForestState::m_num_leaves"), THISV)
        ex = I.run(f)
        judge_exits(r, I, f, ex, sym("in:" + f["params"][0]["n"]), nl, "utreexo::ForestState::CheckTargetsSanity", False)
        # steps that follow the removal may not fail
        for name, np, world, assume in (
                ("utreexo::Accumulator::Add", 1, "utreexo::Pollard", None), ("utreexo::RamForest::Add", 1, "utreexo::RamForest", None),
                ("utreexo::RamForest::BuildUndoBatch", 3, "utreexo::RamForest", "row")):
            f = prog.fn(name, nparams=np)
            r.analysed(f)
            I = Interp(prog, world=world, effects=eff, hook=None,
                       opaque=lambda g, me=f: g is not me and (last(g["n"]) in ("NewLeaf", "MergeRoot", "Read", "ParentHash") or g.get("cls") == "utreexo::ForestState" and not g.get("ctor")
                                                               or name != "utreexo::RamForest::Add" and last(g["n"]) == "Add"),
                       results={"utreexo::Accumulator::Add": TRUE} if name == "utreexo::RamForest::Add" else None)
            ass = []
            if assume:
                d = hsel(hb("utreexo::RamForest::m_data"), THISV)
                T = sym("in:" + f["params"][2]["n"])
                ass = [le(ONE, vsize(d)), le(add(hsel(hb(N), THISV), vsize(T)), vsize(rd(varr(d), ZERO, 1)))]
            where = "%s:%d %s" % (f["f"], f["l"], name)
            bad = False
            for s, val in outcomes(I, I.run(f, assume=ass)):
                if val:
                    r.ob("cannot fail after the removal", where, "path returns success")
                elif clean(s) and not I.notes:
                    r.violation("late-failure:" + name, where, "can fail after the removal was carried out; path facts: %s" % short_facts(s))
                else:
                    r.undecided(where, "a failing path: " + short_facts(s)[:200])
        # the operations
        done = 0
        for f in sorted(prog.functions.values(), key=lambda f: f["n"]):
            if last(f["n"]) != "Modify" or not f["n"].startswith("utreexo::") or f.get("body") is None:
                continue
            tp = [p for p in f["params"] if p["t"].k == "ref" and p["t"].to.tmpl == "std::vector" and p["t"].to.targs and p["t"].to.targs[0].k == "int"]
            if len(tp) != 1:
                r.undecided(f["n"], "no single list of positions among its parameters")
                continue
            T = sym("in:" + tp[0]["n"])
            worlds = ("utreexo::Pollard", "utreexo::RamForest") if f["cls"] == "utreexo::Accumulator" else (f["cls"],)
            for w in worlds:
                I = Interp(prog, world=w, effects=eff, opaque=opaque, hook=hook,
                           results={"utreexo::Accumulator::Add": TRUE, "utreexo::RamForest::Add": TRUE, "utreexo::Pollard::Add": TRUE, "utreexo::RamForest::BuildUndoBatch": TRUE})
                r.analysed(f)
                ex = I.run(f)
                for x in I.notes:
                    r.undecided(f["n"], "not modelled: " + x)
                judge_exits(r, I, f, ex, T, hsel(hb(N), THISV), "%s (%s)" % (f["n"], last(w)), True)
                done += 1
        if done < 3:
            r.undecided("utreexo::*::Modify", "expected three modify operations, found %d" % done)
    return r
