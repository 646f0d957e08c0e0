"""C13: the leaf lookup follows the leaves."""
from ..facts import AnalysisError, fn_nodes, walk
from ..report import Report
from ..interp import *
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .c04 import N, THISV, last, outcomes
from .serial import short_facts

PM = "utreexo::Accumulator::m_posmap"
ROOTS = "utreexo::Accumulator::m_roots"
ROWS = "utreexo::RamForest::m_data"
LEAF1, LEAF2 = "std::pair::first", "std::pair::second"
MOVES = {"SwapSubTrees": "UpdatePositionMapForSubtreeSwap", "SwapRange": "UpdatePositionMapForRange"}
UPDATES = {v: k for k, v in MOVES.items()}
EVENTS = tuple(MOVES) + tuple(UPDATES) + ("FinalizeRemove", "NewLeaf")
STEPS = EVENTS + ("Read", "ReadLeafRange", "ReadSiblings", "MergeRoot", "ReHash", "ReHashNoPrune", "ReHashAndVerify", "RestoreRoots", "ParentHash",
                  "CreateProofTree", "VerifyProofTree", "Chop", "ChopLeft", "ChopRight", "Prune", "CheckSanity", "Parent", "GetHash", "Add", "Remove",
                  "Modify", "Undo", "Verify", "BuildUndoBatch", "MarkAsValid", "GetLeaf")


def opaque_for(root, inline=()):
    def opaque(f):
        if f is root:
            return False
        if f.get("cls") == "utreexo::ForestState":
            return not f.get("ctor") and last(f["n"]) not in inline
        return last(f["n"]) in STEPS or f["n"].startswith("utreexo::_")
    return opaque


def uncertain(t):
    return has_op(t, {"phi", "unk", "trunc", "ite", "site", "uninit"})


class Run:
    """One function of one class, interpreted with its calls of steps recorded."""

    def __init__(self, r, prog, eff, f, world=None, peel=0, inline=()):
        self.r, self.f, self.prog = r, f, prog
        self.who = f["n"]
        self.where = "%s:%d %s" % (f["f"], f["l"], f["n"])
        self.loops = []
        self.I = I = Interp(prog, world=world or f["cls"], effects=eff, opaque=opaque_for(f, inline), hook=self.hook)
        I.peel = peel
        self.ok = True
        r.analysed(f)
        try:
            self.ex = I.run(f)
        except (AnalysisError, Limit) as e:
            self.ex, self.ok = [], False
            r.undecided(self.where, str(e))
        for x in I.notes:
            r.undecided(self.where, "not modelled: " + x)
        self.sure = self.ok and not I.notes

    def hook(self, I, kind, st, n, kw):
        if kind == "call" and last(kw["f"]["n"]) in EVENTS and I.opaque(kw["f"]):
            args = tuple(I.read(st, a) if a.op == "lv" else a for a in kw["args"])
            st.note = st.note + (("ev", last(kw["f"]["n"]), args, heap(st, N), heap(st, PM), loc(I.fr.fn, n)),)
        elif kind == "loop":
            out = [(k, s.copy(), v) for k, s, v in kw["out"]]
            self.loops.append((kw["kap"], kw["head"], kw["entry"], kw["back"], out, loc(I.fr.fn, n), n))
            for h in getattr(self, "onloop", []):
                h(I, st, n, kw)

    def bad(self, key, where, text, known=True):
        if known and self.sure:
            self.r.violation("%s:%s" % (key, self.who), where, "%s: %s" % (last(self.who) if "::" in self.who else self.who, text))
        else:
            self.r.undecided(where, text)

    def good(self, rule, text, where=None):
        self.r.ob(rule, where or self.where, text)


def heap(s, q):
    return hsel(s.env.get(("h", q), hb(q)), THISV)


def at(env, q):
    return hsel(env.get(("h", q), hb(q)), THISV)


def puts(m, base):
    """[(kind, key, value)] that lead from map base to map m, oldest first; None if they do not."""
    out = []
    while m is not base:
        if m.op == "mput":
            out.append(("put", m.args[1], m.args[2]))
        elif m.op == "merase":
            out.append(("erase", m.args[1], None))
        else:
            return None
        m = m.args[0]
    return out[::-1]


def events(s, e=None):
    k = len([x for x in e.note if x[0] == "ev"]) if e is not None else 0
    return [x for x in s.note if x[0] == "ev"][k:]


def names(fs, *ns):
    return [f for f in fs if last(f["n"]) in ns]


def stops_short(s, kap, last_, hi):
    """There is an exit after a round whose successor last_ is still below hi."""
    s = s.copy()
    s.add(le(ONE, kap))
    for g in list(s.facts):
        if g.op == "all" and g.args[0] is kap:
            s.add(all_at(g, sub(kap, ONE)))
    return s.prove_le(sub(add(last_, ONE), hi))


def sure_round(b, kap):
    """The conditions of this round are all known exactly."""
    for g in b.facts:
        if kap in syms(g) and uncertain(g):
            c, d = dec(g.args[0]) if g.op == "le" else (0, {})
            if g.op == "le" and c <= 0 and len(d) == 1 and all(x.op == "phi" and k < 0 for x, k in d.items()):
                continue
            return False
    return True


def head_of(lp, q):
    kap, head, entry = lp[:3]
    return hsel(head.get(("h", q), entry.env.get(("h", q), hb(q))), THISV)


def read_at(x):
    """The position whose stored hash x is, and the state it was read in."""
    if x.op == "oval":
        x = x.args[0]
    if x.op == "call" and last(x.args[0]) in ("Read", "GetLeaf"):
        args = [a for a in x.args[1:] if isinstance(a, T_)]
        args = [a for a in args if a is not THISV and a.op != "heapv"]
        hv = [a for a in x.args[1:] if isinstance(a, T_) and a.op == "heapv"]
        return (args[-1] if args else None), dict(hv[0].args[0]) if hv else {}
    return None, {}


# ---------------------------------------------------------------- moves

def moves(r, prog, eff, fs):
    """Whoever moves leaves has updated the lookup for exactly that move right before."""
    calls = {}
    for f in fs:
        cs = {last(n["fn"]["n"]) for n in fn_nodes(f) if n["k"] == "call" and (n["fn"].get("n") or "").startswith("utreexo::")}
        calls[f["key"]] = cs
    inside = any(calls[f["key"]] & set(UPDATES) for f in names(fs, *MOVES))
    for f in fs:
        cs = calls[f["key"]]
        if last(f["n"]) in MOVES or not (cs & set(MOVES)):
            continue
        if not cs & set(UPDATES) and inside:
            r.undecided(f["n"], "the lookup is updated inside the moving steps")
            continue
        for world in ("utreexo::Pollard", "utreexo::RamForest") if f.get("cls") == "utreexo::Accumulator" else (f.get("cls"),):
            R = Run(r, prog, eff, f, world)
            seqs = []
            for lp in R.loops:
                if lp[0].args[1]:
                    pass
                seqs += [(b, events(b, lp[2]), lp[5]) for b in lp[3]]
            seqs += [(s, events(s), R.where) for s, _ in R.ex]
            n = 0
            for s, ev, where in seqs:
                pend = None
                for _, name, args, _, _, w in ev:
                    if name in UPDATES:
                        if pend:
                            R.bad("update-without-move", pend[2], "the lookup is updated for a move that does not follow")
                        pend = (name, args, w)
                    elif name in MOVES:
                        n += 1
                        if pend is None:
                            R.bad("move-without-update", w, "leaves are moved without updating the lookup before")
                            continue
                        m = match(s, name, args, pend)
                        if m:
                            R.good("update before move", "%s updates the lookup for the positions it moves, right before" % last(f["n"]), w)
                        else:
                            R.bad("wrong-update", w, "the lookup is updated for other positions than those moved next", m is False)
                        pend = None
                if pend:
                    R.bad("update-without-move", pend[2], "the lookup is updated for a move that does not follow")
            if not n and R.ok:
                r.undecided(R.where, "no move seen on any path")


def match(s, name, args, pend):
    u, b, _ = pend
    if UPDATES[u] != name or len(args) != len(b):
        return None
    def eq(x, y):
        return x is y or s.holds(eq0(sub(x, y)))
    if all(eq(x, y) for x, y in zip(args[2:], b[2:])) and (eq(args[0], b[0]) and eq(args[1], b[1]) or eq(args[0], b[1]) and eq(args[1], b[0])):
        return True
    if any(uncertain(x) for x in args + b):
        return None
    return False


def subtree_update(r, prog, eff, f):
    R = Run(r, prog, eff, f, "utreexo::Pollard")
    a, b = [sym("in:" + p["n"]) for p in f["params"]][:2]
    n0 = hsel(hb(N), THISV)
    for s, _ in R.ex:
        ev = [x for x in events(s) if x[1] in UPDATES]
        if len(ev) != 1 or len(ev[0][2]) != 3:
            R.bad("subtree", R.where, "the leaves below two swapped nodes are not updated exactly once", not ev)
            continue
        x, y, rng = ev[0][2]
        def left(t, p):
            """t is the leftmost leaf below p: its row, or None."""
            if t.op == "call" and last(t.args[0]) == "LeftDescendant" and t.args[1] is n0 and t.args[2] is p:
                return t.args[3]
            return None
        rows = [left(x, a), left(y, b)] if left(x, a) is not None else [left(x, b), left(y, a)]
        def isrow(t):
            return t is not None and t.op == "call" and last(t.args[0]) == "DetectRow" and t.args[1] is n0 and t.args[2] in (a, b)
        sized = [t for t in subterms(rng) if t.op == "call" and last(t.args[0]) == "DetectRow"]
        if all(isrow(t) for t in rows) and sized and isrow(sized[0]) and rng is shl(ONE, sized[0]):
            R.good("subtree update", "the leaves below both nodes: leftmost descendants, 2^row many")
        else:
            known = all(t is not None for t in rows) and not any(uncertain(t) for t in rows + [rng]) and (not all(isrow(t) for t in rows) or rng.op in ("num", "shl", "lin", "div"))
            R.bad("subtree", ev[0][5], "the lookup is updated for other leaves than those below the swapped nodes", known)


def range_update(r, prog, eff, f):
    R = Run(r, prog, eff, f, "utreexo::Pollard")
    frm, to, rng = [sym("in:" + p["n"]) for p in f["params"]][:3]
    starts = {frm: sub(to, frm), to: sub(frm, to)}
    pm0 = hsel(hb(PM), THISV)
    covered = set()
    looked = False

    def source(x):
        """Start of the range x is an element of, and its index."""
        if x.op == "rd" and x.args[0].op == "arr":
            c = x.args[0].args[0]
            if c.op == "call" and last(c.args[0]) == "ReadLeafRange":
                args = [a for a in c.args[1:] if isinstance(a, T_) and a is not THISV and a.op != "heapv"]
                if len(args) == 2 and (args[1] is rng):
                    return args[0], x.args[1], c
        p, _ = read_at(x)
        if p is not None:
            for st in starts:
                d = sub(p, st)
                if st not in syms(d) and (to if st is frm else frm) not in syms(d):
                    return st, d, None
        return None, None, None
    for lp in R.loops:
        kap, head, entry, back, out, w, n = lp
        hv = head_of(lp, PM)
        done = set()
        for b in back:
            nv = heap(b, PM)
            ch = puts(nv, hv)
            if ch is None:
                R.bad("range", w, "how the lookup changes in this loop is not known", False)
                continue
            keys = set()
            for kind, x, v in ch:
                looked = True
                st, ix, c = source(x)
                if st not in starts:
                    R.bad("range", w, "an entry that does not belong to the two ranges is changed", kind == "erase" and not uncertain(x))
                    continue
                if kind == "erase":
                    R.bad("range-erase", w, "the entry of a leaf that is moved is erased")
                    continue
                keys.add((st, ix))
                d = sub(v, mget(hv, x, b.holds))
                # the i-th element of a list of leaves need not be the leaf at the i-th position: leaves that are not held are left out
                alt = sub(v, add(add(st, starts[st]), ix)) if c is None else None
                if d is starts[st] or alt is ZERO:
                    R.good("range update", "a leaf of the range at '%s' gets its position plus %s" % (st.args[0][3:], d), w)
                elif not has_op(v, {"phi", "unk", "trunc", "ite"}) and exact(v) or (not has_op(d, {"phi", "unk", "trunc", "ite"}) and syms(d) <= {frm, to, rng}):
                    R.bad("range-position", w, "a moved leaf gets the position %s" % short(v))
                else:
                    R.bad("range-position", w, "position given to a moved leaf: %s" % short(v), False)
            for x in {y.args[1] for g in b.facts for y in subterms(g) if y.op == "mhas" and y.args[0] is hv}:
                st, ix, c = source(x)
                if st in starts and b.holds(not_(mhas(hv, x))):
                    keys.add((st, ix))
            done |= keys
            for st in starts:
                if keys and not any(k[0] is st for k in keys) and any(k[0] is st for k in done):
                    pass
        # does every round treat an element, and do the rounds reach the end of the range?
        for st in starts:
            per = []
            for b in back:
                ok = any(source(x)[0] is st and source(x)[1] is kap for kind, x, v in puts(heap(b, PM), hv) or ()) or \
                    any(source(y.args[1])[0] is st and source(y.args[1])[1] is kap and b.holds(not_(y)) for g in b.facts for y in subterms(g)
                        if y.op == "mhas" and y.args[0] is hv)
                per.append(ok)
            if back and all(per):
                cs = [c for g in [1] for b in back for kind, x, v in puts(heap(b, PM), hv) or () for s0, i0, c in [source(x)] if s0 is st]
                ends = [vsize(c) for c in cs if c is not None] + [rng]
                if all(any(s.holds(le(e, kap)) for e in ends) for k, s, _ in out if k in ("n", "exit", "b")):
                    covered.add(st)
            elif any(per):
                R.bad("range-skips", w, "some leaves of the range at '%s' are left out" % st.args[0][3:], False)
    if looked or not R.loops:
        for st in starts:
            if st in covered:
                R.good("range covered", "every leaf of the range at '%s' is looked up" % st.args[0][3:])
            else:
                some = any(source(x)[0] is st for lp in R.loops for b in lp[3] for k, x, v in puts(heap(b, PM), head_of(lp, PM)) or ())
                R.bad("range-uncovered", R.where, "the leaves of the range at '%s' are not all updated" % st.args[0][3:], not some and R.ok)
    else:
        r.undecided(R.where, "no update of the lookup found in a loop")
    for s, _ in R.ex:
        if heap(s, PM) is pm0 and not s.holds(eq0(mk("msz", pm0))) and not s.holds(eq0(rng)):
            # no round was entered
            sizes = [y for g in s.facts for y in subterms(g) if y.op == "sz" and y.args[0].op == "call" and last(y.args[0].args[0]) == "ReadLeafRange"]
            if len([z for z in set(sizes) if s.holds(eq0(z))]) >= 1:
                continue
            R.bad("range-return", R.where, "returns without looking at the ranges; path facts: %s" % short_facts(s), not any(uncertain(g) for g in s.facts))


def leaf_range(r, prog, eff, f):
    """The leaves of a range: every held leaf at positions [pos, pos+range)."""
    R = Run(r, prog, eff, f)
    pos, rng = [sym("in:" + p["n"]) for p in f["params"]][:2]
    seen = False
    for lp in R.loops:
        kap, head, entry, back, out, w, _ = lp
        for b in back:
            got = []
            for k, v in b.env.items():
                h = head.get(k, entry.env.get(k))
                if k[0] != "v" or h is None or h.op not in ("vec", "phi") or v.op != "vec":
                    continue
                d = diff(varr(v), varr(h))
                if d is None:
                    R.bad("leaves", w, "what a round adds to the list of leaves is not known", False)
                elif d:
                    got += [read_at(x)[0] for _, x, _ in d]
            seen = seen or bool(got)
            if got == [add(pos, kap)]:
                R.good("leaf range", "a round collects the leaf at its position", w)
            elif got:
                R.bad("leaves-wrong", w, "a round collects the leaf at %s" % ", ".join(short(x) if x is not None else "?" for x in got),
                      None not in got and not any(uncertain(x) for x in got) and len(got) == 1 and
                      (kap not in syms(got[0]) or sub(got[0], add(pos, kap)) in (ONE, num(-1))))
            else:
                miss = [y for g in b.facts for y in subterms(g) if y.op == "ohas" and b.holds(not_(y)) and read_at(y.args[0])[0] is add(pos, kap)]
                if miss:
                    R.good("leaf range", "a leaf that is not held is left out", w)
                else:
                    R.bad("leaves-skip", w, "a leaf of the range is left out; facts: %s" % short_facts(b), R.I.joins == 0 and seen and sure_round(b, kap))
        ends = [s for k, s, _ in out if k in ("n", "exit", "b")]
        if ends and all(s.holds(le(rng, kap)) for s in ends):
            R.good("whole range", "the rounds cover the range", w)
        elif seen:
            R.bad("leaves-end", w, "the end of the range is left out", any(stops_short(s, kap, kap, rng) for s in ends))
    if not seen:
        r.undecided(R.where, "no loop that collects the leaves of a range")


def short(t):
    return str(t)[:120]


# ---------------------------------------------------------------- single operations

def new_leaf(r, prog, eff, f):
    R = Run(r, prog, eff, f)
    leaf = sym("in:" + f["params"][0]["n"])
    pm0, n0 = hsel(hb(PM), THISV), hsel(hb(N), THISV)
    x = fld(leaf, LEAF1)
    always = f["cls"] != "utreexo::Pollard"
    rem = R.I.tobool(fld(leaf, LEAF2))
    for s, _ in R.ex:
        pm = heap(s, PM)
        ch = puts(pm, pm0)
        if ch is None:
            R.bad("new-leaf", R.where, "the lookup after adding a leaf is not known", False)
            continue
        wanted = True if always or s.holds(rem) else False if s.refuted(rem) else None
        if not ch:
            if wanted is False:
                R.good("new leaf", "a leaf that is not to be remembered is left out of the lookup")
            else:
                R.bad("new-leaf-missing", R.where, "a new leaf is not put into the lookup", wanted is True or not s.holds(not_(rem)))
            continue
        last_ = {}
        for kind, k, v in ch:
            last_[k] = (kind, v)
        for k, (kind, v) in last_.items():
            if k is not x:
                R.bad("new-leaf-key", R.where, "adding a leaf changes the entry of another hash (%s)" % short(k), not uncertain(k) and exact(k))
            elif kind == "erase":
                R.bad("new-leaf-missing", R.where, "adding a leaf erases its entry", not uncertain(v) if v is not None else True)
            elif wanted is False:
                R.bad("new-leaf-unwanted", R.where, "a leaf that is not to be remembered is put into the lookup")
            elif wanted is None and not always:
                R.bad("new-leaf-unwanted", R.where, "a leaf is put into the lookup whether it is to be remembered or not", not any(rem in set(subterms(g)) for g in s.facts))
            elif v is n0 or s.holds(eq0(sub(v, n0))):
                R.good("new leaf", "a new leaf is put into the lookup at the position it is stored at")
            else:
                R.bad("new-leaf-position", R.where, "a new leaf gets position %s" % short(v), not uncertain(v) and exact(v))


def add_loop(r, prog, eff, f):
    for world in ("utreexo::Pollard", "utreexo::RamForest"):
        R = Run(r, prog, eff, f, world)
        leaves = sym("in:" + f["params"][0]["n"])
        n = 0
        for lp in R.loops:
            kap, head, entry, back, out, w, _ = lp
            evs = [[x for x in events(b, entry) if x[1] == "NewLeaf"] for b in back]
            if not any(evs):
                continue
            n += 1
            hn = head_of(lp, N)
            for b, ev in zip(back, evs):
                if len(ev) != 1:
                    R.bad("add", w, "a round of the loop over new leaves adds %d leaves" % len(ev), not any(uncertain(g) for g in b.facts) and not R.I.joins)
                    continue
                arg = ev[0][2][0]
                if arg is not rd(varr(leaves), kap, 1):
                    R.bad("add", w, "which leaf is added in a round is not known", False)
                elif ev[0][3] is not hn:
                    R.bad("add-order", w, "a leaf is added after the leaf count was changed", not uncertain(sub(ev[0][3], hn)))
                elif sub(heap(b, N), hn) is not ONE:
                    R.bad("add-count", w, "the leaf count grows by %s per leaf" % short(sub(heap(b, N), hn)), not uncertain(sub(heap(b, N), hn)))
                else:
                    R.good("leaf by leaf", "each round adds one leaf at the current leaf count and then counts it", w)
            if all(s.holds(le(vsize(leaves), kap)) for k, s, _ in out if k in ("n", "exit")):
                R.good("all leaves", "the rounds cover all new leaves", w)
            else:
                R.bad("add-some", w, "not all new leaves are added", False)
        if not n and R.ok:
            r.undecided(R.where, "no loop that adds leaves")


def finalize(r, prog, eff, f):
    R = Run(r, prog, eff, f)
    nxt = sym("in:" + f["params"][0]["n"])
    pm0, n0 = hsel(hb(PM), THISV), hsel(hb(N), THISV)
    erased(R, nxt, n0, f["cls"] == "utreexo::Pollard")


def erased(R, lo, hi, optional, others=False):
    """Some loop takes exactly the leaves at positions lo..hi-1 out of the lookup, before anything is changed."""
    found = False
    for lp in R.loops:
        kap, head, entry, back, out, w, _ = lp
        hv = head_of(lp, PM)
        if not back:
            continue
        per = []
        for b in back:
            ch = puts(heap(b, PM), hv)
            per.append(ch)
        if all(c is not None and not c for c in per):
            continue
        if others and not any(c and any(k == "erase" for k, _, _ in c) for c in per):
            continue
        found = True
        firsts = set()
        for b, ch in zip(back, per):
            if ch is None:
                R.bad("erase", w, "how the lookup changes in this loop is not known", False)
                return
            if not ch:
                # nothing erased: the leaf must be absent
                hs = [y for g in b.facts for y in subterms(g) if y.op in ("ohas", "mhas")]
                absent = [y for y in hs if b.holds(not_(y))]
                if absent:
                    for y in absent:
                        p, _ = read_at(y.args[0] if y.op == "ohas" else y.args[1])
                        if p is not None:
                            firsts.add(sub(p, kap))
                    R.good("absent leaf", "a leaf that is not held has no entry", w)
                else:
                    R.bad("erase-skip", w, "a removed leaf stays in the lookup; facts of the round: %s" % short_facts(b),
                          R.I.joins == 0 and sure_round(b, kap))
                continue
            for kind, x, v in ch:
                if kind != "erase":
                    R.bad("erase-put", w, "an entry is added while removed leaves are erased", not uncertain(x) and not uncertain(v))
                    continue
                p, env = read_at(x)
                if p is None:
                    ix = x.args[1] if x.op == "rd" and x.args[0].op == "arr" and x.args[0].args[0].op == "rd" and is_num(x.args[0].args[0].args[1], 0) else None
                    if ix is None:
                        R.bad("erase", w, "which entry is erased is not known: %s" % short(x), False)
                        continue
                    p, env = ix, {}
                for q in (ROOTS, ROWS, N):
                    if not reads(R.prog, R.I, x, q):
                        continue
                    h = env.get(q)
                    if h is not None and not unchanged(h, q):
                        R.bad("erase-late", w, "removed leaves are read after %s was changed" % last(q), exact(h) and not uncertain(h) or
                              h.op == "hst" and h.args[0] is hb(q) and h.args[1] is THISV and not any(x is hsel(hb(q), THISV) for x in subterms(h.args[2])))
                        break
                else:
                    firsts.add(sub(p, kap))
                    R.good("erase", "the entry of the leaf stored at the position of the round is erased", w)
        if len(firsts) != 1:
            if firsts:
                R.bad("erase", w, "the positions of the rounds are not known", False)
            continue
        a = firsts.pop()
        same = a is lo or all(s.holds(eq0(sub(a, lo))) for s in back)
        if not same:
            d = sub(a, lo)
            R.bad("erase-start", w, "erasing starts at position %s" % short(a), not uncertain(a) and kap not in syms(a) and not any(s.holds(eq0(d)) for s in back) and exact(a))
            continue
        ends = [s for k, s, _ in out if k in ("n", "exit", "b")]
        if all(s.holds(le(hi, add(lo, kap))) for s in ends):
            R.good("all removed leaves", "the rounds cover every position up to the old leaf count", w)
        else:
            short_of = [s for s in ends if stops_short(s, kap, add(lo, kap), hi)]
            broke = any(k == "b" for k, s, _ in out)
            R.bad("erase-end", w, "erasing ends before the last removed leaf", bool(short_of) or broke and R.I.joins == 0)
    if not found:
        pm0 = hsel(hb(PM), THISV)
        ex = [s for s, _ in R.ex]
        # nothing is ever erased
        if ex and all(heap(s, PM) is pm0 for s in ex) and not others:
            R.bad("erase-none", R.where, "removed leaves stay in the lookup")
        else:
            R.bad("erase-none", R.where, "no loop that erases removed leaves found", others and R.ok and not mentions_erase(R))


def mentions_erase(R):
    return any(n["k"] == "call" and last(n["fn"].get("n") or "") in ("erase", "clear", "swap", "extract") for n in fn_nodes(R.f))


def unchanged(h, q):
    return h is hb(q)


def remove_order(r, prog, eff, f):
    targets = sym("in:" + f["params"][0]["n"])
    n0 = hsel(hb(N), THISV)
    for world in ("utreexo::Pollard", "utreexo::RamForest"):
        R = Run(r, prog, eff, f, world)
        for s, val in outcomes(R.I, R.ex):
            if not val or s.holds(eq0(vsize(targets))):
                continue
            ev = [x for x in events(s) if x[1] == "FinalizeRemove"]
            if len(ev) != 1:
                R.bad("finalize", R.where, "a removal is finished %d times" % len(ev), not any(uncertain(g) for g in s.facts) or not ev)
                continue
            want = sub(n0, vsize(targets))
            arg, nn = ev[0][2][0], ev[0][3]
            if nn is not n0:
                R.bad("finalize-late", ev[0][5], "the leaf count is changed before the removed leaves are erased", exact(nn) and not uncertain(nn) and nn.op != "hsel")
            elif arg is want:
                R.good("finish removal", "the leaves behind the new leaf count are erased while the old one is in place", ev[0][5])
            else:
                R.bad("finalize-count", ev[0][5], "the removed leaves are taken to start at %s" % short(arg), exact(arg) and not uncertain(arg))


def verify(r, prog, eff, f):
    R = Run(r, prog, eff, f)
    p, hashes = [sym("in:" + q["n"]) for q in f["params"]][:2]
    pm0 = hsel(hb(PM), THISV)
    B = "utreexo::BatchProof::"
    st = fld(p, B + "m_sorted_targets")
    seen = False
    full = False
    for lp in R.loops:
        kap, head, entry, back, out, w, _ = lp
        hv = head_of(lp, PM)
        per = [(b, puts(heap(b, PM), hv)) for b in back]
        if all(c is not None and not c for _, c in per):
            continue
        seen = True
        fine = True
        for b, ch in per:
            if ch is None:
                R.bad("remember", w, "how the lookup changes in this loop is not known", False)
                fine = False
                continue
            for kind, x, v in ch:
                if kind == "put" and x is rd(varr(hashes), kap, 1) and v is rd(varr(st), kap, 1):
                    R.good("remember", "hash i of an accepted proof is looked up at sorted target i", w)
                    continue
                fine = False
                ih = x.args[1] if x.op == "rd" and x.args[0] is varr(hashes) else None
                known = exact(x) and (v is None or exact(v)) and not uncertain(x) and (v is None or not uncertain(v)) and ih is not None and \
                    (kind == "erase" or v.op == "rd" or v.op in ("num", "lin"))
                if kind == "put" and v.op == "rd" and v.args[0] is varr(st) and ih is v.args[1]:
                    first = sub(ih, kap)
                    only = all(heap(s, PM) is pm0 or heap(s, PM).op == "phi" for s, val in R.ex) and first.op == "num" and first.args[0] > 0
                    R.bad("remember-start", w, "hash and target are taken at %s in round i" % short(ih), only)
                else:
                    R.bad("remember-wrong", w, "hash i of an accepted proof is looked up at %s" % (short(v) if v is not None else "nothing"), known)
            if not ch:
                fine = False
                R.bad("remember-skip", w, "some target of an accepted proof is left out of the lookup; facts: %s" % short_facts(b),
                      R.I.joins == 0 and sure_round(b, kap))
        ends = [s for k, s, _ in out if k in ("n", "exit", "b")]
        n_h = vsize(hashes)
        if fine and ends and all(s.holds(le(n_h, kap)) for s in ends):
            full = True
            R.good("all targets", "the rounds cover all target hashes", w)
        elif fine:
            some = [s for s in ends if stops_short(s, kap, kap, n_h)]
            R.bad("remember-end", w, "not all targets of an accepted proof are put into the lookup", bool(some) and R.I.joins == 0)
    for s, val in outcomes(R.I, R.ex):
        pm = heap(s, PM)
        if not val:
            if pm is pm0:
                R.good("rejected", "a rejected proof leaves the lookup alone")
            else:
                R.bad("rejected-changes", R.where, "a rejected proof changes the lookup", puts(pm, pm0) is not None)
        elif pm is pm0 and not s.holds(eq0(vsize(hashes))) and not any(s.holds(eq0(vsize(fld(p, B + q)))) for q in ("m_targets", "m_sorted_targets")):
            if any(eq0_of(g, vsize(hashes)) for g in s.facts):
                continue
            R.bad("remember-none", R.where, "an accepted proof does not put its targets into the lookup", not seen and R.ok and exact(pm))


def eq0_of(g, x):
    return g.op == "eq" and g.args[0] is x


def prune(r, prog, eff, f):
    R = Run(r, prog, eff, f)
    for s, _ in R.ex:
        pm = heap(s, PM)
        if pm is MEMPTY:
            R.good("prune", "the lookup is emptied")
        else:
            R.bad("prune", R.where, "entries stay in the lookup when all leaves are dropped", puts(pm, hsel(hb(PM), THISV)) is not None)


def consistent_stores(R, rule, given=None):
    """Wherever a leaf hash is stored in the bottom row in a loop, it is looked up at that index."""
    n = 0
    for lp in R.loops:
        kap, head, entry, back, out, w, _ = lp
        hp, hr = head_of(lp, PM), head_of(lp, ROWS)
        for b in back:
            ch = puts(heap(b, PM), hp)
            st = stores(heap(b, ROWS), hr)
            if ch is None or st is None:
                continue
            ps = {k: v for kind, k, v in ch if kind == "put"}
            for row, ix, h in st:
                if not is_num(row, 0):
                    continue
                n += 1
                if h not in ps:
                    R.bad(rule + "-missing", w, "a leaf is stored without an entry in the lookup", not ch and not elsewhere(R, lp))
                elif ps[h] is ix or b.holds(eq0(sub(ps[h], ix))) or given and simple(sub(ps[h], ix), given) is ZERO:
                    R.good(rule, "a stored leaf is looked up at the index it is stored at", w)
                else:
                    d = sub(ps[h], ix)
                    d = simple(d, given) if given else d
                    R.bad(rule + "-position", w, "a leaf stored at %s is looked up at %s" % (short(ix), short(ps[h])),
                          d.op == "num" or not uncertain(d) and not has_op(d, {"call"}))
            upper = [h for row, ix, h in st if b.holds(le(ONE, row))]
            if n and given is not None and not impossible(b) and any(h in upper and not any(x[2] is h and x[0] is ZERO for x in st) for h in ps):
                rest = [set(o.facts) for o in back if puts(heap(o, PM), hp) == []]
                why = set(b.facts) - set().union(*rest) if rest else set()
                R.bad(rule + "-inner", w, "the hash of an inner node is put into the lookup" + ("" if not why else "; when " + "; ".join(short(g) for g in sorted(why))),
                      not any(has_op(g, {"phi", "unk", "trunc", "ite", "site", "call"}) for g in why))
            for h, v in ps.items():
                if st is not None and not any(x[2] is h for x in st) and not st:
                    R.bad(rule + "-unstored", w, "a hash is put into the lookup that is not stored in this round", False)
    return n


def reads(prog, I, x, q):
    """The function that looks up the leaf uses field q."""
    if x.op == "oval":
        x = x.args[0]
    todo = [f for f in prog.functions.values() if x.op == "call" and f["n"] == x.args[0]]
    if not todo:
        return True
    seen = set()
    while todo:
        f = todo.pop()
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        for n in fn_nodes(f):
            if n["k"] == "member" and n.get("fld") == q:
                return True
            if n["k"] in ("call", "ctor") and isinstance(n.get("fn"), dict):
                g = prog.functions.get(n["fn"].get("usr"))
                if g is not None and g["n"].startswith("utreexo::"):
                    todo.append(g)
    return False


def impossible(s):
    """The facts of a state contradict each other."""
    return any(g.op == "le" and s.prove_le(sub(ONE, g.args[0])) for g in s.facts)


def elsewhere(R, lp):
    """Entries may be added to the lookup outside this loop."""
    inside = {id(n) for n in walk(lp[6])}
    harmless = set()
    for n in fn_nodes(R.f):
        if n["k"] == "call" and last(n["fn"].get("n") or "") in ("find", "end", "cend", "count", "contains", "size", "empty", "erase", "clear", "reserve") and n.get("obj"):
            harmless.add(id(n["obj"]))
    return any(n["k"] == "member" and n.get("fld") == PM and id(n) not in inside and id(n) not in harmless for n in fn_nodes(R.f))


def simple(d, given):
    """d with the rows taken as empty and the bottom row starting at position 0."""
    m = dict(given)
    for t in subterms(d):
        if t.op == "call" and last(t.args[0]) == "RowOffset" and t.args[2] is ZERO:
            m[t] = ZERO
    for t, v in m.items():
        d = replace(d, t, v)
    return d


def stores(v, base):
    """[(row, index, hash)] stored into the rows between the two values; None if unknown."""
    ch = diff(varr(v), varr(base))
    if ch is None:
        return None
    out = []
    for row, x, old in ch:
        inner = diff(varr(x), varr(old))
        if inner is None:
            return None
        out += [(row, ix, h) for ix, h, _ in inner]
    return out


def diff(a, b):
    """[(index, new, old)] of the elements stored between the two arrays; None if unknown."""
    out = []
    k = 0
    while a is not b:
        k += 1
        if k > 8:
            return None
        if a.op == "ext" and b.op == "ext" and a.args[0] is b.args[0] and a.args[1] is b.args[1] and a.args[3] is b.args[3] and a.args[2] is add(b.args[2], ONE):
            ix = add(a.args[1], scale(b.args[2], a.args[3]))
            out.append((ix, ext_body(a, b.args[2]), rd(b, ix, a.args[3])))
            return out
        if a.op == "ext" and a.args[0] is b and a.args[2] is ONE:
            out.append((a.args[1], ext_body(a, ZERO), rd(b, a.args[1], a.args[3])))
            return out
        if a.op != "st":
            return None
        ix, w = a.args[1], a.args[2]
        out.append((ix, a.args[3], rd(b, ix, w)))
        if b.op == "st" and b.args[1] is ix and b.args[2] == w:
            b = b.args[0]
        a = a.args[0]
    return out


def undo(r, prog, eff, f):
    R = Run(r, prog, eff, f)
    u = sym("in:" + f["params"][0]["n"])
    n0 = hsel(hb(N), THISV)
    adds = None
    g = prog.fn("utreexo::UndoBatch::GetNumAdds")
    I = Interp(prog)
    (s, v), = I.run(g)
    if v.op == "lv":
        v = I.read(s, v)
    adds = fld(u, v.args[0].args[0]) if v.op == "hsel" else replace(v, THISV, u)
    erased(R, sub(n0, adds), n0, False, True)
    n = consistent_stores(R, "restored leaf")
    if not n:
        r.undecided(R.where, "no loop that puts deleted leaves back")
    put = False
    for lp in R.loops:
        hv = head_of(lp, PM)
        per = [puts(heap(b, PM), hv) for b in lp[3]]
        if any(c and any(k == "erase" for k, _, _ in c) for c in per):
            if not put:
                R.good("erase first", "added leaves are erased before the deleted ones are put back: a leaf can be both", lp[5])
            else:
                R.bad("erase-last", lp[5], "leaves are erased after the deleted ones were put back: a leaf that was deleted and added again is lost",
                      len(per) == 1 and per[0] is not None and len(per[0]) == 1)
        put = put or any(c and any(k == "put" for k, _, _ in c) for c in per)


def restore(r, prog, eff, f):
    R = Run(r, prog, eff, f, peel=1)
    n = consistent_stores(R, "opened leaf", {vsize(rd(varr(hsel(hb(ROWS), THISV)), ZERO, 1)): ZERO})
    if not n:
        r.undecided(R.where, "no loop that restores leaves")


def reader(r, prog, eff, f):
    """A function that takes hold of the lookup without being one of the operations: it must leave it as it is."""
    if f.get("cls") not in ("utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest"):
        r.undecided(f["n"], "writes the leaf lookup and is not one of the operations decided")
        return
    R = Run(r, prog, eff, f, "utreexo::Pollard" if f["cls"] == "utreexo::Accumulator" else None)
    pm0 = hsel(hb(PM), THISV)
    if R.sure and R.ex and all(s.env.get(("h", PM), hb(PM)) is hb(PM) for s, _ in R.ex) and \
            all(b.env.get(("h", PM), hb(PM)) is lp[1].get(("h", PM), lp[2].env.get(("h", PM), hb(PM))) for lp in R.loops for b in lp[3]):
        R.good("reads only", "the lookup is left as it is")
    else:
        r.undecided(R.where, "writes the leaf lookup and is not one of the operations decided")


def check(tier):
    r = Report("C13", tier,
               "Abstract interpretation of every operation that adds, moves, removes, restores or remembers leaves, with the lookup as a "
               "symbolic map: the entry written or erased in each round or on each path is compared with the position the leaf is at; "
               "moving steps must be preceded by the update for the same positions; removed leaves are erased while they can still be "
               "read. Every function that writes the lookup must be one of those decided.",
               ["leaf hashes are distinct", "the rows are empty before a forest is restored, and the bottom row starts at position 0", "reading a stored hash returns the hash last stored at that position"])
    rules(r, tier)
    return r


def rules(r, tier):
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        fs = [f for f in prog.functions.values() if f["n"].startswith("utreexo::") and f.get("body") is not None and not f.get("implicit")]
        rules = [("UpdatePositionMapForSubtreeSwap", subtree_update, 1), ("UpdatePositionMapForRange", range_update, 1), ("ReadLeafRange", leaf_range, 2), ("NewLeaf", new_leaf, 2),
                 ("FinalizeRemove", finalize, 2), ("Prune", prune, 1), ("Undo", undo, 1)]
        moves(r, prog, eff, [f for f in fs if f.get("cls") in ("utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest")])
        judged = set()
        for name, rule, k in rules:
            gs = [f for f in names(fs, name) if f.get("cls") in ("utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest")]
            if name == "Prune":
                gs = [f for f in gs if f["cls"] == "utreexo::Pollard"]
            if len(gs) < k:
                r.undecided("utreexo", "%s not found" % name)
            for f in gs:
                rule(r, prog, eff, f)
                judged.add(f["key"])
        for f in fs:
            if f.get("cls") == "utreexo::Accumulator" and last(f["n"]) == "Add":
                add_loop(r, prog, eff, f)
            if f.get("cls") == "utreexo::Accumulator" and last(f["n"]) == "Remove":
                remove_order(r, prog, eff, f)
            if f.get("cls") == "utreexo::Pollard" and last(f["n"]) == "Verify":
                verify(r, prog, eff, f)
                judged.add(f["key"])
            if f.get("cls") == "utreexo::RamForest" and last(f["n"]) == "Restore":
                restore(r, prog, eff, f)
                judged.add(f["key"])
        eff.fields(fs[0])
        for f in fs:
            eff.fw.collect(f)
            if PM in (eff.fw.own[f["key"]] or ()) and f["key"] not in judged and not f.get("ctor") and "~" not in f["n"]:
                reader(r, prog, eff, f)
