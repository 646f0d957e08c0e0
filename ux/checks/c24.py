"""C24: a remembered leaf keeps its mark, its own node and the nodes of its proof until it is removed or pruned."""
from ..facts import AnalysisError
from ..report import Report
from . import c13
from .proofs import *
from .proofs import ASSUMED as PASSUMED
from . import proofs
from .serial import short_facts, verdict
from ..facts import walk

FIELDS = (NIECES, HASH, NODE, SIBL)
WALK = "ReadSiblings"


def opaque(f):
    return f.get("cls") == "utreexo::ForestState" and not f.get("ctor") or last(f["n"]) in ("Read", WALK, "ReadLeafRange")


def walked(t):
    """(walk, 0 for the node / 1 for its sibling) of a pointer found by walking down the tree."""
    t = peel_casts(t)
    if t.op in ("fld", "proj", "tget") and isinstance(t.args[0], T_) and t.args[0].op == "call" and last(t.args[0].args[0]) == WALK:
        return t.args[0], 1 if str(t.args[1]).endswith("1") else 0
    return None


class View:
    """The child links at the end of a path, with what is known about which nodes differ."""

    def __init__(self, I, s, pairs=(), h0=None):
        self.I, self.s, self.pairs = I, s, list(pairs)
        self.h0 = h0 if h0 is not None else hb(NIECES)
        self.h = I.heap(s, NIECES)
        self.facts = [self.norm(f) for f in s.facts]
        self.ns = State(s.env, {f: None for f in self.facts})

    def apart(self, a, b):
        if distinct(a, b) or any((a is x and b is y) or (a is y and b is x) for x, y in self.pairs):
            return True
        for x, y in ((a, b), (b, a)):
            if x.op.startswith("new") and not y.op.startswith("new"):
                if not any(u.op.startswith("new") for u in subterms(y)):
                    return True
            if self.kid(x) is y or self.kid(self.kid(x)) is y:
                return True     # a child is not its own parent
        return False

    def kid(self, x):
        """The node x hangs below, if x was read from a child link."""
        if x is None:
            return None
        x = peel_casts(x)
        return x.args[0].args[1] if x.op == "rd" and is_read(x.args[0], NIECES) else None

    def norm(self, t):
        for _ in range(200):
            for u in subterms(t):
                if u.op == "hsel" and u.args[0].op == "hst" and self.apart(u.args[0].args[1], u.args[1]):
                    t = replace(t, u, hsel(u.args[0].args[0], u.args[1], self.s.holds))
                    break
            else:
                return t
        return t

    def child(self, p, i, h=None):
        return self.norm(rd(self.norm(hsel(self.h if h is None else h, p, self.s.holds)), num(i), 1, self.s.holds))

    def before(self, p, i):
        return self.child(p, i, self.h0)

    def null(self, p):
        return p is NULL or self.ns.holds(same(NULL, p))

    def dead(self, p):
        """Nothing hangs below p, now or before."""
        return all(self.null(self.child(p, i)) for i in (0, 1)) or False

    def written(self):
        return writes(self.h, self.h0)

    def fuzzy(self):
        return any(has_op(f, FUZZY) for f in self.facts)


class Inner(Round):
    """A round for a node that is not a root."""

    def apart(self, a, b):
        return Round.apart(self, a, b) or {a, b} == {self.node, self.sib}


class Check:
    def __init__(self, r, prog, eff):
        self.r, self.prog, self.eff = r, prog, eff
        self.K = 0
        self.done = set()

    def verdict(self, j, key, where, text, why=""):
        return verdict(self.r, j, key, where, text, why)

    def run(self, f, hook=None):
        I = Interp(self.prog, world="utreexo::Pollard", effects=self.eff, opaque=opaque, hook=hook)
        I.custom["utreexo::Accumulator::ParentHash"] = parent_hash
        I.cap = 512
        where = "%s:%d %s" % (f["f"], f["l"], f["n"])
        self.r.analysed(f)
        self.done.add(f["key"])
        try:
            ex = I.run(f)
        except (AnalysisError, Limit) as e:
            self.r.undecided(where, str(e))
            ex = []
        for x in I.notes:
            self.r.undecided(where, "not modelled: " + x)
        return I, ex, where

    def exact(self, I, V=None):
        return not I.notes and not I.joins and not I.meets and (V is None or not V.fuzzy())

    # ------------------------------------------------------------ marks
    def new_leaf(self, f):
        I, ex, where = self.run(f)
        ps = [p["n"] for p in f["params"]]
        for s, v in ex:
            flags = [g for g in s.facts if any(u.op == "sym" and u.args[0].replace("in:", "") in ps for u in subterms(g)) and (g.op in ("not",) or g.op in ("fld", "tget", "proj", "hsel"))]
            want = [g for g in flags if g.op != "not"]
            V = View(I, s)
            R = hsel(I.heap(s, ROOTS), THISV, s.holds)
            p = s.norm(rd(varr(R), sub(vsize(R), ONE), 1, s.holds))
            o = V.norm(hsel(I.heap(s, NODE), p, s.holds))
            W = V.written()
            if W is None or not any(q is o for q, _ in W):
                j = "no" if not flags or want else None
                if not flags or want:
                    self.verdict(j if self.exact(I, V) else None, "mark:added", where, "a leaf added with the remember flag gets the mark")
                continue
            at = [i for i in (0, 1) if is_read(V.child(o, i), REMEMBER)]
            if want:
                if at:
                    self.K = at[0]
                self.verdict("yes" if at else "no" if self.exact(I, V) else None, "mark:added", where, "a leaf added with the remember flag gets the mark")
            elif not flags:
                self.verdict("yes" if at else None, "mark:added", where, "a leaf added with the remember flag gets the mark")

    def accepted(self, f):
        """The leaves of an accepted proof are marked."""
        found = []
        M = masks(self.prog, self.eff)
        where = "%s:%d %s" % (f["f"], f["l"], f["n"])
        if M is None:
            return self.r.undecided(where, "the flags of the nodes of a partial tree are not recognised")
        role = {g["n"] for g in steps(self.prog).values()}

        def loop(fn, L, kw):
            h0 = L.h(NIECES)
            if h0 is None or h0.op != "phi":
                return
            marks = False
            for s in L.back:
                for p, v in writes(L.h(NIECES, s.env), h0) or []:
                    marks = marks or any(is_read(rd(v, num(i), 1, s.holds), REMEMBER) for i in (0, 1))
            if marks:
                found.append((L, h0))
        fn = Fn(self.prog, self.eff, f, lambda g: g["n"] in role or g.get("cls") == "utreexo::ForestState" and not g.get("ctor") and last(g["n"]) != "CheckTargetsSanity"
                or g["n"].startswith("utreexo::_") and g["n"] != "utreexo::_", loop)
        self.r.analysed(f)
        if fn.err:
            return self.r.undecided(where, fn.err)
        text = "the leaves of an accepted proof get the mark"
        if not found:
            # is there any accepting path after the verification of the partial tree?
            up = [g["n"] for k, g in steps(self.prog).items()]
            acc = [s for s, v in fn.exits if v is TRUE and any(u.op == "call" and u.args[0] in up for g in s.facts for u in subterms(g))]
            return self.verdict("no" if acc and fn.exact else None, "mark:proven", where, text)
        for L, h0 in found:
            X = element(L, set())
            if X is None:
                # every element is marked
                c = {}
                for s in L.back:
                    for p, v in writes(L.h(NIECES, s.env), h0) or []:
                        b = entry_of(p, L.kap, plain=True)
                        if b is not None:
                            c[b[0]] = 1
                if len(c) != 1:
                    self.r.undecided(L.where, text + ": the node of the round is not recognised")
                    continue
                X = next(iter(c))
            base = X.args[0].args[0] if X.op == "rd" and X.args[0].args and isinstance(X.args[0].args[0], T_) else X

            begin = set(L.start.facts)
            known = [(base, sym("tree"))] + [(L.h(q), sym("at start:" + q)) for q in FIELDS + (FLAG, PAR, POS) if L.h(q) is not None]

            def vague(R):
                ts = [t for t in R.st.facts if t not in begin] + [v for v in (R.st.env.get(("h", q)) for q in FIELDS + (FLAG,)) if v is not None]
                for x, y in known:
                    ts = [replace(t, x, y) for t in ts]
                return any(has_op(t, FUZZY) for t in ts)
            if any(k != "exit" for k, _, _ in L.out):
                self.verdict("no" if fn.exact else None, "mark:proven", L.where, text, " (the marking may end early)")
            for kind, s in [("n", b) for b in L.back]:
                R = Round(L, X, s, kind, None, M)
                for bits, leaf in R.cases():
                    if not R.has(bits, "TARGET"):
                        continue
                    got = R.norm(rd(R.final(NIECES, R.sib), num(self.K), 1, s.holds))
                    if not is_read(got, REMEMBER):
                        # a leaf that is not a root: its sibling is another node
                        R2 = Inner(L, X, s, kind, None, M)
                        got = R2.norm(rd(R2.final(NIECES, R2.sib), num(self.K), 1, s.holds))
                    j = "yes" if is_read(got, REMEMBER) else "no" if fn.exact and not vague(R) and (got is rd(hsel(h0, R.sib), num(self.K), 1) or got is NULL) else None
                    if self.verdict(j, "mark:proven", L.where, text, " (%s)" % got) != "yes":
                        break
            W = Verdicts(self.r, ("C24",))
            W.no = lambda rule, where, what, exact=True: self.verdict("no" if exact else None, "mark:proven", where, text, " (not every node of the partial tree is visited)")
            W.maybe = lambda rule, where, what: self.r.undecided(where, text + ": " + what)
            W.ok = lambda rule, where, n=1: self.verdict("yes", "mark:proven", where, "all nodes of the partial tree are visited")
            if X.op == "rd" and len(X.args) > 1:
                covers(L, X, W, "every node visited")

    # ------------------------------------------------------------ what is dropped
    def above_leaves(self, V, poses):
        """Are the children of the node leaves? True/False, or None if it is open; 'odd' if a test of it is not understood."""
        s, odd = V.ns, False
        for f in V.facts:
            cs = [u for u in subterms(f) if u.op == "call" and any(a in poses for a in u.args if isinstance(a, T_))]
            for c in cs:
                m = last(c.args[0])
                if m in ("Child", "LeftChild", "RightChild"):
                    if s.holds(le0(sub(NV, c))):
                        return False
                    if s.holds(le0(add(sub(c, NV), ONE))):
                        return True
                    rest = replace(replace(f, c, ZERO), NV, ZERO)
                    if rest is TRUE or rest is FALSE:
                        continue    # a bound that leaves both possible
                    odd = True
                elif m == "DetectRow":
                    if s.holds(le0(sub(num(2), c))) or s.holds(not_(eq0(sub(c, ONE)))) and not s.holds(le0(c)):
                        return False
                    if s.holds(le0(sub(c, ONE))):
                        return True
                    odd = True
                else:
                    odd = True
        return "odd" if odd else None

    def unmarked(self, V, p):
        """Node p does not hold the mark of its sibling."""
        if p is NULL or V.null(p):
            return True
        m = V.child(p, self.K)
        if V.null(m):
            return True
        return any(is_read(u, REMEMBER) and V.ns.holds(not_(same(u, m))) for g in V.facts for u in subterms(g))

    def dropped(self, I, V, where, c, other, poses, key):
        """Child c, whose sibling is other, is let go."""
        if V.null(c):
            return self.verdict("yes", "drop:" + key, where, "a child is let go only if nothing hangs below it")
        ex = self.exact(I, V)
        ok = V.dead(c)
        self.verdict("yes" if ok else "no" if ex else None, "drop:" + key, where, "a child is let go only if nothing hangs below it",
                     " (path: %s)" % short_facts(V.s) if not ok else "")
        text = "a leaf is let go only if its sibling does not hold its mark"
        a = self.above_leaves(V, poses)
        if a is False or self.unmarked(V, other):
            return self.verdict("yes", "leaf:" + key, where, text)
        if not ok:
            return
        self.verdict(None if a == "odd" or not ex else "no", "leaf:" + key, where, text, " (path: %s)" % short_facts(V.s))

    def rehash(self, f):
        I, ex, where = self.run(f)
        key = f["n"].split("utreexo::")[-1]
        poses = {hsel(hb(POS), THISV)}
        # the leaf count a node was made with
        for s, v in ex:
            own, sib = hsel(hb(NODE), THISV), hsel(hb(SIBL), THISV)
            V = View(I, s, [(own, sib)])
            V.facts = [replace(g, hsel(hb(AN + "m_num_leaves"), THISV), NV) for g in V.facts]
            V.ns = State(s.env, {g: None for g in V.facts})
            W = V.written()
            if W is None:
                self.r.undecided(where, "the child links are approximated")
                continue
            for p, _ in W:
                for i in (0, 1):
                    was, now = V.before(p, i), V.child(p, i)
                    if was is now or V.ns.holds(same(was, now)):
                        continue
                    if now is not NULL:
                        self.verdict("no" if self.exact(I, V) and exact(now) else None, "link:" + key, where, "rehashing does not hang anything elsewhere", " (%s)" % now)
                        continue
                    if p is not sib:
                        self.verdict("yes" if V.null(was) else "no" if p is own and self.exact(I, V) else None, "drop:" + key, where, "only children of the rehashed node are let go", " (a child link of %s)" % p)
                        continue
                    self.dropped(I, V, where, was, V.before(p, 1 - i), poses, key)
            self.r.ob("path", where, "what a path through rehashing lets go")

    def merge(self, f):
        I, ex, where = self.run(f)
        key = f["n"].split("utreexo::")[-1]
        old = hsel(hb(ROOTS), THISV)
        n = vsize(old)
        r = [hsel(hb(NODE), rd(varr(old), sub(n, num(k)), 1)) for k in (2, 1)]
        poses = {sym("in:" + p["n"]) for p in f["params"]} | {sym(p["n"]) for p in f["params"]}
        for s, v in ex:
            V = View(I, s, [tuple(r)])
            if any(V.null(x) for x in r):
                continue    # roots exist
            # each takes over what hung below the other: children become nieces
            for a, b in (r, r[::-1]):
                got = [V.child(a, i) for i in (0, 1)]
                want = [V.before(b, i) for i in (0, 1)]
                gone = [i for i in (0, 1) if got[i] is NULL and not V.null(want[i])]
                for i in gone:
                    self.dropped(I, V, where, want[i], want[1 - i], set(), key)
                ok = all(i in gone or g is w or V.ns.holds(same(g, w)) for i, (g, w) in enumerate(zip(got, want)))
                self.verdict("yes" if ok else "no" if self.exact(I, V) and all(exact(g) for g in got) else None, "swap:" + key, where,
                             "the children of merged roots become nieces", " (%s)" % (got,))
            R = hsel(I.heap(s, ROOTS), THISV, s.holds)
            p = s.norm(rd(varr(R), sub(vsize(R), ONE), 1, s.holds))
            o = V.norm(hsel(I.heap(s, NODE), p, s.holds))
            for i in (0, 1):
                c = V.child(o, i)
                if c is r[i]:
                    self.verdict("yes", "keep:" + key, where, "the merged roots hang below the new one unless nothing hangs below them")
                elif c is NULL:
                    self.dropped(I, V, where, r[i], r[1 - i], poses, key)
                else:
                    self.verdict(None, "keep:" + key, where, "the merged roots hang below the new one unless nothing hangs below them", " (%s)" % c)

    # ------------------------------------------------------------ moving
    def swap(self, f):
        I, ex, where = self.run(f)
        key = f["n"].split("utreexo::")[-1]
        text = "what hangs below two swapped nodes is swapped with their hashes"
        for s, v in ex:
            H = writes(I.heap(s, HASH), hb(HASH))
            N = writes(I.heap(s, NIECES), hb(NIECES))
            if H is None or N is None:
                self.r.undecided(where, text + ": approximated")
                continue
            A = [p for p, x in H if not p.op.startswith("new") or any(q for q, y in H if y is not x and is_read(y, HASH) and y.args[1] is p)]
            H = [(p, x) for p, x in H if not (p.op.startswith("new") and not is_read(x, HASH))]
            H2 = [(p, x.args[1]) for p, x in H if is_read(x, HASH)]
            moved = [(p, q) for p, q in H2 if p is not q]
            if not moved and len(H) < 2:
                if not H and not N:
                    continue    # nothing was swapped on this path
            ends = {p for p, _ in H} | {q for _, q in H2}
            ends = [p for p in ends]
            if len(ends) != 2:
                self.r.undecided(where, text + ": the nodes swapped are not recognised (%s)" % short_facts(s))
                continue
            a, b = ends
            # the nodes holding what hangs below a and b
            sib = []
            fresh = [q for q, x in N if q.op.startswith("new")]
            for x, y in ((a, b), (b, a)):
                w = walked(x)
                if w is None and x.op.startswith("new"):
                    w2 = walked(y)     # a missing sibling that was created
                    sib.append([y] if w2 and w2[1] == 0 else [])
                    continue
                if w is None:
                    sib.append([])
                    continue
                z = [t for t in self.siblings(s, w) if t is not x] or ([x] if False else [])
                nul = any(s.holds(same(NULL, t)) for t in z)
                sib.append(fresh if nul or not z else z + fresh if False else z)
            moves = []
            for p, x in N:
                if is_read(x, NIECES):
                    moves.append((p, x.args[1]))
            ok = any(c is not d and any(p is c and q is d for p, q in moves) and any(p is d and q is c for p, q in moves) for c in sib[0] for d in sib[1])
            if ok:
                self.verdict("yes", "swap:" + key, where, text)
                continue
            # which child links really changed?
            known = all(sib) and all(len(z) == 1 for z in sib)
            j = None
            if not I.notes and not I.joins and not I.meets and known:
                plain = [p for p, x in N if not p.op.startswith("new")]
                if all(is_read(x, NIECES) or x.op in ("st", "arrval", "vec") or x is NULL for _, x in N):
                    j = "no"
            self.verdict(j, "swap:" + key, where, text, " (path: %s)" % short_facts(s))

    def siblings(self, s, w):
        """Terms of the other node of a walk."""
        call, i = w
        out = {}
        pool = list(s.facts) + [v for v in s.env.values() if isinstance(v, T_)]
        for t in pool:
            for u in subterms(t):
                x = walked(u)
                if x and x[0] is call and x[1] != i:
                    out[peel_casts(u)] = 1
        return list(out)

    def promote(self, f):
        """A node that becomes a root takes over its children from its sibling."""
        key = f["n"].split("utreexo::")[-1]
        text = "a node that becomes a root takes over what hangs below it"
        loops = []

        def hook(I, kind, st, n, kw):
            if kind == "loop":
                loops.append(Lp(I, st, n, kw))
        I, ex, where = self.run(f, hook)
        seen = False
        for L in loops:
            h0 = L.h(NIECES)
            for s in L.back:
                new = s.env.get(("h", NODE))
                base = L.h(NODE)
                W = writes(new, base) if new is not None and base is not None else []
                nodes = [x for _, x in W or [] if walked(x) and walked(x)[1] == 0]
                for x in nodes:
                    seen = True
                    call = walked(x)[0]
                    sibs = [y for y in self.siblings(s, walked(x))]
                    V = View(I, s, h0=h0 if h0 is not None else None)
                    V.h = L.h(NIECES, s.env) if L.h(NIECES, s.env) is not None else hb(NIECES)
                    V.h0 = h0 if h0 is not None else hb(NIECES)
                    got = [V.child(x, i) for i in (0, 1)]
                    own = [V.before(x, i) for i in (0, 1)]
                    ex_ = not I.notes and not I.meets
                    if not sibs:
                        self.verdict("no" if ex_ and all(g is o for g, o in zip(got, own)) else None, "promote:" + key, L.where, text, " (it keeps its nieces)")
                        continue
                    y = sibs[0]
                    if s.holds(same(NULL, y)):
                        ok = all(V.null(g) for g in got)
                        self.verdict("yes" if ok else "no" if ex_ and not any(has_op(replace(replace(g, call, sym("walk")), V.h0, hb(NIECES)), FUZZY | {"phi"}) for g in got) else None, "promote:" + key, L.where, text, " (it has no sibling and keeps its nieces)")
                        continue
                    # read before anything was written in this round, or the node is its own sibling
                    want = [V.before(y, i) for i in (0, 1)]
                    same_ = lambda g, w, i: g is w or s.holds(same(g, w)) or self.bypass(g, x, y, i, V)
                    ok = all(same_(g, w, i) for i, (g, w) in enumerate(zip(got, want)))
                    bad = ex_ and not any(has_op(replace(replace(g, call, sym("walk")), V.h0, hb(NIECES)), FUZZY | {"phi"}) for g in got)
                    self.verdict("yes" if ok else "no" if bad else None, "promote:" + key, L.where, text, " (%s)" % (tuple(str(g)[:80] for g in got),))
        if not seen:
            self.r.undecided(where, text + ": no node found that becomes a root")

    def bypass(self, g, x, y, i, V):
        """Child i of y read after child 0 of x was replaced by that of y: the same whether or not x is y."""
        if g.op != "rd" or g.args[1] is not num(i) or not is_read(g.args[0], NIECES) or g.args[0].args[1] is not y:
            return False
        h = g.args[0].args[0]
        while h is not V.h0:
            if h.op != "hst" or h.args[1] is not x:
                return False
            v = h.args[2]
            # stores into x of y's own links
            while v.op == "st":
                k, e = v.args[1], v.args[3]
                if not (e.op == "rd" and e.args[1] is k and is_read(e.args[0], NIECES) and e.args[0].args[1] is y):
                    return False
                v = v.args[0]
            h = h.args[0]
        return True

    # ------------------------------------------------------------ who else
    def others(self, fs):
        eff = self.eff
        known = {g["key"] for g in steps(self.prog).values()} | self.done
        eff.fields(fs[0])
        pr = [f for f in fs if f["n"] == "utreexo::Pollard::Prune"]
        for f in fs:
            cls = f.get("cls") or ""
            if f.get("ctor") or "~" in f["n"]:
                continue
            eff.fw.collect(f)
            own = eff.fw.own[f["key"]] or ()
            where = "%s:%d %s" % (f["f"], f["l"], f["n"])
            if REMEMBER in own:
                self.r.undecided(where, "replaces the mark of remembered leaves")
            if any(c["fn"]["n"] == "utreexo::Pollard::Prune" for c in walk(f["body"]) if c["k"] == "call"):
                self.r.violation("prune:" + f["n"], where, "everything a pollard remembers is dropped although nobody asked for it: Prune() is called here")
            if NIECES in own and f["key"] not in known and cls != "utreexo::Pollard::InternalNode" and not f.get("lambda") and f["n"] != "utreexo::Pollard::Verify":
                if f in pr:
                    continue
                if last(f["n"]) == "InitChildrenOfComputed" or cls == "utreexo::Pollard" and any(self.calls(self.prog.functions.get(k), f) for k in known):
                    continue    # part of a function decided above (inlined there)
                self.r.undecided(where, "changes the child links")

    def calls(self, g, f):
        return g is not None and g.get("body") is not None and any(c["k"] == "call" and c["fn"]["n"] == f["n"] for c in walk(g["body"]))


class Sub:
    """Takes over what another check of the same kind finds."""

    def __init__(self, r, prefix):
        self.r, self.prefix = r, prefix

    def __getattr__(self, k):
        return getattr(self.r, k)

    def violation(self, key, where, text, trace=None):
        self.r.violation(self.prefix + key, where, text, trace)


def check(tier):
    r = Report("C24", tier,
               "Induction over the operations of a pollard, each decided on all of its paths by abstract interpretation of the source. A leaf is marked in its sibling's child link (its own while it is a root). "
               "The mark is set when a leaf is added with the remember flag and for every leaf of an accepted proof; swapping two nodes swaps what hangs below them, merging roots turns children into nieces, a node that becomes a root takes its children back; "
               "rehashing and merging let a child go only if nothing hangs below it, and a leaf only if its sibling does not hold its mark; a rejected proof removes only what it created; nothing else drops nodes, and nothing but the user prunes. "
               "The lookup of leaf positions is decided by the rules of C13.",
               ["The walk down the tree returns the node at a position and its sibling.", "The swaps computed for a removal are right (C22, not decided here).", "There are at least two roots when roots are merged."] + PASSUMED)
    for config in ("ndebug",) if tier == "quick" else ("ndebug", "release"):
        prog, eff = program(config)
        fs = [f for f in prog.functions.values() if f["n"].startswith("utreexo::") and f.get("body") is not None and not f.get("implicit")]
        c = Check(r, prog, eff)
        by = {}
        for f in fs:
            by.setdefault((f.get("cls"), last(f["n"])), []).append(f)
        for cls, name, rule in (("utreexo::Pollard", "NewLeaf", c.new_leaf), ("utreexo::Pollard", "Verify", c.accepted), ("utreexo::Pollard::Node", "ReHash", c.rehash),
                                ("utreexo::Pollard::Node", "ReHashNoPrune", c.rehash), ("utreexo::Pollard", "MergeRoot", c.merge),
                                ("utreexo::Pollard", "SwapSubTrees", c.swap), ("utreexo::Pollard", "FinalizeRemove", c.promote)):
            gs = by.get((cls, name), [])
            if not gs and name != "ReHashNoPrune":
                r.undecided("src/pollard.cpp", "%s::%s not found" % (cls, name))
            for f in gs:
                rule(f)
        c.others(fs)
    proofs.run(r, tier, ("C24",))
    c13.rules(Sub(r, "lookup:"), tier)
    return r
