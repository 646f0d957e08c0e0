"""Shared by C01, C02 and C03: what verification of a proof does to each node of the partial tree it builds.

Each loop of the anchored functions is analysed for one arbitrary round. The element of the round is the node X whose
verification flags are read in it; every path of the round is judged under every combination of X's flags and of
X being a leaf or not that the path allows."""
from ..facts import AnalysisError
from ..interp import *
from ..state import State
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .c04 import THISV, last
from .c12 import peel_casts

PN, PI, AN = "utreexo::Pollard::Node::", "utreexo::Pollard::InternalNode::", "utreexo::Accumulator::Node::"
FLAG, NODE, SIBL, PAR, POS = PN + "m_verification_flag", PN + "m_node", PN + "m_sibling", AN + "m_parent", AN + "m_position"
HASH, NIECES = PI + "m_hash", PI + "m_nieces"
ROOTS, LEAVES, POSMAP = "utreexo::Accumulator::m_roots", "utreexo::Accumulator::m_num_leaves", "utreexo::Accumulator::m_posmap"
REMEMBER = "utreexo::Pollard::m_remember"
NV = hsel(hb(LEAVES), THISV)
ASSUMED = ["A node of the partial tree is not its own parent, and an object created in a round differs from every older one.",
           "Distinct nodes of the partial tree hold distinct inner nodes (a root and nothing else is its own sibling).",
           "ProofPositions lists the positions of the proof and of the computed nodes correctly and in ascending order, and Children/RootPositions/HasRoot are correct (C21, not decided here).",
           "The hash of a node is a function of the hashes of its children (C09)."]
FUZZY = {"unk", "ite", "escaped", "uninit"}


def parent_hash(I, st, n, f, o, args):
    """The hash of a node as a pure function of the hashes of its children."""
    l, r = (I.read(st, a) if a.op == "lv" else a for a in args[1:3])
    I.write(st, args[0], mk("call", "ParentHash", l, r))
    return [(st, ZERO)]


def root(h):
    while h.op == "hst":
        h = h.args[0]
    return h


def heap_field(h):
    """The field a heap belongs to."""
    h = root(h)
    if h.op == "hb":
        return h.args[0]
    for a in h.args:
        if isinstance(a, tuple):
            for b in (a,) + tuple(x for x in a if isinstance(x, tuple)):
                if len(b) == 2 and b[0] == "h":
                    return b[1]
        if isinstance(a, str) and "::" in a:
            return a
    if h.op in ("phi", "unk"):
        for a in h.args:
            if isinstance(a, tuple) and len(a) == 3 and isinstance(a[2], str) and "::" in a[2]:
                return a[2]
    return None


def is_read(t, q):
    return t.op == "hsel" and heap_field(t.args[0]) == q


def writes(h, base):
    """Stores between two versions of a heap, latest first; None if they are not related that way."""
    out, seen = [], []
    while h is not base:
        if h.op != "hst":
            return None
        if not any(h.args[1] is p for p in seen):
            out.append((h.args[1], h.args[2]))
            seen.append(h.args[1])
        h = h.args[0]
    return out


class Lp:
    def __init__(self, I, st, n, kw):
        self.where, self.kap, self.I = loc(I.fr.fn, n), kw["kap"], I
        self.head, self.entry = dict(kw["head"]), kw["entry"].copy()
        self.start = st.copy()
        self.back = [b.copy() for b in kw["back"]]
        self.out = [(k, s.copy(), v) for k, s, v in kw["out"]]
        self.marks = [s for _, s, _ in kw["out"]]

    def at(self, k, env=None):
        """Value of a variable at the start of the round (or in env)."""
        if env is not None and k in env:
            return env[k]
        if k in self.head:
            return self.head[k]
        v = self.start.env.get(k)
        return v if v is not None else self.I.entry(k)

    def h(self, q, env=None):
        return self.at(("h", q), env)


class Fn:
    """One function, with the rounds of its loops."""

    def __init__(self, prog, eff, f, opaque, onloop=None, assume=()):
        self.f, self.loops, self.err, self.calls = f, [], None, []
        self.onloop = onloop
        self.I = Interp(prog, world=f["cls"], effects=eff, opaque=opaque, hook=self.hook)
        self.I.custom["utreexo::Accumulator::ParentHash"] = parent_hash
        self.I.cap = 512
        self.exits = []
        try:
            self.exits = self.I.run(f)
        except (AnalysisError, Limit) as e:
            self.err = str(e)

    def hook(self, I, kind, st, n, kw):
        if kind == "loop":
            L = Lp(I, st, n, kw)
            self.loops.append(L)
            if self.onloop:
                self.onloop(self, L, kw)

    @property
    def exact(self):
        return self.err is None and not self.I.notes and not self.I.joins and not self.I.meets


def function(prog, name):
    fs = [f for f in prog.functions.values() if f["n"] == name and f.get("body") is not None]
    return fs[0] if len(fs) == 1 else None


def hashes_type(t):
    return "vector<std::array<unsigned char" in str(t)


def nodes_type(t):
    return str(t).replace("const ", "").startswith("std::vector<std::shared_ptr<utreexo::Pollard::Node>")


def steps(prog):
    """The functions that build and verify the partial tree: {"build": f, "verify": f}; by name, or else by what they take."""
    out = {}
    for role, name in (("build", "CreateProofTree"), ("verify", "VerifyProofTree")):
        f = function(prog, "utreexo::Pollard::" + name)
        if f is None:
            c = []
            for g in prog.functions.values():
                if g.get("cls") != "utreexo::Pollard" or g.get("body") is None or "bool" not in str(g.get("ret")):
                    continue
                ts = [p.get("t") for p in g["params"]]
                if not any(nodes_type(t) for t in ts):
                    continue
                if any("BatchProof" in str(t) for t in ts) if role == "build" else any(hashes_type(t) for t in ts) and not any("BatchProof" in str(t) for t in ts):
                    c.append(g)
            f = c[0] if len(c) == 1 else None
        if f is not None:
            out[role] = f
    return out


def masks(prog, eff):
    """The bits behind the flag accessors: {'VALID': 1, ...} or None."""
    out = {}
    for k, n in (("VALID", "IsValid"), ("TARGET", "IsTargetOrAncestor"), ("CACHED", "IsCached"), ("SIB", "IsSiblingCached")):
        f = function(prog, PN + n)
        if f is None:
            return None
        try:
            ex = Interp(prog, world=f["cls"], effects=eff).run(f)
        except (AnalysisError, Limit):
            return None
        ms = set()
        for s, v in ex:
            for t in list(s.facts) + ([v] if isinstance(v, T_) else []):
                ms |= {u.args[1].args[0] for u in subterms(t) if u.op == "band" and u.args[1].op == "num"}
        if len(ms) != 1:
            return None
        out[k], = ms
    return out if len(set(out.values())) == 4 and all(v & (v - 1) == 0 for v in out.values()) else None


def element(L, taken):
    """The node whose flags are read or written in a round."""
    c = {}
    F0 = L.h(FLAG)
    for s in L.back + [x for k, x, _ in L.out if k != "exit"]:
        for t in list(s.facts) + [s.env.get(("h", FLAG))]:
            if t is None:
                continue
            for u in subterms(t):
                if u.op in ("hsel", "hst") and heap_field(u.args[0]) == FLAG:
                    p = u.args[1]
                    if p.op == "rd" and p not in taken and any(x is L.kap for x in subterms(p)):
                        c[p] = 1
    return next(iter(c)) if len(c) == 1 else None


class Round:
    """One path of a round."""

    def __init__(self, L, X, st, kind, v, M):
        self.L, self.X, self.kind, self.v, self.M = L, X, kind, v, M
        self.st = st
        self.P = hsel(L.h(PAR), X)
        self.node, self.sib = hsel(L.h(NODE), X), hsel(L.h(SIBL), X)
        self.f0 = hsel(L.h(FLAG), X)
        self.facts = [self.norm(f) for f in st.facts]
        self.ns = State(st.env, {f: None for f in self.facts})
        self.flagfacts = [f for f in self.facts if any(u is self.f0 for u in subterms(f))]
        self.pos = hsel(L.h(POS), X)
        self.leaf = le0(add(sub(self.pos, NV), ONE))

    def apart(self, a, b):
        """A node is not its own parent, and nothing that existed before a round is an object created in it."""
        if distinct(a, b):
            return True
        for x, y in ((a, b), (b, a)):
            if y is self.X and peel_casts(x).op == "hsel" and is_read(peel_casts(x), PAR) and peel_casts(x).args[1] is y:
                return True
            if self.fresh(x) and not self.fresh(y) and (y is self.X or y.op == "hsel" and not any(self.fresh(u) for u in subterms(y))):
                return True
        return False

    def fresh(self, p):
        return p.op.startswith("new") and any(x is self.L.kap for x in flat(p.args) if isinstance(x, T_))

    def norm(self, t):
        for _ in range(60):
            for u in subterms(t):
                if u.op == "hsel" and u.args[0].op == "hst" and self.apart(u.args[0].args[1], u.args[1]):
                    t = replace(t, u, hsel(u.args[0].args[0], u.args[1], self.st.holds))
                    break
            else:
                return t
        return t

    def final(self, q, p):
        return self.norm(hsel(self.L.h(q, self.st.env), p, self.st.holds))

    def at(self, t, bits):
        return replace(t, self.f0, num(bits))

    def cases(self):
        """Every combination of flags and kind of node this path allows: (bits, leaf)"""
        kinds = [True] if self.st.holds(self.leaf) else [False] if self.st.holds(not_(self.leaf)) else [True, False]
        for leaf in kinds:
            if len(kinds) == 2 and not self.st.copy().assume(self.leaf if leaf else not_(self.leaf)):
                continue
            for n in range(16):
                bits = sum(m for i, m in enumerate(self.M.values()) if n >> i & 1)
                if all(self.at(f, bits) is not FALSE for f in self.flagfacts):
                    yield bits, leaf

    def has(self, bits, k):
        return bool(bits & self.M[k])

    def hash(self, p):
        return hsel(self.L.h(HASH), p)

    def children(self):
        a = hsel(self.L.h(NIECES), self.sib)
        return rd(a, ZERO, 1), rd(a, ONE, 1)

    def recomputed(self):
        l, r = self.children()
        return mk("call", "ParentHash", self.hash(l), self.hash(r))

    def eq(self, a, b):
        """Was a found equal to b on this path?"""
        return any(f.op == "same" and (f.args[0] is a and f.args[1] is b or f.args[0] is b and f.args[1] is a) for f in self.facts) or self.st.holds(same(a, b))

    def fuzzy(self):
        """Something on this path was approximated."""
        return any(has_op(f, FUZZY) for f in self.facts) or any(has_op(v, FUZZY) for k, v in self.st.env.items() if k[0] == "h" and v is not self.L.at(k))


class Cursor:
    """A position in a sequence that moves with the rounds."""

    def __init__(self, fn, L, of):
        """of(term) tells whether a term is the array of the sequence"""
        self.ixs, self.key, self.head = set(), None, None
        for s in L.back + [x for _, x, _ in L.out]:
            for t in list(s.facts) + [v for k, v in s.env.items() if k[0] == "h" and v is not L.at(k)]:
                for u in subterms(t):
                    if u.op == "rd" and of(u.args[0]) and u.args[2] == 1:
                        self.ixs.add(u.args[1])
        at = {a for i in self.ixs for a in (dec(i)[1] if i.op in ("lin", "num") else {i: 1})}
        for k, v in L.head.items():
            ix = v.args[1] if v.op in ("vit", "rit", "dit") else v
            if ix.op == "phi" and ix in at:
                self.key, self.head, self.it = k, ix, v
        self.rev = self.key is not None and self.it.op == "rit"

    def moved(self, L, s):
        """By how much it moved in a round; None if unknown"""
        v = s.env.get(self.key)
        if v is None:
            return None
        ix = v.args[1] if v.op in ("vit", "rit", "dit") else v
        d = sub(ix, self.head)
        return abs(d.args[0]) if d.op == "num" else None


def array_of_param(name, q=None):
    """Recognises the array of a vector parameter, or of a field of a parameter."""
    def of(a):
        a = base_array(a)
        if a.op == "arr" or a.op == "varr":
            a = a.args[0]
        if q is not None:
            if a.op == "fld" and a.args[1] == q:
                a = a.args[0]
            elif a.op == "hsel" and heap_field(a.args[0]) == q:
                return True
            else:
                return False
        return a.op == "sym" and a.args[0] in (name, "in:" + name)
    return of


def base_array(a):
    while a.op in ("st", "ext", "pfront"):
        a = a.args[0]
    return a


# which property a rule belongs to, and what it says
RULES = {
    "all checks passed": (("C01",), "true only after the counts, the targets, the building and the verification of the partial tree were found in order"),
    "every hash is a leaf": (("C01",), "a full forest returns true only if every given hash was found among its leaves"),
    "every row visited": (("C01",), "success only when no row of the partial tree is left"),
    "every node visited": (("C01",), "a pass over a row visits all of it"),
    "node checked": (("C01",), "under every combination of marks, a node known before is compared unless it is known to be valid, and an unknown one is recomputed or gets the given hash"),
    "failure kept": (("C01",), "a failed comparison ends the verification or is kept to the end"),
    "marking the parent": (("C01",), "a parent is taken to be valid only if its child is, or if the child was compared and both children were known before"),
    "parent visited": (("C01",), "the parent of a checked node is part of the next row"),
    "target hashes used up": (("C01",), "success only when every given target hash was used"),
    "target hashes": (("C01",), "given hashes are used in order"),
    "proof hash used": (("C01",), "every supplied proof hash that is used up is stored in an unknown node or was found equal to the known hash"),
    "proof hashes used up": (("C01",), "the partial tree is accepted only when every supplied proof hash was used"),
    "consumption": (("C01",), "proof hashes, proof positions and computed positions are used in order"),
    "path marked": (("C01",), "every node on the way to a target is marked as such, and none as valid"),
    "only targets": (("C01", "C02"), "a node off the way to a target neither gets a hash nor uses one up"),
    "roots known": (("C01", "C02"), "a root put into the partial tree is marked as known, and as nothing else"),
    "cache marks": (("C01", "C02"), "whether a node was known before is never re-marked"),
    "children marked": (("C01", "C02"), "the marks of a child say whether it and its sibling were there before"),
    "known hashes kept": (("C02",), "a hash is stored only in a node that was not known before"),
    "children created": (("C02", "C24"), "a child is created only where there is none"),
    "roots kept": (("C02",), "the roots, the number of leaves and the stored hashes are left alone outside the passes"),
    "keeps the structure": (("C02", "C03"), "the pass over the partial tree changes no links, no roots and no lookup"),
    "keeps the rest": (("C02", "C03"), "building the partial tree changes no roots, no lookup and no links of older nodes"),
    "created children recorded": (("C02", "C03", "C24"), "undoing what is recorded removes exactly the children that were created"),
    "rolled back": (("C02", "C03", "C24"), "every rejection after the building of the partial tree undoes the whole record"),
    "lookup kept": (("C03",), "the lookup and the remembered leaves are as before on every rejection"),
}


class Verdicts:
    """Collects what was found; a failure seen in an inexact analysis is only undecided."""

    def __init__(self, r, which):
        self.r, self.which = r, which
        self.bad, self.open, self.good = {}, {}, {}

    def mine(self, rule):
        return rule not in RULES or any(p in self.which for p in RULES[rule][0])

    def ok(self, rule, where, n=1):
        if not self.mine(rule):
            return
        self.good.setdefault((rule, where), 0)
        self.good[rule, where] += n

    def no(self, rule, where, what, exact=True):
        if self.mine(rule):
            (self.bad if exact else self.open).setdefault((rule, where), what)

    def maybe(self, rule, where, what):
        if self.mine(rule):
            self.open.setdefault((rule, where), what)

    def report(self):
        for (rule, where), n in self.good.items():
            self.r.ob(rule, where, "%s (%d cases)" % (RULES[rule][1] if rule in RULES else "holds", n))
        for (rule, where), what in self.open.items():
            self.r.undecided(where, "%s: %s" % (rule, what))
        for (rule, where), what in self.bad.items():
            self.r.violation("%s" % rule, where, what)


# ---- the pass from the leaves up: VerifyProofTree ----

def booleans_false(L, s):
    """Local flags known to be false."""
    out = []
    for k, v in s.env.items():
        if k[0] == "v" and isinstance(v, T_) and v.op in ("true", "false", "not", "le", "eq", "same", "and", "or", "iff", "phi", "call"):
            if v is FALSE or v.op in ("same", "not", "and", "or", "le", "eq", "phi", "call") and L.I.ktype.get(k) is not None and getattr(L.I.ktype[k], "k", "") == "bool" and s.holds(not_(v)):
                out.append(k)
    return out


def sticky(L, k):
    """Once the flag is false at the start of a round it stays false: every round that goes on found it true, or left it alone."""
    h = L.at(k)
    if h is None:
        return False    # declared within the round
    for b in L.back:
        v = b.env.get(k)
        if v is h or v is None or v is FALSE or b.holds(h) or b.holds(not_(v)):
            continue
        if v.op == "and" and h in v.args:
            continue
        return False
    return True


def covers(L, X, V, rule, pieces=None):
    """The round's element runs over the whole container."""
    ix = X.args[1]
    first = subst(ix, {L.kap: ZERO})
    step = sub(subst(ix, {L.kap: add(L.kap, ONE)}), ix)
    arr = X.args[0]
    exits = [s for k, s, _ in L.out if k == "exit"]
    if not is_num(step) or abs(step.args[0]) != 1 or not exits:
        return V.maybe(rule, L.where, "the order in which the nodes are visited is not recognised")
    sizes = [v.args[0] for v in list(L.start.env.values()) + list(L.head.values()) if isinstance(v, T_) and v.op == "vec" and v.args[1] is arr]
    if not sizes and arr.op == "arr":
        sizes = [vsize(arr.args[0])]
    if not sizes:
        return V.maybe(rule, L.where, "the container of the nodes is not recognised")
    n = sizes[0]
    up = step.args[0] == 1
    r = [L.start.copy()]
    ok = all(eqint(L.start, first, ZERO if up else sub(n, ONE)) == "yes" for _ in r) and all(eqint(s, ix, n if up else num(-1)) == "yes" for s in exits)
    if ok:
        V.ok(rule, L.where)
        return n
    bad = [s for s in exits if judge(s, eq0(sub(ix, n if up else num(-1)))) == "no"]
    if bad or judge(L.start, eq0(sub(first, ZERO if up else sub(n, ONE)))) == "no":
        V.no(rule, L.where, "not every node of a row of the partial tree is visited", L.I.joins == 0 and not L.I.notes)
    else:
        V.maybe(rule, L.where, "it is not clear that every node of a row is visited")
    return n


class UpPass:
    """C01 and C02 in VerifyProofTree."""

    def __init__(self, prog, eff, M, V, which):
        self.M, self.V, self.taken, self.found, self.which = M, V, set(), False, which
        self.rounds, self.need, self.tree, self.cur = 0, set(), None, None
        self.f = steps(prog).get("verify")
        hs = [p["n"] for p in self.f["params"] if hashes_type(p.get("t"))] if self.f else []
        if not hs:
            V.maybe("anchor", "src/pollard.cpp", "the pass over the partial tree was not found")
            return
        self.where = "%s:%d" % (self.f["f"], self.f["l"])
        self.targets = hs[0]
        self.fn = Fn(prog, eff, self.f, lambda g: g.get("cls") == "utreexo::ForestState" and not g.get("ctor"), self.loop)
        if self.fn.err:
            V.maybe("anchor", self.where, self.fn.err)
        elif not self.found:
            V.maybe("anchor", self.where, "no loop over the nodes of the partial tree was recognised")
        else:
            self.ends()

    def loop(self, fn, L, kw):
        X = element(L, self.taken)
        if X is not None:
            self.taken.add(X)
            self.found = True
            self.body(fn, L, X)
        else:
            for b in L.back:
                if "unmet" in b.note:
                    self.carried(L, b)

    def carried(self, L, b):
        """A failed duty is remembered in a flag which no later round sets back."""
        ks = booleans_false(L, b)
        good = [k for k in ks if sticky(L, k)]
        if good:
            self.need.add(tuple(good))
            self.V.ok("failure kept", L.where)
        else:
            self.V.no("failure kept", L.where, "a failed comparison is forgotten in a later round" if ks else "a failed comparison does not end the verification")

    def body(self, fn, L, X):
        V, M = self.V, self.M
        of = array_of_param(self.targets)
        C = Cursor(fn, L, of)
        if C.key is None:
            V.maybe("target hashes", L.where, "how the given hashes are consumed is not recognised")
        else:
            self.cur = C
        n = covers(L, X, V, "every node visited")
        self.tree = [(k, v) for k, v in list(L.start.env.items()) + list(L.head.items()) if k[0] != "h" and isinstance(v, T_) and v.op == "vec" and v.args[1] is X.args[0]]
        pushes = False
        rs = []
        for kind, ss in (("back", [(b, None, b) for b in L.back]), ("out", [(s, v, live) for (k, s, v), live in zip(L.out, L.marks) if k in ("b", "r")])):
            kinds = {id(s): k for k, s, v in L.out}
            for s, v, live in ss:
                R = Round(L, X, s, "back" if kind == "back" else kinds[id(s)], v, M)
                R.live = live
                rs.append(R)
        for R in rs:
            for k, v in R.st.env.items():
                if k[0] == "v" and v.op == "vec" and v is not L.at(k) and peel_casts(R.norm(last_of(v))) is peel_casts(R.P):
                    pushes = True
        for R in rs:
            self.rounds += 1
            self.one(fn, L, R, C, of, pushes)

    def one(self, fn, L, R, C, of, pushes):
        V, st = self.V, R.st
        exact = not fn.I.notes and not fn.I.joins and not fn.I.meets and not R.fuzzy()
        W = writes(L.h(HASH, st.env), L.h(HASH))
        hw = None if W is None else [(R.norm(p), R.norm(v)) for p, v in W]
        moved = C.moved(L, st) if C.key else None
        tgt = None
        for f in list(R.facts) + [v for _, v in (hw or [])]:
            for u in subterms(f):
                if u.op == "rd" and of(u.args[0]) and u.args[2] == 1:
                    tgt = u.args[0]
        tgt = rd(tgt, C.head, 1) if tgt is not None and C.key else None
        for q in (NIECES, ROOTS, LEAVES, POSMAP, REMEMBER, NODE, SIBL, PAR, POS):
            w = L.h(q, st.env)
            if w is not L.h(q):
                V.no("keeps the structure", L.where, "the pass changes %s" % last(q), exact and w.op == "hst")
            else:
                V.ok("keeps the structure", L.where)
        fw = writes(L.h(FLAG, st.env), L.h(FLAG))
        hn = R.hash(R.node)
        unmet = None
        for bits, leaf in R.cases():
            T, C_, VA, S = (R.has(bits, k) for k in ("TARGET", "CACHED", "VALID", "SIB"))
            # hashes are stored only where none was known
            if hw is None:
                V.maybe("known hashes kept", L.where, "the stored hashes are approximated")
            else:
                for p, v in hw:
                    if C_ and p is R.node:
                        if not (v is hn or R.eq(v, hn)):
                            V.no("known hashes kept", L.where, "the hash of a node that was known before is overwritten with %s" % str(v)[:80], exact)
                    elif p is not R.node:
                        if p.op == "hsel" and p.args[1] is R.X and is_read(p, SIBL) or p.op == "rd":
                            V.no("known hashes kept", L.where, "a hash is stored in another node than the one of the round", exact)
                        else:
                            V.maybe("known hashes kept", L.where, "a hash is stored in %s" % str(p)[:60])
                V.ok("known hashes kept", L.where)
            if R.kind == "r" and (R.v is FALSE or isinstance(R.v, T_) and st.holds(not_(R.v))):
                continue
            if not T:
                if hw or moved:
                    V.no("only targets", L.where, "a node that is not on the way to a target %s" % ("gets a hash" if hw else "uses up a target hash"), exact)
                else:
                    V.ok("only targets", L.where)
                continue
            # what this node needs
            compared = R.eq(hn, tgt) if leaf and tgt is not None else R.eq(hn, R.recomputed()) if not leaf else False
            duty = None
            if leaf:
                if moved != 1 and not (moved == 0 and C.key and not st.holds(eq0(sub(ZERO, ONE))) and R.kind != "back"):
                    duty = "the hash given for a target is not used up" if moved == 0 else None
                    if moved is None:
                        V.maybe("node checked", L.where, "the use of the target hashes is not recognised")
                if C_ and not VA and not compared:
                    duty = "the hash of a cached target is not compared with the given one"
                if not C_ and not any(p is R.node and (v is tgt) for p, v in hw or []):
                    duty = "the given hash of an unknown target is not stored"
            else:
                kids = R.children()
                absent = any(st.holds(same(k, NULL)) for k in kids)
                if C_ and not VA and not compared:
                    duty = "a cached node is not compared with the hash recomputed from its children"
                if not C_ and not absent and not any(p is R.node and R.norm(v) is R.recomputed() for p, v in hw or []):
                    duty = "an unknown node is not recomputed from its children"
            if R.kind != "back" and not leaf and not duty:
                pass
            # marking the parent
            for p, v in fw or []:
                if peel_casts(p) is peel_casts(R.P):
                    new = R.at(R.norm(v), bits)
                    pf = hsel(L.h(FLAG), p)
                    for pb in (0, sum(self.M.values()) - self.M["VALID"]):
                        x = replace(new, pf, num(pb))
                        if x.op != "num":
                            V.maybe("marking the parent", L.where, "the parent's flags become %s" % str(x)[:80])
                            continue
                        if x.args[0] & ~self.M["VALID"] != pb & ~self.M["VALID"] and pb & self.M["TARGET"]:
                            V.no("marking the parent", L.where, "the pass changes what is known about the parent apart from its validity", exact)
                        if x.args[0] & self.M["VALID"] and not (VA or C_ and S and compared):
                            V.no("marking the parent", L.where, "the parent is taken to be valid although %s" %
                                 ("nothing was compared" if not compared else "its other child was not known before" if not S else "this node was not known before"), exact)
                    V.ok("marking the parent", L.where)
                elif p is not R.X:
                    V.maybe("marking the parent", L.where, "flags of another node are changed")
            # going on to the parent
            if R.kind == "back" and not st.holds(same(R.P, NULL)) and duty is None:
                if not pushes:
                    V.maybe("parent visited", L.where, "how the next row is collected is not recognised")
                else:
                    got = False
                    for k, v in st.env.items():
                        if k[0] == "v" and v.op == "vec" and peel_casts(R.norm(last_of(v))) is peel_casts(R.P):
                            got = True
                    got = got or any(f.op == "same" and any(peel_casts(a) is peel_casts(R.P) for a in f.args) and not any(a is NULL for a in f.args) for f in R.facts)
                    if got:
                        V.ok("parent visited", L.where)
                    else:
                        V.no("parent visited", L.where, "the parent of a checked node is not visited in the next row", exact)
            if duty:
                unmet = duty
                if R.kind == "r":
                    V.no("node checked", L.where, "%s, and verification succeeds" % duty, exact and R.v is TRUE)
                elif not booleans_false(L, st):
                    V.no("node checked", L.where, duty, exact and C.key is not None)
            else:
                V.ok("node checked", L.where)
        if unmet and R.kind == "b":
            R.live.note = R.live.note + ("unmet",)
        elif unmet and R.kind == "back" and booleans_false(L, st):
            self.carried(L, st)

    def ends(self):
        V, fn = self.V, self.fn
        for s, v in fn.exits:
            if v is FALSE or isinstance(v, T_) and s.holds(not_(v)):
                continue
            exact = fn.exact and v is TRUE
            if "unmet" in s.note:
                V.no("failure kept", self.where, "verification succeeds after a failed comparison", exact)
            for ks in self.need:
                vals = [s.env.get(k) for k in ks]
                if any(x is not None and s.holds(x) for x in vals):
                    V.ok("failure kept", self.where)
                elif all(x is not None for x in vals):
                    V.no("failure kept", self.where, "verification succeeds although a comparison failed in an earlier round", exact)
                else:
                    V.maybe("failure kept", self.where, "the flag that records a failure is not visible at the end")
            # no row left
            keys = {k for k, _ in self.tree or []}
            vs = [s.env[k] for k in keys if k in s.env]
            vs = [v.args[1] if v.op == "ref" else v for v in vs]
            if any(s.holds(eq0(vsize(v))) for v in vs):
                V.ok("every row visited", self.where)
            elif len(vs) == 1 and not has_op(vs[0], FUZZY) and exact and can(s, le(ONE, vsize(vs[0]))):
                V.no("every row visited", self.where, "verification succeeds with a row of the partial tree left", judge(s, eq0(vsize(vs[0]))) == "no" or capped(s, vsize(vs[0])))
            else:
                V.maybe("every row visited", self.where, "it is not clear that every row of the partial tree was visited")
            # all given hashes used
            C = self.cur
            if C is not None:
                x = s.env.get(C.key)
                zs = [z for z in (self.size_of(s, self.targets),) if z is not None]
                if x is None or not zs:
                    V.maybe("target hashes used up", self.where, "the end of the given hashes is not visible")
                else:
                    ix = x.args[1] if x.op in ("vit", "rit", "dit") else x
                    g = le0(sub(zs[0], ix)) if x.op != "rit" else le0(add(ix, ONE))
                    if s.prove_le(g.args[0]) if g.op == "le" else s.holds(g):
                        V.ok("target hashes used up", self.where)
                    elif not self.mentions(s, ix):
                        V.no("target hashes used up", self.where, "verification succeeds without every given target hash having been used", exact)
                    else:
                        V.maybe("target hashes used up", self.where, "the test at the end is not understood")

    def size_of(self, s, p):
        return mk_size(self.fn.I, p)

    def mentions(self, s, ix):
        return bounds(s, ix, -1)


def capped(s, n):
    """The path only found n to be at most some c > 0."""
    for f in s.facts:
        if f.op == "le":
            c, d = dec(f.args[0])
            if d == {n: 1} and c < 0 and can(s, eq0(add(n, num(c)))):
                return True
    return False


def bounds(s, ix, sign):
    """Some fact of a state may bound ix on the side of sign (-1: from below, 1: from above)."""
    at = set(dec(ix)[1]) if ix.op in ("lin", "num") else {ix}
    for f in s.facts:
        if at & set(subterms(f)):
            if f.op == "le":
                d = dec(f.args[0])[1]
                if all(a in d and d[a] * (dec(ix)[1][a] if ix.op in ("lin", "num") else 1) * sign < 0 for a in at) and not any(at & set(subterms(x)) for x in d if x not in at):
                    continue
            return True
    return False


def mk_size(I, p):
    return vsize(sym("in:" + p))


def last_of(v):
    n, a = v.args[0], v.args[1]
    if a.op == "pfront":
        return a.args[2]
    return rd(a, sub(n, ONE), 1)


# ---- the pass from the roots down: CreateProofTree ----

class DownPass:
    """What building the partial tree does to each node of it."""

    def __init__(self, prog, eff, M, V, rollback, which):
        self.M, self.V, self.taken, self.rollback, self.which = M, V, set(), rollback, which
        self.rounds, self.found, self.cur = 0, False, None
        self.f = steps(prog).get("build")
        ps = [p["n"] for p in self.f["params"] if "BatchProof" in str(p.get("t"))] if self.f else []
        rs = [p["n"] for p in self.f["params"] if str(p.get("t")).endswith("&") and "std::vector<" in str(p["t"]) and not str(p["t"]).startswith("const") and not nodes_type(p["t"])] if self.f else []
        if len(ps) != 1 or len(rs) != 1:
            self.f = None
            V.maybe("anchor", "src/pollard.cpp", "the construction of the partial tree was not found")
            return
        self.where = "%s:%d" % (self.f["f"], self.f["l"])
        self.rec, self.proof = rs[0], ps[0]
        self.hashes = array_of_param(self.proof, "utreexo::BatchProof::m_proof")
        self.fn = Fn(prog, eff, self.f, lambda g: g.get("cls") == "utreexo::ForestState" and not g.get("ctor"), self.loop)
        if self.fn.err:
            V.maybe("anchor", self.where, self.fn.err)
        elif not self.found:
            V.maybe("anchor", self.where, "no loop over the nodes of the partial tree was recognised")
        else:
            self.ends()

    def say(self, prop, rule, where, what, exact=True):
        if prop in self.which:
            self.V.no(rule, where, what, exact)

    def loop(self, fn, L, kw):
        X = element(L, self.taken)
        if X is None:
            return
        self.taken.add(X)
        self.found = True
        H = Cursor(fn, L, self.hashes)
        A = Cursor(fn, L, positions_of("first", 0))
        B = Cursor(fn, L, positions_of("second", 1))
        if H.key is not None:
            self.cur = H
        for nm, c in (("proof hashes", H), ("proof positions", A), ("computed positions", B)):
            if c.key is None:
                self.V.maybe("consumption", L.where, "how the %s are consumed is not recognised" % nm)
        self.attached(fn, L)
        for s, kind, v in [(b, "back", None) for b in L.back] + [(s, k, v) for k, s, v in L.out if k in ("b", "r")]:
            R = Round(L, X, s, kind, v, self.M)
            self.rounds += 1
            self.one(fn, L, R, H, A, B)

    def attached(self, fn, L):
        """Roots put into the tree are known, and nothing about them is taken from an earlier verification."""
        e = L.entry
        for k, v in e.env.items():
            if k[0] != "v" or v.op != "vec":
                continue
            a = v.args[1]
            while a.op in ("st", "pfront"):
                p = peel_casts(a.args[3] if a.op == "st" else a.args[2])
                if any(is_read(u, ROOTS) for u in subterms(p)) and p.op == "rd":
                    q = a.args[3] if a.op == "st" else a.args[2]
                    fl = hsel(L.h(FLAG, e.env), q, e.holds)
                    exact = fn.exact or not fn.I.notes and not fn.I.joins
                    if fl.op == "num":
                        ok1, ok2 = fl.args[0] & self.M["CACHED"], not fl.args[0] & self.M["VALID"]
                    else:
                        lo, hi = (replace(fl, hsel(root(L.h(FLAG, e.env)), q), num(x)) for x in (0, 255))
                        if lo.op != "num" or hi.op != "num":
                            if fl.op == "hsel" and fl.args[1] is q:
                                lo, hi = ZERO, num(255)
                            else:
                                self.V.maybe("roots known", L.where, "the flags of an attached root become %s" % str(fl)[:80])
                                a = a.args[0]
                                continue
                        ok1, ok2 = lo.args[0] & self.M["CACHED"], not hi.args[0] & self.M["VALID"]
                    if not ok1:
                        self.say("C01", "roots known", L.where, "a root is put into the partial tree without being marked as known, so it is not compared", exact)
                        self.say("C02", "roots known", L.where, "a root is put into the partial tree without being marked as known, so its hash is overwritten", exact)
                    if not ok2:
                        self.say("C01", "roots known", L.where, "a root may keep the mark of being valid from an earlier verification", exact)
                    if ok1 and ok2:
                        self.V.ok("roots known", L.where)
                a = a.args[0]

    def one(self, fn, L, R, H, A, B):
        V, st, M = self.V, R.st, self.M
        exact = not fn.I.notes and not fn.I.joins and not fn.I.meets and not R.fuzzy()
        mh, ma, mb = (c.moved(L, st) if c.key else None for c in (H, A, B))
        elem = None
        if H.key:
            ix = sub(H.head, ONE) if H.rev else H.head
            for t in list(R.facts) + [v for k, v in st.env.items() if k[0] == "h"]:
                for u in subterms(t):
                    if u.op == "rd" and self.hashes(u.args[0]) and u.args[2] == 1 and u.args[1] is ix:
                        elem = u
        hn = R.hash(R.node)
        W = writes(L.h(HASH, st.env), L.h(HASH))
        hw = None if W is None else [(R.norm(p), v) for p, v in W if not R.fresh(p)]
        for q in (ROOTS, LEAVES, POSMAP, REMEMBER):
            w = L.h(q, st.env)
            if w is not L.h(q):
                self.say("C02" if q in (ROOTS, LEAVES) else "C03", "keeps the rest", L.where, "building the partial tree changes %s" % last(q), exact and w.op == "hst")
            else:
                V.ok("keeps the rest", L.where)
        for q in (NODE, SIBL, PAR):
            w = writes(L.h(q, st.env), L.h(q))
            if w is None or any(not R.fresh(p) for p, _ in w):
                V.maybe("keeps the rest", L.where, "links of nodes that existed before are changed")
        rejected = R.kind == "r" and (R.v is FALSE or isinstance(R.v, T_) and st.holds(not_(R.v)))
        fin = R.final(FLAG, R.X)
        for bits, leaf in R.cases():
            C_ = R.has(bits, "CACHED")
            # which hashes are stored where
            if hw is None:
                V.maybe("known hashes kept", L.where, "the stored hashes are approximated")
            for p, v in hw or []:
                if p is R.node:
                    if C_ and not (v is hn or R.eq(v, hn)):
                        self.say("C02", "known hashes kept", L.where, "a supplied hash overwrites the hash of a node that was known before", exact)
                    if not C_ and H.key and v is not elem and "C01" in self.which:
                        if v.op == "rd" and self.hashes(v.args[0]) or resolved(v):
                            self.say("C01", "proof hash used", L.where, "an unknown node does not get the next proof hash", exact)
                        else:
                            V.maybe("proof hash used", L.where, "an unknown node gets %s" % str(v)[:80])
                elif p.op in ("hsel", "rd"):
                    self.say("C02", "known hashes kept", L.where, "a hash is stored in another node than the one of the round", exact)
                else:
                    V.maybe("known hashes kept", L.where, "a hash is stored in %s" % str(p)[:60])
            V.ok("known hashes kept", L.where)
            put = any(p is R.node for p, v in hw or [])
            if rejected:
                continue
            if "C01" in self.which and H.key and A.key and B.key:
                if None in (mh, ma, mb):
                    V.maybe("consumption", L.where, "the cursors move in a way that is not understood")
                    continue
                if mh and not put and not (elem is not None and R.eq(hn, elem)):
                    self.say("C01", "proof hash used", L.where, "a proof hash is used up without being stored or found equal to the known one", exact)
                elif mh > 1:
                    self.say("C01", "proof hash used", L.where, "several proof hashes are used up for one node", exact)
                elif put and not mh:
                    self.say("C01", "proof hash used", L.where, "a proof hash is stored without being used up", exact)
                elif ma and not mb and not C_ and not put:
                    self.say("C01", "proof hash used", L.where, "an unknown node of the proof gets no hash", exact)
                else:
                    V.ok("proof hash used", L.where)
                if mb and not leaf:
                    f = R.at(fin, bits)
                    if f.op != "num":
                        V.maybe("path marked", L.where, "the flags of a computed node become %s" % str(f)[:80])
                    elif not f.args[0] & M["TARGET"]:
                        self.say("C01", "path marked", L.where, "a node on the way to a target is not marked, so it is not checked", exact)
                    else:
                        V.ok("path marked", L.where)
            f = R.at(fin, bits)
            if f.op == "num" and "C01" in self.which:
                if f.args[0] & M["VALID"] and not bits & M["VALID"]:
                    self.say("C01", "path marked", L.where, "a node is marked as valid before anything was compared", exact)
            if f.op == "num" and (f.args[0] ^ bits) & M["CACHED"]:
                self.say("C02" if bits & M["CACHED"] else "C01", "cache marks", L.where, "the mark whether a node was known before is changed", exact)
            elif f.op == "num":
                V.ok("cache marks", L.where)
        self.children(fn, L, R, exact)

    def children(self, fn, L, R, exact):
        V, st, M = self.V, R.ns, self.M
        N0, N1 = L.h(NIECES), L.h(NIECES, st.env)
        old = hsel(N0, R.sib)
        cur = hsel(N1, R.sib, st.holds)
        W = writes(N1, N0)
        created = set()
        if W is None:
            V.maybe("children created", L.where, "the child links are approximated")
            return
        for p, v in W:
            p = R.norm(p)
            if R.fresh(p):
                continue
            if p is not R.sib:
                if p.op in ("hsel", "rd"):
                    self.say("C02", "children created", L.where, "the children of another node than the one of the round are changed", exact)
                V.maybe("children created", L.where, "child links of %s are changed" % str(p)[:60])
        for i in (0, 1):
            a, b = rd(cur, num(i), 1, st.holds), rd(old, num(i), 1, st.holds)
            a = R.norm(a)
            if a is b:
                continue
            if st.holds(same(b, NULL)):
                if R.fresh(a):
                    created.add(i)
                    V.ok("children created", L.where)
                else:
                    V.maybe("children created", L.where, "an absent child becomes %s" % str(a)[:60])
            elif st.holds(not_(same(b, NULL))) or not any(f.op in ("same", "not") and any(u is b for u in subterms(f)) for f in R.facts):
                self.say("C02", "children created", L.where, "a child that was there before is replaced", exact)
                if R.fresh(a):
                    created.add(i)
            else:
                V.maybe("children created", L.where, "child %d becomes %s" % (i, str(a)[:60]))
                return
        PW = writes(L.h(PAR, st.env), L.h(PAR))
        news = [p for p, v in PW or [] if R.fresh(p) and peel_casts(R.norm(v)) is peel_casts(R.X)]
        # recorded for the case of rejection
        k = ("a", self.rec)
        rv, r0 = st.env.get(k), L.at(k)
        pushed = []
        if rv is not None and rv is not r0:
            if rv.op == "vec" and vsize(rv) is ZERO and r0 is not None and vsize(r0) is not ZERO:
                self.say("C03", "created children recorded", L.where, "the record of created children is emptied", exact)
                return
            if rv.op == "vec" and r0 is not None:
                d = sub(vsize(rv), vsize(r0))
                arr = varr(rv)
                if is_num(d) and 0 < d.args[0] < 4:
                    for j in range(d.args[0]):
                        pushed.append(rd(arr, add(vsize(r0), num(j)), 1, st.holds))
                else:
                    pushed = None
            else:
                pushed = None
        if self.rollback is None or pushed is None or any(p.op != "struct" for p in pushed):
            V.maybe("created children recorded", L.where, "the record of created children is not recognised")
        else:
            undone, most = set(), set()
            for p in pushed:
                fs = dict(p.args[1])
                who = [v for v in fs.values() if peel_casts(v) is peel_casts(R.X)]
                code = [v for v in fs.values() if v.op == "num"]
                if not who and len(code) == 1 and created and any(v in news for v in fs.values()):
                    self.say("C03", "created children recorded", L.where, "created children are recorded under one of them instead of the node they hang below", exact)
                    undone = None
                    break
                if len(who) != 1 or len(code) != 1:
                    V.maybe("created children recorded", L.where, "an entry of the record is %s" % str(p)[:80])
                    undone = None
                    break
                x = self.rollback(code[0].args[0])
                if x is None:
                    V.maybe("created children recorded", L.where, "what is undone for an entry of the record is not clear")
                    undone = None
                    break
                undone |= x
                most |= self.rollback.most(code[0].args[0])
            if undone is not None:
                names = {0: "left", 1: "right"}
                if created - undone:
                    self.say("C03", "created children recorded", L.where, "a rejected proof leaves the %s child created for it behind" % " and ".join(names[i] for i in sorted(created - undone)), exact)
                elif most - created:
                    self.say("C02", "created children recorded", L.where, "a rejected proof removes the %s child that was there before" % " and ".join(names[i] for i in sorted(most - created)), exact)
                    self.say("C03", "created children recorded", L.where, "a rejected proof removes the %s child that was there before" % " and ".join(names[i] for i in sorted(most - created)), exact)
                elif created:
                    V.ok("created children recorded", L.where)
        # the new nodes of the tree
        for p in news:
            nd, sb, fl, ps = (R.norm(hsel(L.h(q, st.env), p, st.holds)) for q in (NODE, SIBL, FLAG, POS))
            slot = [i for i in (0, 1) if R.norm(rd(cur, num(i), 1, st.holds)) is nd]
            if len(slot) != 1:
                V.maybe("children marked", L.where, "a new node of the tree holds %s" % str(nd)[:60])
                continue
            i = slot[0]
            if fl.op != "num":
                V.maybe("children marked", L.where, "the flags of a new node become %s" % str(fl)[:80])
                continue
            fl = fl.args[0]
            known = lambda j: False if j in created else True if st.holds(not_(same(rd(old, num(j), 1, st.holds), NULL))) else None
            for j, m, what in ((i, "CACHED", "a child"), (1 - i, "SIB", "the sibling of a child")):
                kn = known(j)
                if kn is None:
                    V.maybe("children marked", L.where, "it is not clear whether a child existed")
                elif bool(fl & M[m]) and not kn:
                    self.say("C01", "children marked", L.where, "%s that was created for this proof is marked as known before" % what, exact)
                elif m == "CACHED" and kn and not fl & M[m]:
                    self.say("C02", "children marked", L.where, "%s that was known before is not marked as known, so its hash is overwritten" % what, exact)
                else:
                    V.ok("children marked", L.where)
            if fl & M["VALID"]:
                self.say("C01", "children marked", L.where, "a child is marked as valid before anything was compared", exact)
            other = R.norm(rd(cur, num(1 - i), 1, st.holds))
            if sb is not other:
                if sb is nd or sb is R.node or sb is R.sib or sb is NULL:
                    self.say("C01", "children marked", L.where, "the sibling recorded for a child is not its sibling", exact)
                else:
                    V.maybe("children marked", L.where, "the sibling recorded for a child is %s" % str(sb)[:60])
            side = side_of(ps)
            if side is None:
                V.maybe("children marked", L.where, "the position of a child is %s" % str(ps)[:60])
            elif side != i:
                self.say("C01", "children marked", L.where, "the %s child gets the position of the other one" % ("left", "right")[i], exact)

    def ends(self):
        V, fn, H = self.V, self.fn, self.cur
        if H is None or "C01" not in self.which:
            return
        for s, v in fn.exits:
            if v is FALSE or isinstance(v, T_) and s.holds(not_(v)):
                continue
            x = s.env.get(H.key)
            if x is None:
                V.maybe("proof hashes used up", self.where, "the end of the proof is not visible")
                continue
            ix = x.args[1] if x.op in ("vit", "rit", "dit") else x
            P = [z for f in s.facts for z in subterms(f) if z.op == "sz" and z.args[0].op == "fld" and z.args[0].args[1] == "utreexo::BatchProof::m_proof"]
            end = ZERO if x.op == "rit" else P[0] if P else None
            if end is not None and s.holds(eq0(sub(ix, end))) or end is not None and (s.prove_le(sub(end, ix)) if x.op != "rit" else s.prove_le(ix)):
                V.ok("proof hashes used up", self.where)
            else:
                if not bounds(s, ix, 1 if x.op == "rit" else -1) and fn.exact and v is TRUE:
                    V.no("proof hashes used up", self.where, "the partial tree is accepted without every supplied proof hash having been used")
                else:
                    V.maybe("proof hashes used up", self.where, "the test at the end is not understood")


def positions_of(name, n):
    """Recognises the arrays of ProofPositions."""
    def of(a):
        a = base_array(a)
        if a.op == "arr":
            a = a.args[0]
        if a.op in ("fld", "tget", "proj") and isinstance(a.args[0], T_) and a.args[0].op == "call" and last(a.args[0].args[0]) == "ProofPositions":
            return str(a.args[1]).endswith(name) or str(a.args[1]).endswith("#%d" % n) or a.args[1] == n
        return False
    return of


def side_of(p):
    """0 / 1 for the position of a left / right child"""
    if p.op == "call" and last(p.args[0]) == "LeftChild":
        return 0
    if p.op == "call" and last(p.args[0]) == "RightChild":
        return 1
    if p.op == "call" and last(p.args[0]) == "Child" and p.args[-1].op == "num":
        return p.args[-1].args[0] if p.args[-1].args[0] in (0, 1) else None
    return None


# ---- the whole of it: Verify ----

def can(s, *ts):
    s = s.copy()
    return all(s.assume(t) for t in ts) and not s.holds(FALSE)


def entry_of(p, kap, plain=False):
    """p is the node, or the sibling's node, held by an element visited by a loop: (element, NODE or SIBL)"""
    if p.op != "hsel" or heap_field(p.args[0]) not in (SIBL, NODE):
        return None
    x = peel_casts(p.args[1])
    if x.op in ("fld", "tget") and not plain:
        x = x.args[0]
    if x.op == "rd" and any(u is kap for u in subterms(x.args[1])):
        return x, heap_field(p.args[0])
    return None


def code_of(g, e):
    """g says that a field of the entry equals a number: the number"""
    if g.op == "eq":
        c, d = dec(g.args[0])
        if len(d) == 1:
            (a, k), = d.items()
            if a.op == "fld" and a.args[0] is e and abs(k) == 1:
                return -c * k
    return None


def emptied(f, e, h0):
    """The path found child i absent already: i. It found a part of the entry present: -1, or absent, which it never is: -2. Otherwise None."""
    g, neg = (f.args[0], True) if f.op == "not" else (f, False)
    if g.op != "same" or NULL not in g.args:
        return None
    t = g.args[0] if g.args[1] is NULL else g.args[1]
    if t.op == "rd" and t.args[1].op == "num" and t.args[0].op == "hsel" and heap_field(t.args[0].args[0]) == NIECES:
        return -1 if neg else t.args[1].args[0]
    t = peel_casts(t)
    if t.op == "fld" and t.args[0] is e or t.op == "hsel" and heap_field(t.args[0]) in (SIBL, NODE):
        return -1 if neg else -2
    return None


def node_data(f):
    """A condition on what a node holds."""
    return any(u.op == "hsel" and heap_field(u.args[0]) in (FLAG, HASH, POS, PAR) for u in subterms(f))


class Top:
    def __init__(self, prog, eff, V, which):
        self.V, self.which, self.codes, self.maps = V, which, None, []
        self.f = function(prog, "utreexo::Pollard::Verify")
        if self.f is None or len(self.f["params"]) != 2:
            V.maybe("anchor", "src/pollard.cpp", "the verification of a pollard was not found")
            return
        self.where = "%s:%d" % (self.f["f"], self.f["l"])
        self.proof, self.hashes = self.f["params"][0]["n"], self.f["params"][1]["n"]
        self.rolls, self.others, self.early = [], [], []
        self.role = {f["n"]: k for k, f in steps(prog).items()}
        if len(self.role) != 2:
            V.maybe("anchor", self.where, "the functions that build and verify the partial tree were not found")
            return
        self.fn = Fn(prog, eff, self.f, lambda g: g["n"] in self.role or g.get("cls") == "utreexo::ForestState" and not g.get("ctor") and last(g["n"]) != "CheckTargetsSanity"
                     or g["n"].startswith("utreexo::_") and g["n"] != "utreexo::_", self.loop)
        if self.fn.err:
            V.maybe("anchor", self.where, self.fn.err)

    def say(self, prop, rule, where, what, exact=True):
        if prop in self.which:
            self.V.no(rule, where, what, exact)

    # the loops that change child links: undoing a rejected proof, or remembering the leaves of an accepted one
    def loop(self, fn, L, kw):
        self.hashes_kept(fn, L)
        h0 = L.h(NIECES)
        if h0 is None or h0.op != "phi":
            return
        e, bad, paths, loose = None, None, [], []
        for s in L.back:
            W = writes(L.h(NIECES, s.env), h0)
            if W is None:
                bad = "the child links are approximated"
                break
            slots, links = set(), [s.env.get(("h", NIECES))]
            for p, v in W:
                b = entry_of(p, L.kap)
                old = hsel(h0, p)
                for i in (0, 1):
                    x = rd(v, num(i), 1, s.holds)
                    if x is rd(old, num(i), 1, s.holds):
                        continue
                    if b is None or x is not NULL or e is not None and b[0] is not e:
                        self.others.append((L, h0))
                        return
                    e = b[0]
                    if b[1] == SIBL:
                        slots.add(i)
                    else:
                        loose.append(i)
            paths.append((s, slots))
        if e is None and bad is None:
            return
        # what happens to an entry with a given code
        cuts = []
        for s, slots in paths:
            eqs, nes, rest = set(), set(), []
            for f in s.facts:
                g = f.args[0] if f.op == "not" else f
                if not any(u is e for u in subterms(g)):
                    continue
                c = code_of(g, e)
                if c is not None:
                    (nes if f.op == "not" else eqs).add(c)
                    continue
                z = emptied(f, e, h0)
                if z == -2:
                    break
                if z is not None:
                    slots = slots | ({z} if z >= 0 else set())
                else:
                    rest.append(f)
            else:
                cuts.append((eqs, nes, slots, rest))
        for s in [s for k, s, _ in L.out if k in ("b", "r")]:
            rest = [f for f in s.facts if any(u is e for u in subterms(f)) and emptied(f, e, h0) not in (-1, -2)]
            self.early.append((L, rest))
        if loose:
            self.say("C02", "rolled back", L.where, "a rejected proof removes children which hang below another node than the recorded one", bad is None and not fn.I.notes)
        self.rolls.append((L, h0, cuts, e, bad))

    def rollback(self):
        """code -> child slots emptied for sure, or None"""
        if not hasattr(self, "fn") or self.fn.err or not self.rolls:
            return None
        for L, h0, cuts, e, bad in self.rolls:
            if bad or self.fn.I.meets or self.fn.I.joins:
                return None

        def go(c):
            out = None
            for L, h0, cuts, e, bad in self.rolls:
                for eqs, nes, slots, rest in cuts:
                    if eqs and eqs != {c} or c in nes:
                        continue
                    if rest and not slots:
                        if not all(node_data(f) for f in rest):
                            return None
                    out = set(slots) if out is None else out & slots
            return out or set()

        def most(c):
            out = set()
            for L, h0, cuts, e, bad in self.rolls:
                for eqs, nes, slots, rest in cuts:
                    if not (eqs and eqs != {c} or c in nes):
                        out |= slots
            return out
        go.most = most
        return go

    def hashes_kept(self, fn, L):
        h0 = L.h(HASH)
        if h0 is None or h0.op != "phi" or "C02" not in self.which:
            return
        for s in L.back:
            for p, v in writes(L.h(HASH, s.env), h0) or []:
                b = entry_of(p, L.kap, plain=True)
                if b is not None and v is not hsel(h0, p) and not any(heap_field(u.args[0]) == FLAG for f in s.facts for u in subterms(f) if u.op == "hsel"):
                    self.V.no("roots kept", L.where, "stored hashes are overwritten outside the checks", not fn.I.notes)

    def check(self):
        V = self.V
        if not hasattr(self, "fn") or self.fn.err:
            return
        fn, I = self.fn, self.fn.I
        T = fld(sym("in:" + self.proof), "utreexo::BatchProof::m_sorted_targets")
        P = fld(sym("in:" + self.proof), "utreexo::BatchProof::m_proof")
        TG = fld(sym("in:" + self.proof), "utreexo::BatchProof::m_targets")
        HS = sym("in:" + self.hashes)
        from .c04 import entails_accept
        for s, v in fn.exits:
            if not isinstance(v, T_):
                continue
            exact = fn.exact
            calls = {}
            for f in s.facts:
                g = f.args[0] if f.op == "not" else f
                for u in [g] + list(g.args if g.op in ("and", "or") else ()):
                    if isinstance(u, T_) and u.op == "call" and u.args[0] in self.role:
                        calls[self.role[u.args[0]]] = (u, f is u)
            self.roots(s, exact)
            if v is FALSE or s.holds(not_(v)):
                self.rejected(s, calls, exact)
                continue
            if v is not TRUE:
                V.maybe("all checks passed", self.where, "returns %s" % str(v)[:80])
                continue
            if "C01" in self.which:
                self.accepted(s, calls, exact, T, P, TG, HS, entails_accept)
        if "C03" in self.which or "C02" in self.which:
            self.rolled()

    def accepted(self, s, calls, exact, T, P, TG, HS, entails_accept):
        V = self.V
        rule = "all checks passed"
        if s.holds(eq0(sub(vsize(HS), vsize(TG)))) or s.holds(eq0(sub(vsize(HS), vsize(T)))):
            V.ok(rule, self.where)
        else:
            V.no(rule, self.where, "a proof is accepted without as many hashes as targets having been given", exact)
        if entails_accept(s, T, NV):
            V.ok(rule, self.where)
        elif not any(has_op(f, FUZZY | {"phi"}) for f in s.facts if any(u is T for u in subterms(f))):
            V.no(rule, self.where, "a proof is accepted although its targets need not be distinct leaves of the forest", exact)
        else:
            V.maybe(rule, self.where, "whether the targets are distinct leaves is not clear")
        empty = s.holds(eq0(vsize(TG))) or s.holds(eq0(vsize(T))) or s.holds(eq0(vsize(HS)))
        if empty:
            few = s.holds(eq0(vsize(P)))
            for f in s.facts:
                if f.op == "le":
                    for z in dec(f.args[0])[1]:
                        if z.op == "sz" and z.args[0].op in ("fld", "tget", "proj") and any(u.op == "call" and last(u.args[0]) == "ProofPositions" for u in subterms(z)):
                            few = few or s.prove_le(sub(vsize(P), z))
            if few or calls.get("build", (0, False))[1]:
                V.ok(rule, self.where)
            else:
                V.no(rule, self.where, "a proof without targets is accepted whatever hashes it carries", exact)
            return
        c, v = calls.get("build"), calls.get("verify")
        for nm, x in (("built", c), ("verified", v)):
            if x is None or not x[1]:
                V.no(rule, self.where, "a proof is accepted without its partial tree having been %s successfully" % nm, exact)
                return
        a = v[0].args[1:]
        site = [u for u in c[0].args if isinstance(u, T_) and u.op == "site"]
        ok = any(x is HS or x.op == "vec" and vsize(x) is vsize(HS) for x in a) and any(x.op == "unk" and site and x.args[0][:2] == site[0].args[0] and x.args[0][2] == "out0" for x in a)
        if ok and any(x.op == "sym" and x.args[0] == "in:" + self.proof for x in c[0].args[1:] if isinstance(x, T_)):
            V.ok(rule, self.where)
        else:
            V.maybe(rule, self.where, "the partial tree that is verified is not recognised as the one that was built")

    def roots(self, s, exact):
        for q in (ROOTS, LEAVES):
            h = s.env.get(("h", q))
            if h is None or h is hb(q):
                self.V.ok("roots kept", self.where)
            else:
                self.say("C02", "roots kept", self.where, "%s is changed" % last(q), exact and h.op == "hst")
                if not (exact and h.op == "hst"):
                    self.V.maybe("roots kept", self.where, "%s may be changed" % last(q))
        h = s.env.get(("h", HASH))
        if h is not None and h is not hb(HASH) and h.op == "hst":
            self.say("C02", "roots kept", self.where, "a stored hash is changed after the checks", exact)
        elif h is not None and h.op == "phi":
            self.V.maybe("roots kept", self.where, "stored hashes change in a loop")

    def rejected(self, s, calls, exact):
        V = self.V
        rule = "rolled back"
        for q in (POSMAP, REMEMBER):
            h = s.env.get(("h", q))
            if h is None or h is hb(q):
                V.ok("lookup kept", self.where)
            else:
                self.say("C03", "lookup kept", self.where, "%s is changed and the proof then rejected" % last(q), exact and h.op in ("hst", "phi"))
        h = s.env.get(("h", NIECES))
        if "build" not in calls:
            if h is None or h is hb(NIECES):
                V.ok(rule, self.where)
            else:
                self.say("C03", rule, self.where, "the pollard is changed and the proof then rejected", exact and h.op != "unk" and "site" not in str(h.op))
            return
        r0 = root(h) if h is not None else None
        if r0 is not None and r0.op == "phi":
            if any(r0.args[0] == p.args[0] for _, p in self.others):
                self.say("C03", rule, self.where, "child links are written before the proof is rejected", exact)
                return
            if any(r0.args[0] == p.args[0] for _, p, *_ in self.rolls) and h.op == "phi":
                V.ok(rule, self.where)
                return
        if h is not None and h.op == "hst":
            self.say("C03", rule, self.where, "child links are written before the proof is rejected", exact and not has_op(h, {"phi"}))
        elif h is not None and h.op == "unk" and not any(f.op == "eq" and any(u.op == "sz" and has_op(u, {"unk"}) for u in subterms(f)) for f in s.facts):
            self.say("C03", rule, self.where, "a proof is rejected without the children created for it being removed", exact)
        elif h is None:
            V.maybe(rule, self.where, "building the partial tree is not seen to change child links")

    def rolled(self):
        """The rollback loops run over the whole record, and start from what the passes left."""
        V = self.V
        for L, rest in self.early:
            if rest and all(node_data(f) for f in rest):
                self.say("C03", "rolled back", L.where, "undoing a rejected proof stops depending on what a node holds", not self.fn.I.notes)
        for L, h0, cuts, e, bad in self.rolls:
            if bad:
                V.maybe("rolled back", L.where, bad)
                continue
            pre = L.entry.env.get(("h", NIECES))
            if pre is not None and pre.op in ("phi", "hst") and "C03" in self.which:
                oth = any(pre.args[0] == p.args[0] for _, p in self.others) if pre.op == "phi" else True
                if oth:
                    V.no("rolled back", L.where, "child links are written before the proof is rejected, apart from the recorded ones", self.fn.exact or not self.fn.I.notes)
            if "C03" not in self.which:
                continue
            arr, ix = e.args[0], e.args[1]
            exits = [s for k, s, _ in L.out if k == "exit"]
            if any(k == "b" for k, _, _ in L.out):
                V.maybe("rolled back", L.where, "the loop over the record can be left early")
            src = arr.args[0] if arr.op == "arr" else None
            n = vsize(src) if src is not None else None
            first, step = subst(ix, {L.kap: ZERO}), sub(subst(ix, {L.kap: add(L.kap, ONE)}), ix)
            if n is None or not is_num(step) or abs(step.args[0]) != 1 or not exits:
                V.maybe("rolled back", L.where, "the order in which the record is undone is not recognised")
                continue
            up = step.args[0] == 1
            f_ok = eqint(L.start, first, ZERO if up else sub(n, ONE))
            x_ok = [eqint(s, ix, n if up else num(-1)) for s in exits]
            if f_ok == "yes" and all(x == "yes" for x in x_ok):
                V.ok("rolled back", L.where)
            elif is_num(first) and first.args[0] > 0 and up or any(s.holds(lt(ix, n)) and up and s.holds(le(ZERO, ix)) for s in exits):
                V.no("rolled back", L.where, "not every recorded child is removed on rejection", not self.fn.I.notes)
            else:
                d = [sub(ix, n) for s in exits] if up else [ix for s in exits]
                left = eq0(sub(ix, sub(n, ONE))) if up else eq0(ix)
                if any(judge(s, eq0(sub(ix, n if up else num(-1)))) == "no" or s.copy().assume(le(ONE, n)) and can(s, left, le(ONE, n)) for s in exits):
                    V.no("rolled back", L.where, "not every recorded child is removed on rejection", not self.fn.I.notes)
                else:
                    V.maybe("rolled back", L.where, "it is not clear that the whole record is undone")


def forest(prog, eff, V, which):
    """A full forest accepts only hashes that are its leaves, and changes nothing."""
    f = function(prog, "utreexo::RamForest::Verify")
    if f is None or len(f["params"]) != 2:
        V.maybe("anchor", "src/ram_forest.cpp", "the verification of a full forest was not found")
        return None
    where = "%s:%d" % (f["f"], f["l"])
    fn = Fn(prog, eff, f, lambda g: g.get("cls") == "utreexo::ForestState" and not g.get("ctor"))
    if fn.err:
        V.maybe("anchor", where, fn.err)
        return f
    HS = sym("in:" + f["params"][1]["n"])
    m = hsel(hb(POSMAP), THISV)
    for s, v in fn.exits:
        for k, h in s.env.items():
            if k[0] == "h" and h is not hb(k[1]):
                W = writes(h, hb(k[1]))
                if W and any(not p.op.startswith("new") for p, _ in W):
                    V.no("roots kept", where, "verification in a full forest changes %s" % last(k[1]), fn.exact)
                else:
                    V.maybe("roots kept", where, "%s may change" % last(k[1]))
        V.ok("roots kept", where)
        if not isinstance(v, T_) or v is FALSE or s.holds(not_(v)) or "C01" not in which:
            continue
        want = forall(vsize(HS), 1, mhas(m, rd(varr(HS), mk("bv", 1), 1)))
        if s.holds(want) or s.holds(eq0(vsize(HS))):
            V.ok("every hash is a leaf", where)
        elif v is TRUE and not any(has_op(f2, FUZZY | {"phi"}) for f2 in s.facts):
            V.no("every hash is a leaf", where, "a full forest accepts hashes without each of them having been found among its leaves", fn.exact)
        else:
            V.maybe("every hash is a leaf", where, "returns %s" % str(v)[:60])
    return f


def run(r, tier, which):
    for config in ("ndebug",) if tier == "quick" else ("ndebug", "release"):
        prog, eff = program(config)
        V = Verdicts(r, which)
        M = masks(prog, eff)
        top = Top(prog, eff, V, which)
        top.check()
        if hasattr(top, "fn"):
            r.analysed(top.f)
            r.count("paths through verification", len(top.fn.exits))
        if M is None:
            V.maybe("anchor", "src/pollard.cpp", "the flags of the nodes of a partial tree are not recognised")
        else:
            d = DownPass(prog, eff, M, V, top.rollback(), which)
            if d.f is not None:
                r.analysed(d.f)
            r.count("rounds of building the partial tree", d.rounds)
            u = UpPass(prog, eff, M, V, which)
            if u.f is not None:
                r.analysed(u.f)
            r.count("rounds of verifying the partial tree", u.rounds)
        if which != ("C03",):
            f = forest(prog, eff, V, which)
            if f is not None:
                r.analysed(f)
        V.report()
