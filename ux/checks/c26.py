"""C26: every loop makes progress."""
from ..facts import fn_nodes, loc
from ..report import Report
from ..interp import replace
from ..terms import T
from ..vc import *
from ..terms import *

LOOPS = ("for", "while", "do", "rangefor")
INPUT_LISTS = ("utreexo::BatchProof", "utreexo::UndoBatch")


def one_line(g):
    b = g.get("body")
    ss = b.get("s", ()) if isinstance(b, dict) else ()
    return len(ss) == 1 and ss[0]["k"] == "return"


def opaque_for(f):
    return lambda g: g is not f and not g.get("ctor") and "(lambda" not in g["n"] and "operator()" not in g["n"] and not one_line(g)


def atoms(t):
    """Every term inside t, also inside the tuples that name loops and unknowns."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            todo += x.args
        elif isinstance(x, (tuple, list, frozenset)):
            todo += x
    return seen


class Loop:
    def __init__(self, I, f, n, h, kw):
        self.I, self.f, self.n, self.h = I, f, n, kw["start"]
        self.head, self.back, self.kap, self.entry, self.out = (kw[x] for x in ("head", "back", "kap", "entry", "out"))
        self._inv = {}
        self.start = kw["start"]
        self.start_facts = dict(kw["start"].facts)
        self.back = [self.shifted(b) for b in self.back]
        # what is known where the loop is left, before the interpreter relates it to the number of rounds
        self.leave = [[x for x in s.facts if x not in self.h.facts] for _, s, _ in self.out]

    def invariant(self, t):
        """t means the same in every round."""
        r = self._inv.get(t)
        if r is None:
            r = True
            for x in atoms(t):
                if x is self.kap or x.op in ("phi", "unk") and self.kap in atoms(x):
                    r = False
                    break
            self._inv[t] = r
        return r

    def news(self, s):
        return [x for x in s.facts if x not in self.entry.facts]

    # -- termination arguments --
    def shifted(self, b):
        """Where something is left of a shifted number, the shift is less than its width."""
        s = b.copy()
        for x in b.facts:
            if x.op == "not" and x.args[0].op == "eq":
                for y in subterms(x):
                    if y.op == "shr" and y.args[1].op != "num" and isolated(x.args[0].args[0], y):
                        s.add(le(y.args[1], num(63)))
        return s

    def counted(self, b):
        """The rounds completed before this one are bounded by a value that does not change."""
        for x in b.facts:
            if x.op != "le":
                continue
            c, d = dec(x.args[0])
            if d.get(self.kap, 0) > 0 and all(a is self.kap or self.invariant(a) for a in d):
                return x
        return None

    def measures(self):
        """Integer values of the head state that may serve as measures: (name, value at head, value at a back edge)."""
        out = []

        def walk(name, v, at):
            if v.op == "struct":
                for i, (q, x) in enumerate(v.args[1]):
                    walk("%s.%s" % (name, q), x, lambda b, at=at, i=i: (lambda y: y.args[1][i][1] if y is not None and y.op == "struct" and len(y.args[1]) > i else None)(at(b)))
            elif v.op == "vec" or v.op in ("phi", "sym", "hsel") and v.ty is None:
                out.append(("size of %s" % name, vsize(v), lambda b, at=at: (lambda y: vsize(y) if y is not None else None)(at(b))))
            elif v.op in ("vit", "rit", "dit"):
                out.append(("place of %s" % name, v.args[1], lambda b, at=at, v=v: (lambda y: y.args[1] if y is not None and y.op == v.op and y.args[0] is v.args[0] else None)(at(b))))
            elif v.op in ("lin", "num", "phi", "shr", "trunc", "byte") or v.ty is not None:
                out.append((name, v, at))
        for k, v in self.head.items():
            walk(str(k[1] if len(k) > 1 else k), v, lambda b, k=k: b.env.get(k))
        return out

    def ranked(self):
        left = list(self.back)
        why = []
        left = [b for b in left if self.counted(b) is None]
        if len(left) < len(self.back):
            why.append("rounds counted against a fixed bound")
        ms = self.measures()
        while left:
            for name, v, at in ms:
                for sign in (1, -1):
                    strict, ok = [], True
                    for b in left:
                        w = at(b)
                        if w is None:
                            ok = False
                            break
                        cond = [x for x in b.facts if x.op == "le" and set(dec(x.args[0])[1]) == {v}] if v.op == "phi" else []
                        m = self.moved(b, v, w, sign, cond)
                        if m == 2:
                            if sign > 0 and low(v) or self.bounded(b, v, sign):
                                strict.append(b)
                        elif m is None:
                            ok = False
                            break
                    if ok and strict:
                        left = [b for b in left if b not in strict]
                        why.append("%s %s" % (name, "decreases" if sign > 0 else "increases to a fixed bound"))
                        break
                else:
                    continue
                break
            else:
                return None
        return why

    def moved(self, b, v, w, sign, cond):
        """Is w, the next v, on the right side of v (2), or the same (1), if the next round happens at all?"""
        worst = 2
        for c, x in wraps(w):
            s = b.copy()
            if c is not None and not s.assume(c):
                continue
            nxt = [subst(y, {v: x}) for y in cond] if x is not w else []
            if any(s.holds(not_(y)) for y in nxt) or not all(s.assume(y) for y in nxt):
                continue
            a, z = (x, v) if sign > 0 else (v, x)
            if s.holds(lt(a, z)):
                continue
            if not s.holds(le(a, z)):
                return None
            worst = 1
        return worst

    def bounded(self, b, v, sign):
        """v is above (sign 1) or below (-1) a value that does not change."""
        c0, d0 = dec(v)
        if len(d0) != 1:
            return False
        (a0, k0), = d0.items()
        for x in b.facts:
            if x.op == "le":
                c, d = dec(x.args[0])
                k = d.get(a0, 0)
                if k and (k * k0 > 0) == (sign < 0) and all(a is a0 or self.invariant(a) for a in d):
                    return True
        return False

    # -- loops that cannot end --
    def recurs(self):
        """Rounds that are followed by rounds of the same kind: what made a round go its way still holds after it.
        Ways that only differ in facts of which one or the other must hold are taken together."""
        groups = []
        for b in self.back:
            for s in self.split(b, 3):
                news = [x for x in s.facts if x not in self.start_facts and x.op != "all"]
                if any(has_op(x, {"unk", "escaped", "site"}) for x in news):
                    continue
                var = [x for x in news if not self.invariant(x)]
                groups.append((dict.fromkeys(var), [s], news))
        groups = groups[:60]
        for rnd in range(3):
            for g in groups:
                if all(self.again(s, g[0]) for s in g[1]) and g[2]:
                    return g[2]
            if len(groups) > 60:
                return None
            new = []
            for i, g in enumerate(groups):
                for j in range(i):
                    m = self.merged(g, groups[j])
                    if m:
                        new.append(m)
            if not new or len(new) > 60:
                return None
            groups = new
        return None

    def merged(self, g, h):
        com = dict.fromkeys(x for x in g[0] if x in h[0])
        for f in g[0]:
            if f in com:
                continue
            nf = not_(f)
            if nf in h[0] or any(not_(y) is f for y in h[0]):
                for fs, f1 in ((g[0], f), (h[0], nf)):
                    s = self.start.copy()
                    for x in com:
                        s.add(x)
                    s.assume(f1)
                    if not all(s.holds(x) for x in fs):
                        break
                else:
                    return com, g[1] + h[1], list(com) or g[2]
        return None

    def again(self, s, facts):
        m = {self.kap: add(self.kap, ONE)}
        lost = set()
        for k, v in self.head.items():
            self.match(v, s.env.get(k, v), m, lost)
        for x in facts:
            if any(y in lost or y.op == "phi" and y not in m and not self.invariant(y) for y in atoms(x)):
                return False
            y = subst(x, m)
            if y is not x and not s.holds(y):
                return False
        return True

    def match(self, v, w, m, lost):
        """Which value each head symbol in v has where v has become w."""
        if isinstance(v, (tuple, list)):
            if isinstance(w, (tuple, list)) and len(v) == len(w):
                for a, b in zip(v, w):
                    self.match(a, b, m, lost)
            else:
                lost |= {y for y in atoms(v) if y.op == "phi"}
            return
        if not isinstance(v, T):
            return
        if v.op == "phi" and not self.invariant(v):
            if isinstance(w, T):
                if m.setdefault(v, w) is not w:
                    lost.add(v)
            else:
                lost.add(v)
        elif v is w or self.invariant(v):
            for y in atoms(v):
                if y.op == "phi" and not self.invariant(y):
                    m.setdefault(y, y)
        elif isinstance(w, T) and v.op == w.op and len(v.args) == len(w.args) and v.op in ("vec", "struct", "hst", "vit", "rit", "dit", "bp", "st"):
            self.match(v.args, w.args, m, lost)
        else:
            lost |= {y for y in atoms(v) if y.op == "phi" and not self.invariant(y)}

    def split(self, b, depth):
        """One state for each case of the conditional values in it."""
        if depth:
            for k in self.head:
                v = b.env.get(k)
                for y in subterms(v) if v is not None else ():
                    if y.op in ("ite", "b2i") and not has_op(y.args[0], {"unk"}):
                        out = []
                        for val, z in ((True, y.args[1]), (False, y.args[2])) if y.op == "ite" else ((True, ONE), (False, ZERO)):
                            s = b.copy()
                            if s.assume(y.args[0] if val else not_(y.args[0])):
                                for q in self.head:
                                    if s.env.get(q) is not None:
                                        s.env[q] = tidy(replace(s.env[q], y, z))
                                out += self.split(s, depth - 1)
                        return out
        return [b]

    def same_everywhere(self, b):
        for k in set(b.env) | set(self.head):
            if k in self.h.env or k in self.head:
                o = self.h.env.get(k)
            elif k[0] in ("h", "a", "G"):
                o = self.I.entry(k)
            else:
                continue
            if o is None or b.env.get(k, self.I.entry(k)) is not o:
                return False
        return True

    def exact_path(self, s):
        return all(not has_op(x, {"unk", "escaped", "site"}) for x in self.news(s))


def isolated(t, y):
    """t is zero when y is: y itself, or y masked."""
    if t is y:
        return True
    if t.op == "band":
        return any(isolated(x, y) for x in t.args)
    if t.op == "lin":
        c, d = dec(t)
        return c == 0 and len(d) == 1 and isolated(next(iter(d)), y)
    return False


def low(v):
    lo, hi = rng(v) if v.op != "lin" else (None, None)
    if v.op == "lin":
        c, d = dec(v)
        if len(d) == 1 and c >= 0:
            (a, k), = d.items()
            lo = rng(a)[0] if k > 0 else None
    return lo is not None


def tidy(w):
    """A remainder of something that is in range anyway."""
    if w.op == "byte" and w.args[1] == 0 and isinstance(w.args[0], T):
        lo, hi = rng(w.args[0]) if w.args[0].op not in ("lin", "num") else (None, None)
        if lo is not None and hi is not None and 0 <= lo and hi <= 255:
            return w.args[0]
    return w


def wraps(w):
    """The values w stands for when it is the remainder of a sum in a narrow type: (case, value)."""
    if w.op == "byte" and len(w.args) > 1 and w.args[1] == 0 or w.op == "trunc" and not w.args[1]:
        x, m = (w.args[0], 256) if w.op == "byte" else (w.args[2], 1 << w.args[0])
        if isinstance(x, T):
            return [(and_(le(ZERO, x), lt(x, num(m))), x), (lt(x, ZERO), add(x, num(m))), (le(num(m), x), sub(x, num(m)))]
    return [(None, w)]


def narrow(L):
    """A counter of a few bits that has to get further than it can count: (counter, limit)."""
    for s in L.back:
        for x in L.news(s):
            neq = x.op == "not" and x.args[0].op == "eq"
            if x.op != "le" and not neq:
                continue
            c, d = dec(x.args[0].args[0] if neq else x.args[0])
            cs = [a for a in d if a.op == "phi" and a.ty and a.ty[1] <= 16 and not a.ty[0] and L.kap in atoms(a) and abs(d[a]) == 1 and (neq or d[a] > 0)]
            if len(cs) != 1:
                continue
            a, = cs
            o = num(-c) if d[a] == 1 else num(c)
            for y, k in d.items():
                if y is not a:
                    o = add(o, scale(y, -k * d[a]))
            top = num((1 << a.ty[1]) - 1)
            rest = [y for y in d if y is not a]
            if not rest or not all(L.invariant(y) for y in rest) or not any(unlimited(L, y) and d[y] * d[a] < 0 for y in rest):
                continue
            if s.holds(le(o, top)) or not has_no_bound(s, rest) or not steps_by_one(L, a):
                continue
            return a, o
    return None


def has_no_bound(s, rest):
    """No path fact limits any of these from above by a number."""
    for x in s.facts:
        if x.op == "le":
            c, d = dec(x.args[0])
            if len(d) == 1 and any(y in d and d[y] > 0 for y in rest) and -c < 1 << 17:
                return False
    return True


def steps_by_one(L, a):
    for k, v in L.head.items():
        if v is a:
            return all(wraps_to(b.env.get(k), a) for b in L.back)
    return False


def wraps_to(w, a):
    """w is a + 1 in the counter's own width."""
    if w is None:
        return False
    if w is add(a, ONE):
        return True
    return any(x is add(a, ONE) or x is a for x in subterms(w)) and w.op in ("trunc", "byte", "ite", "lo") and \
        not any(x.op == "phi" and x is not a for x in subterms(w))


def unlimited(L, o):
    """A count the caller chooses: the length of a list handed in, a number handed in or read from bytes, a number of leaves."""
    if has_op(o, {"unk", "escaped", "site", "phi"}):
        return False
    if o.op == "sz" and calls_with_list(L, o):
        return True
    if o.op == "call" and str(o.args[0]).split("::")[-1] in ("ReadBE32", "ReadBE64", "ReadLE32", "ReadLE64"):
        return True
    if o.op != "sz":
        hi = rng(o)[1]
        return o.op in ("sym", "hsel", "fld", "rdbe", "rdle", "shr", "shl", "rd") and (hi is None or hi >= 1 << 31)
    if o.args[0].op == "hsel" and any(has_prefix(y, INPUT_LISTS) for y in subterms(o.args[0].args[0])):
        return True
    return handed_in(L, o.args[0])


def has_prefix(y, ps):
    return any(isinstance(a, str) and a.startswith(q + "::") for a in y.args for q in ps)


def calls_with_list(L, o):
    root = o.args[0]
    while root.op in ("fld", "ite") and isinstance(root.args[0], T):
        root = root.args[0]
    return root.op == "call" and any(handed_in(L, y) for x in root.args[1:] if isinstance(x, T) for y in subterms(x) if y.op == "sym")


def handed_in(L, root):
    while root.op == "fld" and isinstance(root.args[0], T):
        root = root.args[0]
    if root.op != "sym" or not str(root.args[0]).startswith("in:"):
        return False
    ts = [str(q["t"]) for q in L.f["params"] if "in:" + str(q["n"]) == root.args[0]]
    # targets, hashes, leaves, proofs: not the rows or roots of the forest
    return len(ts) == 1 and (any(x in ts[0] for x in INPUT_LISTS) or ts[0].count("vector<") == 1 and "Swap" not in ts[0] and "Node" not in ts[0])


def judge(r, L, seen):
    f, n = L.f, L.n
    where = "%s %s" % (loc(f, n), f["n"])
    if not L.back:
        r.ob("loop", where, "no round is followed by another")
        return
    w = L.recurs() or next((L.news(b) for b in L.back if L.same_everywhere(b) and L.exact_path(b)), None)
    if w is not None:
        r.violation("stuck:%s" % f["n"], where, "a round that goes this way is followed by another one that does, for ever (path: %s)" % short(w))
        return
    if not L.out and not L.I.notes:
        r.violation("endless:%s" % f["n"], where, "nothing ends this loop: its condition cannot become false and no statement leaves it")
        return
    if not L.out and not L.I.notes:
        r.violation("endless:%s" % f["n"], where, "nothing ends this loop: its condition cannot become false and no statement leaves it")
        return
    if L.out and not L.I.notes and all(L.invariant(x) and not has_op(x, {"unk", "escaped", "site"}) for fs in L.leave for x in fs):
        r.violation("constant:%s" % f["n"], where, "whether this loop ends does not depend on anything it changes")
        return
    w = narrow(L)
    if w:
        r.violation("narrow:%s" % f["n"], where, "the %d-bit counter starts over before it reaches a count of more than %d" % (w[0].ty[1], (1 << w[0].ty[1]) - 1))
        return
    why = L.ranked()
    if why is not None:
        r.ob("loop", where, "; ".join(dict.fromkeys(why)))
    else:
        r.undecided(where, "no measure found that every round moves")


def short(fs):
    return "; ".join(str(x)[:80] for x in fs[:6])


def check(tier):
    r = Report("C26", tier,
               "Abstract interpretation of every function that loops: for each loop, each path through its body must move a lexicographic "
               "measure (a round counter bounded by an unchanging value, a decreasing unsigned value, an iterator or a size approaching a "
               "fixed bound). Reported: a path that reaches the next round with every variable and object unchanged, a loop nothing can "
               "end, a loop whose exit depends on nothing it changes, and a narrow counter compared with a caller's count.",
               ["library calls made in a loop return"])
    for config in ("release", "ndebug") + (("verify", "release20") if tier == "thorough" else ()):
        prog, eff = program(config)
        for f in sorted(prog.functions.values(), key=lambda f: (f["f"], f["l"])):
            if f.get("body") is None:
                continue
            ls = [n for n in fn_nodes(f) if n["k"] in LOOPS]
            if not ls:
                continue
            r.analysed(f)
            seen = {}

            def hook(I, kind, st, n, kw):
                if kind == "loop" and I.fr.fn is f:
                    seen.setdefault(I.nid(n), []).append(Loop(I, f, n, st, kw))
            I = Interp(prog, world=f.get("cls"), effects=eff, opaque=opaque_for(f), hook=hook)
            I.mix = True
            try:
                I.run(f)
            except Exception as e:
                r.undecided(f["n"], "%s: %s" % (type(e).__name__, e))
            for x in I.notes:
                r.undecided(f["n"], "not modelled: " + x)
            for n in ls:
                r.count("loops (%s)" % config)
                if I.nid(n) not in seen:
                    r.undecided(loc(f, n), "loop not reached by the analysis")
                for L in seen.get(I.nid(n), ()):
                    judge(r, L, seen)
    return r
