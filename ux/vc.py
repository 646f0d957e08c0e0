"""Deciding obligations in the abstract states the interpreter computes: discharged, violated (the exact path facts
allow the opposite), or undecided (something on the way was approximated)."""
from .terms import *
from .interp import Interp
from .effects import Effects
from .facts import Program, AnalysisError, loc

INEXACT = {"unk", "phi", "escaped", "site"}

_progs = {}


def program(config="release"):
    if config not in _progs:
        p = Program(config)
        _progs[config] = (p, Effects(p))
    return _progs[config]


def exact(t):
    return not has_op(t, INEXACT)


def atoms_of(f):
    """Integer atoms of a literal (or the term itself)."""
    if f.op in ("le", "eq"):
        return set(dec(f.args[0])[1])
    if f.op == "not":
        return atoms_of(f.args[0])
    if f.op in ("and", "or"):
        return set().union(*[atoms_of(x) for x in f.args])
    return {f}


def relevant(st, b):
    """Facts connected to b through shared integer atoms."""
    at = atoms_of(b)
    out = []
    rest = [(f, atoms_of(f)) for f in st.facts if f.op in ("le", "eq") or f.op == "not" and f.args[0].op == "eq"]
    grow = True
    while grow:
        grow = False
        nr = []
        for f, a in rest:
            if a & at:
                out.append(f)
                if not a <= at:
                    at |= a
                    grow = True
            else:
                nr.append((f, a))
        rest = nr
    return out, at


def fm_unsat(les, limit=1500):
    """Fourier-Motzkin: is the conjunction of (constant, {atom: coeff}) <= 0 infeasible over the rationals?"""
    cs = {}
    ats = set()
    for c, d in les:
        ats |= set(d)
    work = [(c, dict(d)) for c, d in les]
    for a in ats:
        lo, hi = rng(a)
        if lo is not None:
            work.append((lo, {a: -1}))
        if hi is not None:
            work.append((-hi, {a: 1}))
    while True:
        for c, d in work:
            if not d and c > 0:
                return True
        ats = {}
        for c, d in work:
            for a, k in d.items():
                p = ats.setdefault(a, [0, 0])
                p[k > 0] += 1
        if not ats:
            return False
        a = min(ats, key=lambda x: (ats[x][0] * ats[x][1], x.id))
        pos = [(c, d) for c, d in work if d.get(a, 0) > 0]
        neg = [(c, d) for c, d in work if d.get(a, 0) < 0]
        new = [(c, d) for c, d in work if a not in d]
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = d1[a], -d2[a]
                nd = {}
                for x in set(d1) | set(d2):
                    if x is a:
                        continue
                    v = d1.get(x, 0) * k2 + d2.get(x, 0) * k1
                    if v:
                        nd[x] = v
                new.append((c1 * k2 + c2 * k1, nd))
        seen = set()
        work = []
        for c, d in new:
            k = (c, tuple(sorted((x.id, v) for x, v in d.items())))
            if k not in seen:
                seen.add(k)
                work.append((c, d))
        if len(work) > limit:
            return None


def lins(f):
    if f.op == "le":
        return [dec(f.args[0])]
    if f.op == "eq":
        c, d = dec(f.args[0])
        return [(c, d), (-c, {a: -k for a, k in d.items()})]
    return []


def judge(st, b):
    """'yes': b holds in every concrete state; 'no': the path's exact facts allow it to fail; None: undecided."""
    if st.holds(b):
        return "yes"
    if b is FALSE or st.holds(not_(b)):
        return "no"
    if b.op == "and":
        rs = [judge(st, x) for x in b.args]
        return "no" if "no" in rs else None if None in rs else "yes"
    if b.op == "or":
        live = [x for x in b.args if not st.holds(not_(x))]
        if len(live) == 1:
            return judge(st, live[0])
        # every other disjunct fails: assume so
        s = st.copy()
        for x in live[1:]:
            if not s.assume(not_(x)):
                return None
        return judge(s, live[0])
    if b.op in ("le", "eq") or b.op == "not" and b.args[0].op == "eq":
        s = st.copy()
        nb = not_(b)
        if not s.assume(nb):
            return "yes"
        facts, at = relevant(s, b)
        base = []
        for f in facts:
            base += lins(f)
        cases = [lins(nb)]
        if nb.op == "not":
            t = nb.args[0].args[0]
            cases = [lins(le0(add(t, ONE))), lins(le0(add(scale(t, -1), ONE)))]
        r = [fm_unsat(base + c) for c in cases]
        if all(x is True for x in r):
            return "yes"
        if None in r or not all(exact(a) for a in at) or any(not exact(f) for f in facts):
            return None
        return "no"
    if not exact(b):
        return None
    return None


def expand(t, memo=None):
    """Integers assembled from bytes, as sums of single bytes."""
    m = {}
    for x in subterms(t):
        if x.op in ("rdbe", "rdle"):
            n, b = x.args
            r = ZERO
            for i in range(n):
                r = add(r, scale(piece(b, i, 1), 1 << (8 * (n - 1 - i) if x.op == "rdbe" else 8 * i)))
            m[x] = r
    if not m:
        return t
    from .interp import replace
    for a, b in m.items():
        t = replace(t, a, b)
    return t


def condition(*ts):
    """A condition inside the terms that can be decided either way."""
    for t in ts:
        for x in subterms(t):
            if x.op in ("ite", "b2i") and closed(x.args[0]):
                return x.args[0]
    return None


def casewise(judge1):
    """Decide a relation between a state and terms, by cases on the conditions inside the terms where needed."""
    def go(st, a, b, *rest, depth=3):
        r = judge1(st, a, b, *rest)
        if r is not None or depth == 0:
            return r
        c = condition(a, b)
        if c is None:
            return None
        from .interp import replace
        rs = []
        for g, v in ((c, TRUE), (not_(c), FALSE)):
            s = st.copy()
            if s.assume(g):
                rs.append(go(s, replace(a, c, v), replace(b, c, v), *rest, depth=depth - 1))
        return "no" if "no" in rs else None if None in rs else "yes"
    return go


@casewise
def eqint(st, a, b):
    """Are two integer values equal? 'yes' / 'no' / None"""
    if a is b or st.holds(eq0(sub(a, b))):
        return "yes"
    x, y = expand(a), expand(b)
    if x is y or congruent(st, x, y):
        return "yes"
    if not (exact(a) and exact(b)):
        return None
    if has_op(a, {"uninit"}):
        return "no"
    return judge(st, eq0(sub(x, y))) or "no" if comparable(x, y) else None


def congruent(st, x, y, depth=3):
    """The same operation on equal arguments."""
    if x is y:
        return True
    if not (isinstance(x, T) and isinstance(y, T)) or depth == 0:
        return False
    if x.op != y.op or len(x.args) != len(y.args) or x.op in ("num", "sym", "lin", "phi", "k", "new"):
        return x.op in ("num", "lin", "sym", "k", "mod", "sz") and st.holds(eq0(sub(x, y)))
    for a, b in zip(x.args, y.args):
        if a is b or a == b:
            continue
        if not (isinstance(a, T) and isinstance(b, T)):
            return False
        if not (congruent(st, a, b, depth - 1) or (a.op in ("num", "lin") or b.op in ("num", "lin")) and st.holds(eq0(sub(a, b)))):
            return False
    return True


UNRESOLVED = {"st", "ext", "rsz", "ite", "piece_", "sop"}


def resolved(t):
    """The value is built from inputs only, with no pending array updates."""
    return exact(t) and not has_op(t, UNRESOLVED)


def spine(t, out=None):
    """Subterms outside the arguments of opaque calls."""
    out = {} if out is None else out
    todo = [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out[x] = 1
        if x.op != "call":
            todo += [a for a in flat(x.args) if isinstance(a, T)]
    return out


def comparable(x, y):
    """Nothing pending in either value, and their opaque calls are equal or of different functions."""
    if not (exact(x) and exact(y)):
        return False
    sx, sy = spine(x), spine(y)
    if any(z.op in UNRESOLVED for q in (sx, sy) for z in q):
        return False
    cx, cy = ({z for z in q if z.op == "call"} for q in (sx, sy))
    diff = cx ^ cy
    if not any(z.op in UNRESOLVED for q in diff for z in subterms(q)):
        return True
    return not {z.args[0] for z in diff & cx} & {z.args[0] for z in diff & cy}


@casewise
def eqchunk(st, a, b, w):
    """Are two chunks of w bytes equal?"""
    if a is b:
        return "yes"
    if not (exact(a) and exact(b)):
        return None
    res = "yes"
    for k in range(w):
        x, y = rdk(st, a, k), rdk(st, b, k)
        if x is y or expand(x) is expand(y) or st.holds(eq0(sub(x, y))):
            continue
        if has_op(x, {"uninit"}) or has_op(y, {"uninit"}) or resolved(x) and resolved(y):
            return "no"
        res = None
    return res


def rdk(st, v, k):
    """Byte k of a chunk value."""
    if v.op in ("st", "ext", "afill", "arrval", "uninit", "rsz"):
        return rd(v, num(k), 1, st.holds)
    return piece(v, k, 1)


def fields_changed(st):
    """Heap fields whose contents differ from the entry state: {field: heap term}"""
    return {k[1]: v for k, v in st.env.items() if k[0] == "h" and v is not hb(k[1])}


def final(st, field, p=None):
    """Value of a field of the object the function was called on (or p)."""
    h = st.env.get(("h", field)) or hb(field)
    return hsel(h, p or mk("this"), st.holds)
