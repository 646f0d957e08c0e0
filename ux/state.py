"""Abstract states: value environment plus must-facts (literals over immutable value terms), and the
bounded linear entailment used to answer queries about them."""
from fractions import Fraction
from .terms import *


class State:
    __slots__ = ("env", "facts", "note", "_le", "_memo")

    def __init__(self, env=None, facts=None, note=()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.note = note
        self._le = None
        self._memo = {}

    def copy(self):
        s = State(dict(self.env), dict(self.facts), self.note)
        s._le = self._le
        s._memo = dict(self._memo) if len(self._memo) < 400 else {}
        return s

    # -- facts --
    def add(self, b):
        if b is TRUE or b in self.facts:
            return
        self.facts[b] = None
        self._le = None
        self._memo = {}
        x = None
        if b.op == "not" and b.args[0].op == "eq":
            x = b.args[0].args[0]
        elif b.op == "le":
            c, d = dec(b.args[0])
            if c > 0 and len(d) == 1:
                (x, k), = d.items()
        if x is not None and x.op == "shr":
            # something is left of a 64-bit number
            if x.args[1].op != "num":
                self.add(le0(sub(x.args[1], num(63))))
            if self.prove_le(sub(ONE, x.args[1])):
                # and at least half of it is gone
                self.add(le0(sub(scale(x, 2), x.args[0])))

    def les(self):
        if self._le is None:
            out = []
            for f in self.facts:
                if f.op == "le":
                    out.append(dec(f.args[0]))
                elif f.op == "eq":
                    c, d = dec(f.args[0])
                    out.append((c, d))
                    out.append((-c, {a: -k for a, k in d.items()}))
            ix = {}
            for c, d in out:
                for a, k in d.items():
                    ix.setdefault((a, k > 0), []).append((c, d))
            self._le = ix
        return self._le

    def prove_le(self, t, depth=5):
        """t <= 0 on every concretisation?"""
        c, d = dec(t)
        if not d:
            return c <= 0
        return depth > 2 and self._ple(c, dict(d), 2, set(), [60]) or self._ple(c, dict(d), depth, set(), [160])

    def _ple(self, c, d, depth, seen, fuel):
        # upper bound from the types
        hi = c
        for a, k in d.items():
            l, h = rng(a)
            b = h if k > 0 else l
            if b is None:
                hi = None
                break
            hi += k * b
        if hi is not None and hi <= 0:
            return True
        if depth == 0 or fuel[0] <= 0:
            return False
        key = (c, tuple(sorted(((a.id, k) for a, k in d.items()))))
        if key in seen:
            return False
        seen.add(key)
        ix = self.les()
        for a, k in sorted(d.items(), key=lambda x: x[0].id):
            for fc, fd in ix.get((a, k > 0), ()):
                fuel[0] -= 1
                if fuel[0] <= 0:
                    return False
                m = Fraction(k, fd[a])
                nd = dict(d)
                for x, y in fd.items():
                    v = nd.get(x, 0) - m * y
                    if v == 0:
                        nd.pop(x, None)
                    else:
                        nd[x] = v
                nc = c - m * fc
                if not nd:
                    if nc <= 0:
                        return True
                    continue
                if len(nd) > len(d) + 2:
                    continue
                if self._ple(nc, nd, depth - 1, seen, fuel):
                    return True
        return False

    def holds(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.facts:
            return True
        r = self._memo.get(b)
        if r is None:
            r = self._holds(b)
            self._memo[b] = r
        return r

    def _holds(self, b):
        o = b.op
        if o == "le":
            return self.prove_le(b.args[0]) or self._inst(b)
        if o == "eq":
            return (self.prove_le(b.args[0]) and self.prove_le(scale(b.args[0], -1))) or self._inst(b)
        if o == "and":
            return all(self.holds(x) for x in b.args)
        if o == "or":
            return any(self.holds(x) for x in b.args)
        if o == "not":
            x = b.args[0]
            if x.op == "eq":
                t = x.args[0]
                if self.prove_le(add(t, ONE)) or self.prove_le(add(scale(t, -1), ONE)):
                    return True
            if x.op == "all":
                return False
            if x.op == "same" and self._diff(x.args[0], x.args[1]):
                return True
            return self._inst(b)
        if o == "all":
            for f in self.facts:
                if f.op == "all" and f.args[1] == b.args[1] and f.args[2] is b.args[2] and self.prove_le(sub(b.args[0], f.args[0])):
                    return True
            return False
        if o == "iff":
            a, c = b.args
            return (self.holds(a) and self.holds(c)) or (self.holds(not_(a)) and self.holds(not_(c)))
        if o == "ite":
            return (self.holds(b.args[0]) and self.holds(b.args[1])) or (self.holds(not_(b.args[0])) and self.holds(b.args[2]))
        if o == "same":
            if self._eqclass(b.args[0], b.args[1]) or self._inst(b):
                return True
            x, y = self.norm(b.args[0]), self.norm(b.args[1])
            if x is y:
                return True
            return (x is not b.args[0] or y is not b.args[1]) and self._eqclass(x, y)
        return self._inst(b)

    def norm(self, t):
        """A value with reads of updated arrays resolved as far as the known facts allow."""
        while t.op == "rd" and t.args[0].op in ("st", "ext"):
            r = rd(t.args[0], t.args[1], t.args[2], self.holds)
            if r is t:
                break
            t = r
        return t

    def _eqclass(self, a, b):
        seen = {a}
        st = [a]
        while st:
            x = st.pop()
            for f in self.facts:
                if f.op == "same" and x in f.args:
                    y = f.args[1] if f.args[0] is x else f.args[0]
                    if y is b:
                        return True
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
        return False

    def _diff(self, a, b):
        for x, y in ((a, b), (b, a)):
            for f in self.facts:
                if f.op == "same" and x in f.args:
                    z = f.args[1] if f.args[0] is x else f.args[0]
                    if z is not y and (distinct(z, y) or not_(same(z, y)) in self.facts):
                        return True
        return False

    def _inst(self, b):
        """Instances of universally quantified facts."""
        alls = [f for f in self.facts if f.op == "all"]
        if not alls:
            return False
        idx = set()
        for x in subterms(b):
            if x.op == "rd":
                idx.add(x.args[1])
        if not idx:
            return False
        for f in alls:
            n, d, body = f.args
            bv = mk("bv", d)
            offs = set()
            for x in subterms(body):
                if x.op == "rd":
                    c, e = dec(x.args[1])
                    if e.get(bv) == 1:
                        e = dict(e)
                        e.pop(bv)
                        offs.add(lin(c, e))
            for o in offs:
                for i in idx:
                    k = sub(i, o)
                    lit = subst(body, {bv: k})
                    if (lit is b or (b.op == "le" and lit.op == "le" and self._le_impl(lit, b))) and self.prove_le(scale(k, -1)) and self.prove_le(add(sub(k, n), ONE)):
                        return True
        return False

    @staticmethod
    def _le_impl(a, b):
        d = sub(b.args[0], a.args[0])
        return d.op == "num" and d.args[0] <= 0

    def refuted(self, b):
        return self.holds(not_(b))

    def assume(self, b):
        """Adds b; False if that is definitely impossible."""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.facts:
            return True
        if self.refuted(b):
            return False
        o = b.op
        if o == "and":
            return all(self.assume(x) for x in b.args)
        if o == "or":
            live = [x for x in b.args if not self.refuted(x)]
            if not live:
                return False
            if len(live) == 1:
                return self.assume(live[0])
            self.add(or_(*live))
            return True
        if o == "iff":
            for x, y in (b.args, b.args[::-1]):
                if self.holds(x):
                    return self.assume(y)
                if self.refuted(x):
                    return self.assume(not_(y))
            self.add(b)
            return True
        if o == "not" and b.args[0].op == "iff":
            x, y = b.args[0].args
            for p, q in ((x, y), (y, x)):
                if self.holds(p):
                    return self.assume(not_(q))
                if self.refuted(p):
                    return self.assume(q)
        if o == "same":
            p, q = b.args
            sp, sq = mk("sz", p), mk("sz", q)
            if any(sp in dec(f.args[0])[1] or sq in dec(f.args[0])[1] for f in self.facts if f.op in ("le", "eq")) \
                    or any(f.op == "not" and f.args[0].op == "eq" and (sp in dec(f.args[0].args[0])[1] or sq in dec(f.args[0].args[0])[1]) for f in self.facts):
                e = eq0(sub(vsize(p), vsize(q)))
                if self.refuted(e):
                    return False
                self.add(e)
        if o == "ite":
            c, x, y = b.args
            if self.refuted(x):
                return self.assume(not_(c)) and self.assume(y)
            if self.refuted(y):
                return self.assume(c) and self.assume(x)
        self.add(b)
        if o == "le":
            t = b.args[0]
            if not_(eq0(t)) in self.facts:
                self.add(le0(add(t, ONE)))
        elif o == "not" and b.args[0].op == "eq":
            t = b.args[0].args[0]
            if self.prove_le(t):
                self.add(le0(add(t, ONE)))
            elif self.prove_le(scale(t, -1)):
                self.add(le0(add(scale(t, -1), ONE)))
        # unit propagation
        nb = not_(b)
        for f in [f for f in self.facts if f.op == "or" and nb in f.args]:
            rest = [x for x in f.args if x is not nb]
            if len(rest) == 1:
                if not self.assume(rest[0]):
                    return False
        for f in [f for f in self.facts if f.op == "iff" and (b in f.args or nb in f.args)]:
            x, y = f.args
            p, q = (x, y) if x in (b, nb) else (y, x)
            if not self.assume(q if p is b else not_(q)):
                return False
        return True

    def subst(self, m):
        memo = {}
        self.env = {k: subst(v, m, memo) for k, v in self.env.items()}
        nf = {}
        for f in self.facts:
            nf[subst(f, m, memo)] = None
        nf.pop(TRUE, None)
        self.facts = nf
        self._le = None
        self._memo = {}
