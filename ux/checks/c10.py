"""C10: the hasher is SHA-512/256 (FIPS 180-4)."""
import re
from math import isqrt
from ..report import Report
from ..facts import walk
from .. import models
from .serial import *

CLS = "utreexo::CSHA512"
M64 = (1 << 64) - 1
NIL = frozenset()


def last(n):
    return n.split("::")[-1]


# ------------------------------------------------------------ the standard
def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


K = [icbrt(p << 192) & M64 for p in primes(80)]          # fractional parts of cube roots
IV512 = [isqrt(p << 128) & M64 for p in primes(8)]       # fractional parts of square roots


def rotr(x, k):
    return (x >> k | x << (64 - k)) & M64


def compress_int(s, w):
    """The compression function on integers, to derive the initial value of SHA-512/256 as the standard does."""
    w = list(w)
    for t in range(16, 80):
        a, b = w[t - 15], w[t - 2]
        w.append((w[t - 16] + (rotr(a, 1) ^ rotr(a, 8) ^ a >> 7) + w[t - 7] + (rotr(b, 19) ^ rotr(b, 61) ^ b >> 6)) & M64)
    a, b, c, d, e, f, g, h = s
    for t in range(80):
        t1 = h + (rotr(e, 14) ^ rotr(e, 18) ^ rotr(e, 41)) + (e & f ^ ~e & g) + K[t] + w[t]
        t2 = (rotr(a, 28) ^ rotr(a, 34) ^ rotr(a, 39)) + (a & b ^ a & c ^ b & c)
        a, b, c, d, e, f, g, h = (t1 + t2) & M64, a, b, c, (d + t1) & M64, e, f, g
    return [(x + y) & M64 for x, y in zip(s, (a, b, c, d, e, f, g, h))]


def iv256():
    m = b"SHA-512/256"
    m += b"\x80" + bytes(111 - len(m)) + (8 * 11).to_bytes(16, "big")
    return compress_int([x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512], [int.from_bytes(m[8 * i:8 * i + 8], "big") for i in range(16)])


# ------------------------------------------------------------ words in normal form
# A word is a sum modulo 2^64 of a constant and multiples of bit polynomials; a bit polynomial is an exclusive or of
# products of rotated atoms under a mask (algebraic normal form, so equal bitwise functions have equal forms).
# poly: frozenset of (frozenset of (atom, rotation), mask);  sum: (const, frozenset of (poly, coefficient))
class Unknown(Exception):
    pass


class Words:
    def __init__(self):
        self.ids = {}
        self.sums = []
        self.memo = {}
        self.dis = {}

    def atom(self, s):
        i = self.ids.get(s)
        if i is None:
            i = self.ids[s] = len(self.sums)
            self.sums.append(s)
        return ("sum", i)

    def mkpoly(self, d):
        return frozenset((m, k) for m, k in d.items() if k)

    def sum(self, c, d):
        c &= M64
        e = {}
        for p, k in d.items():
            k &= M64
            if not k or not p:
                continue
            p, z = self.unshift(p)
            k = (k << z) & M64
            # a complement is a negative
            if (NIL, M64) in p and len(p) > 1:
                c = (c - k) & M64
                k = -k & M64
                p = p - {(NIL, M64)}
            # constants
            if len(p) == 1:
                ((m, mask),) = p
                if not m:
                    c = (c + k * mask) & M64
                    continue
                # an atom that is itself a sum
                if mask == M64 and len(m) == 1 and k & 1:
                    ((a, r),) = m
                    if r == 0 and isinstance(a, tuple) and a[0] == "sum":
                        u = self.sums[a[1]]
                        c = (c + k * u[0]) & M64
                        for q, j in u[1]:
                            e[q] = (e.get(q, 0) + j * k) & M64
                        continue
            e[p] = (e.get(p, 0) + k) & M64
        e = {p: k for p, k in e.items() if k}
        # summands without a common bit are one polynomial
        while True:
            by = {}
            hit = None
            for p, k in e.items():
                for m, _ in p:
                    for a, _ in m:
                        by.setdefault((k, a), set()).add(p)
            for (k, _), ps in by.items():
                ps = list(ps)
                if len(ps) > 12:
                    continue
                for i in range(len(ps)):
                    for j in range(i):
                        if self.disjoint(ps[i], ps[j]):
                            hit = (ps[i], ps[j], k)
            if hit is None:
                break
            del e[hit[0]], e[hit[1]]
            q = self.xor(*hit[:2])
            e[q] = (e.get(q, 0) + hit[2]) & M64
            if not e[q]:
                del e[q]
        return (c, frozenset(e.items()))

    def unshift(self, p):
        """p as a multiple of 2^z of a polynomial."""
        g = 0
        for _, m in p:
            g |= m
        z = (g & -g).bit_length() - 1
        if z <= 0:
            return p, 0
        top = ((1 << z) - 1) << (64 - z)
        return frozenset((frozenset((a, (q - z) % 64) for a, q in u), m >> z | (top if m >> 63 else 0)) for u, m in p), z

    def disjoint(self, a, b):
        k = (a, b)
        r = self.dis.get(k)
        if r is None:
            r = self.dis[k] = self.dis[(b, a)] = not self.mul(a, b)
        return r

    def poly(self, s):
        c, e = s
        if not e:
            return self.mkpoly({frozenset(): c})
        if c == 0 and len(e) == 1:
            ((p, k),) = e
            if k & (k - 1) == 0:
                return self.shift(p, k.bit_length() - 1)
        if c == M64 and len(e) == 1:
            ((p, k),) = e
            if k == M64:
                return self.xor(p, self.mkpoly({NIL: M64}))
        # of a number and its complement, the one with fewer negative summands is the atom
        if 2 * sum(1 for _, k in e if k >> 63) > len(e):
            u = ((M64 - c) & M64, frozenset((p, -k & M64) for p, k in e))
            return self.xor(self.poly(u), self.mkpoly({NIL: M64}))
        return frozenset([(frozenset([(self.atom(s), 0)]), M64)])

    def word(self, p):
        return self.sum(0, {p: 1})

    def xor(self, a, b):
        d = dict(a)
        for m, k in b:
            d[m] = d.get(m, 0) ^ k
        return self.mkpoly(d)

    def mul(self, a, b):
        d = {}
        if len(a) * len(b) > 4000:
            raise Unknown("too many products")
        for m, k in a:
            for m2, k2 in b:
                if k & k2:
                    u = m | m2
                    d[u] = d.get(u, 0) ^ (k & k2)
        return self.mkpoly(d)

    def or_(self, a, b):
        return self.xor(self.xor(a, b), self.mul(a, b))

    def shift(self, p, k):
        """Left shift by k (right for negative k)."""
        if k >= 64 or k <= -64:
            return frozenset()
        r = k % 64
        d = {}
        for m, mask in p:
            mask = (mask << k) & M64 if k >= 0 else mask >> -k
            if mask:
                u = frozenset((a, (q + r) % 64) for a, q in m)
                d[u] = d.get(u, 0) ^ mask
        return self.mkpoly(d)

    def mask(self, p, m):
        return self.mkpoly({u: k & m for u, k in p})

    def leaf(self, key, m=M64):
        return frozenset([(frozenset([(key, 0)]), m)])

    def words8(self, terms):
        """Eight bytes in a row with the weights of a number are that number."""
        by = {}
        for a, k in terms:
            if a.op == "rd" and a.args[2] == 1 and a.args[1].op == "num" and not (a.ty and a.ty[1] == 64):
                by[(a.args[0], a.args[1].args[0])] = (a, k)
        if len(by) < 8:
            return terms
        out = dict(terms)
        for (arr, o) in sorted(by, key=lambda x: x[1]):
            row = [by.get((arr, o + i)) for i in range(8)]
            if None in row or any(a not in out for a, _ in row):
                continue
            for op, low in (("rdbe", 7), ("rdle", 0)):
                k = row[low][1]
                if all(row[i][1] == k << 8 * abs(low - i) for i in range(8)):
                    for a, _ in row:
                        del out[a]
                    w = mk(op, 8, mk("rd", arr, num(o), 8))
                    out[w] = out.get(w, 0) + k
                    break
        return list(out.items())

    # ---- from terms
    def of(self, t):
        w = self.memo.get(t)
        if w is None:
            w = self.memo[t] = self.of_(t)
        return w

    def byte(self, t):
        if t.op == "rd" and t.args[2] == 1 and t.args[0].op == "sym" and t.args[1].op == "num":
            return self.leaf((t.args[0].args[0], t.args[1].args[0]), 255)
        return None

    def of_(self, t):
        o = t.op
        if o == "num":
            return (t.args[0] & M64, frozenset())
        if o == "lin":
            g = t.args[0]
            for _, k in t.args[1]:
                g |= k
            z = (g & -g).bit_length() - 1
            if z > 0:
                u = lin(t.args[0] >> z, {a: k >> z for a, k in t.args[1]})
                return self.word(self.shift(self.poly(self.of(u)), z))
            c = t.args[0] & M64
            d = {}
            for a, k in self.words8(t.args[1]):
                cc, e = self.of(a)
                c = (c + k * cc) & M64
                for p, j in e:
                    d[p] = (d.get(p, 0) + j * k) & M64
            return self.sum(c, d)
        if o in ("bxor", "band", "bor"):
            a, b = (self.poly(self.of(x)) for x in t.args)
            return self.word({"bxor": self.xor, "band": self.mul, "bor": self.or_}[o](a, b))
        if o == "bnot":
            return self.word(self.xor(self.poly(self.of(t.args[-1])), self.mkpoly({frozenset(): M64})))
        if o == "shr" and t.args[1].op == "num":
            return self.word(self.shift(self.poly(self.of(t.args[0])), -t.args[1].args[0]))
        if o == "shl" and t.args[1].op == "num":
            return self.word(self.shift(self.poly(self.of(t.args[0])), t.args[1].args[0]))
        if o == "trunc" and not t.args[1]:
            p = self.poly(self.of(t.args[2]))
            return self.word(self.mask(p, (1 << t.args[0]) - 1)) if t.args[0] < 64 else self.of(t.args[2])
        if o in ("rdbe", "rdle"):
            n, c = t.args[:2]
            if c.op == "rd" and c.args[0].op == "sym" and c.args[1].op == "num" and c.args[2] == n:
                p = frozenset()
                for i in range(n):
                    b = self.leaf((c.args[0].args[0], c.args[1].args[0] + i), 255)
                    p = self.xor(p, self.shift(b, 8 * (n - 1 - i if o == "rdbe" else i)))
                return self.word(p)
        if o == "rd" and t.args[0].op == "sym" and t.args[1].op == "num" and t.args[2] == 1 and t.args[0].args[0].startswith("in:"):
            return self.word(self.leaf((t.args[0].args[0], t.args[1].args[0]), M64 if t.ty and t.ty[1] == 64 else 255))
        if o == "byte":
            return self.word(self.mask(self.shift(self.poly(self.of(t.args[0])), -t.args[1]), 255))
        raise Unknown("%s" % o)

    # ---- the compression function of the standard in normal form
    def add(self, *ws):
        c, d = 0, {}
        for cc, e in ws:
            c += cc
            for p, k in e:
                d[p] = d.get(p, 0) + k
        return self.sum(c, d)

    def rots(self, w, rs, sh=None):
        p = self.poly(w)
        out = frozenset() if sh is None else self.shift(p, -sh)
        for r in rs:
            out = self.xor(out, self.xor(self.shift(p, -r), self.shift(p, 64 - r)))
        return self.word(out)

    def standard(self, s, w):
        w = list(w)
        steps = []
        for t in range(16, 80):
            w.append(self.add(w[t - 16], self.rots(w[t - 15], (1, 8), 7), w[t - 7], self.rots(w[t - 2], (19, 61), 6)))
        a, b, c, d, e, f, g, h = s
        for t in range(80):
            pe, pf, pg = self.poly(e), self.poly(f), self.poly(g)
            ch = self.word(self.xor(self.mul(pe, self.xor(pf, pg)), pg))
            pa, pb, pc = self.poly(a), self.poly(b), self.poly(c)
            mj = self.word(self.xor(self.xor(self.mul(pa, pb), self.mul(pa, pc)), self.mul(pb, pc)))
            t1 = self.add(h, self.rots(e, (14, 18, 41)), ch, (K[t], frozenset()), w[t])
            t2 = self.add(self.rots(a, (28, 34, 39)), mj)
            a, b, c, d, e, f, g, h = self.add(t1, t2), a, b, c, self.add(d, t1), e, f, g
            steps.append((a, e))
        return [self.add(x, y) for x, y in zip(s, (a, b, c, d, e, f, g, h))], steps


# ------------------------------------------------------------ the code
class Hasher:
    """The parts of the hasher, found by type and by use."""

    def __init__(self, prog):
        self.prog = prog
        rec = prog.records[CLS]
        self.state = self.buf = self.count = None
        for fl in rec["fields"]:
            t = fl["t"]
            s = re.sub(r"\s+", "", str(t.s)).replace("const", "")
            if t.tmpl == "std::array":
                s = s.replace("std::array<", "").replace(">", "").replace(",", "[") + "]"
            if re.search(r"\[8U?L?\]$", s) and "char" not in s and "int8_t" not in s:
                self.state = fl["q"]
            elif re.search(r"\[128U?L?\]$", s):
                self.buf = fl["q"]
            elif t.k == "int":
                self.count = fl["q"]
        self.methods = [f for f in prog.functions.values() if f.get("cls") == CLS and f.get("body") is not None]
        self.comp = None
        seen, todo = set(), list(self.methods)
        while todo:
            f = todo.pop()
            if f["key"] in seen or f.get("body") is None:
                continue
            seen.add(f["key"])
            for x in walk(f["body"]):
                if x["k"] == "call" and "usr" in x["fn"]:
                    g = prog.lookup(x["fn"], f["tu"])
                    if g is not None and g.get("body") is not None:
                        todo.append(g)
                        ts = [p["t"] for p in g["params"]]
                        if len(ts) == 2 and not g.get("cls") and self.words(ts[0]) and self.bytes(ts[1]):
                            self.comp = g

    def words(self, t):
        s = str(t.s)
        return ("*" in s or "&" in s or "[" in s) and ("uint64_t" in s or "unsigned long" in s) and "const" not in s

    def bytes(self, t):
        s = str(t.s)
        return ("*" in s or "[" in s) and ("char" in s or "uint8_t" in s)

    def method(self, name, n=None):
        fs = [f for f in self.methods if last(f["n"]) == name and (n is None or len(f["params"]) == n)]
        return fs[0] if fs else None


def where_of(f):
    return "%s:%d %s" % (f["f"], f["l"], f["n"])


def elem(a, i, s):
    return rd(a, i, 1, s.holds)


def byte_in(c, n, j, s):
    """Byte j of a chunk of n bytes."""
    if c.op == "rd" and c.args[2] == n:
        return rd(c.args[0], add(c.args[1], j), 1, s.holds)
    return rd(c, j, 1, s.holds)


def initial(r, prog, eff, H):
    """A hasher set up for 256 bits starts from the standard's value with nothing consumed."""
    f = H.method("CSHA512", 1)
    if f is None:
        r.undecided(CLS, "constructor for a given output size")
        return
    r.analysed(f)
    I = Interp(prog, effects=eff)
    I.peel = 10
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where_of(f), "not modelled: " + x)
    want = iv256()
    p = sym("in:" + f["params"][0]["n"])
    n = 0
    for s, v in ex:
        s = s.copy()
        if not s.assume(eq0(sub(p, num(32)))):
            continue
        n += 1
        a = hsel(I.heap(s, H.state), THISV, s.holds)
        for i in range(8):
            x = elem(a, num(i), s)
            j = ("yes" if x.args[0] & M64 == want[i] else "no") if x.op == "num" else None
            verdict(r, j, "initial:%d" % i, where_of(f), "word %d of the initial value is the standard's" % i, " (it is %s)" % (hex(x.args[0] & M64) if x.op == "num" else x))
        verdict(r, eqint(s, hsel(I.heap(s, H.count), THISV, s.holds), ZERO), "initial:count", where_of(f), "nothing has been consumed yet")
    if not n:
        r.undecided(where_of(f), "no path for 256 bits")


def compression(r, prog, eff, H):
    f = H.comp
    r.analysed(f)
    where = where_of(f)
    I = Interp(prog, effects=eff)
    I.peel = 96
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    sp, cp = f["params"][0]["n"], f["params"][1]["n"]
    W = Words()
    a = None
    if len(ex) != 1:
        r.undecided(where, "%d paths through the compression function" % len(ex))
        return
    s, _ = ex[0]
    a = s.env.get(("a", "*" + sp))
    if a is None:
        r.violation("compression", where, "the state is left unchanged by a block")
        return
    ws = []
    for i in range(16):
        p = frozenset()
        for j in range(8):
            p = W.xor(p, W.shift(W.leaf(("in:*" + cp, 8 * i + j), 255), 8 * (7 - j)))
        ws.append(W.word(p))
    want, steps = W.standard([W.word(W.leaf(("in:*" + sp, i))) for i in range(8)], ws)
    stepw = set()
    try:
        got = [W.of(rd(a, num(i), 1, s.holds)) for i in range(8)]
    except Unknown as e:
        r.undecided(where, "the compression function is the standard's (operation %s)" % e)
        return
    except RecursionError:
        r.undecided(where, "the compression function is the standard's (too deep)")
        return
    if I.notes:
        return
    known = set(W.memo.values())
    for t, (x, y) in enumerate(steps[:-1]):
        if x in known or y in known:
            stepw.add(t)
    for i in range(8):
        ok = got[i] == want[i]
        why = ""
        if not ok:
            miss = [t for t in range(79) if t not in stepw]
            why = " (first round not found in the code: %s)" % (miss[0] if miss else "the last")
        verdict(r, "yes" if ok else "no", "compression", where, "word %d after a block is that of the standard (80 rounds)" % i, why)
    r.count("operations compared", len(W.memo))


def run_method(r, prog, eff, H, f, custom, mem=None):
    I = Interp(prog, effects=eff, hook=mem)
    I.custom = custom
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where_of(f), "not modelled: " + x)
    return I, ex


GHOST = "#consumed"


def consuming(r, prog, eff, H):
    """Write: blocks go to the compression function in order, the rest is kept."""
    f = H.method("Write")
    r.analysed(f)
    where = where_of(f)
    state0 = hsel(hb(H.state), THISV)
    bad = []

    def comp(I, s, n, g, o, args):
        a = args[0]
        v = I.read(s, a.args[0]) if a.op == "bp" else None
        G = s.env.get(("h", GHOST), mk("hst", hb(GHOST), THISV, vec(ZERO, mk("aempty"))))
        q = hsel(G, THISV, s.holds)
        if v is not state0 or a.op != "bp" or not is_num(a.args[2], 0):
            bad.append(loc(I.fr.fn, n))
        if args[1].op != "bp":
            I.note(n, "block of unknown form")
            return [(s, ZERO)]
        c = models.read_bytes(I, s, n, args[1], num(128))
        q = vec(add(vsize(q), num(128)), store(varr(q), vsize(q), 128, c, s.holds))
        s.env[("h", GHOST)] = hst(hb(GHOST), THISV, q)
        return [(s, ZERO)]
    # the ghost starts out empty
    I = Interp(prog, effects=eff, hook=Mem(r, "write"))
    I.custom = {H.comp["n"]: comp}
    I.ghost = {("h", GHOST): hst(hb(GHOST), THISV, vec(ZERO, mk("aempty")))}
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    if bad:
        r.undecided(where, "the compression function is applied to the hasher's state")
    dp = [p["n"] for p in f["params"] if H.bytes(p["t"])][0]
    lp = [p["n"] for p in f["params"] if p["t"].k == "int"][0]
    data, L = sym("in:*" + dp), sym("in:" + lp)
    n0 = hsel(hb(H.count), THISV)
    buf0 = hsel(hb(H.buf), THISV)
    rr = mk("mod", n0, num(128))
    for s, v in ex:
        ctx = " (path: %s)" % short_facts(s)
        if not s.copy().assume(le(ZERO, L)):
            continue
        s.assume(le(ZERO, L))
        q = hsel(I.heap(s, GHOST), THISV, s.holds)
        g, ga = vsize(q), varr(q)
        b1 = hsel(I.heap(s, H.buf), THISV, s.holds)
        st1 = hsel(I.heap(s, H.state), THISV, s.holds)
        verdict(r, "yes" if st1 is state0 else None, "state", where, "the state changes by whole blocks only")
        verdict(r, eqint(s, hsel(I.heap(s, H.count), THISV, s.holds), add(n0, L)), "count", where, "the number of consumed bytes grows by the length of the input", ctx)
        rest = sub(add(rr, L), g)
        ok = verdict(r, judge(s, and_(le(ZERO, rest), le(rest, num(127)))), "blocks", where, "all full blocks are processed and less than a block is kept", ctx)
        if ok != "yes":
            continue

        def same_bytes(get, off, size, key, text):
            """get(s, j) for 0 <= j < size is byte off + j of the buffered bytes followed by the input."""
            j = sym("i:byte", (False, 62))
            for first in (True, False):
                t = s.copy()
                if not (t.assume(le(ZERO, j)) and t.assume(lt(j, size))):
                    continue
                p = add(off, j)
                b = lt(p, rr) if first else le(rr, p)
                if t.holds(not_(b)) or not t.assume(b):
                    continue
                x = get(t, j)
                y = rd(buf0, p, 1, t.holds) if first else rd(data, sub(p, rr), 1, t.holds)
                verdict(r, eqint(t, x, y), key, where, text, " (byte is %s, should be %s)" % (x, y) + ctx)
        # the first block, then any later one
        for later in (False, True):
            t = s.copy()
            a = sym("i:block", (False, 55)) if later else ZERO
            if not t.assume(le(ONE, a) if later else TRUE) or not t.assume(lt(scale(a, 128), g)):
                continue
            c = rd(ga, scale(a, 128), 128, t.holds)
            s0, s = s, t
            same_bytes(lambda t, j: byte_in(c, 128, j, t), scale(a, 128), num(128), "block", "each block is the next 128 bytes of the input")
            s = s0
        same_bytes(lambda t, j: rd(b1, j, 1, t.holds), g, rest, "kept", "the bytes kept are the rest of the input")


def strip_mod(t, m):
    """t with all reductions modulo multiples of m undone (equal modulo m)."""
    for _ in range(20):
        xs = [x for x in subterms(t) if x.op == "mod" and x.args[1].op == "num" and x.args[1].args[0] % m == 0]
        c, d = dec(t)
        hit = [x for x in xs if x in d]
        if not hit:
            return t
        for x in hit:
            t = add(sub(t, scale(x, d[x])), scale(x.args[0], d[x]))
    return t


def finishing(r, prog, eff, H):
    """Finalize256: standard padding, then the first four words of the state."""
    f = H.method("Finalize256")
    if f is None:
        r.undecided(CLS, "Finalize256")
        return
    r.analysed(f)
    where = where_of(f)
    W = H.method("Write")
    n0 = hsel(hb(H.count), THISV)

    def write(I, s, n, g, o, args):
        q = hsel(I.heap(s, GHOST), THISV, s.holds)
        a, cnt = args
        if a.op != "bp":
            I.note(n, "padding of unknown form")
            return [(s, o)]
        c = models.read_bytes(I, s, n, a, cnt)
        arr = store(varr(q), vsize(q), cnt.args[0], c, s.holds) if cnt.op == "num" else mk("copyin", varr(q), vsize(q), cnt, c)
        q = vec(add(vsize(q), cnt), arr)
        s.env[("h", GHOST)] = hst(hb(GHOST), THISV, q)
        s.env[("h", H.state)] = hst(hb(H.state), THISV, mk("after", q))
        cn = hsel(I.heap(s, H.count), THISV, s.holds)
        s.env[("h", H.count)] = hst(hb(H.count), THISV, add(cn, cnt))
        s.env[("h", H.buf)] = hst(hb(H.buf), THISV, mk("kept", q))
        return [(s, o)]
    I = Interp(prog, effects=eff, hook=Mem(r, "pad"))
    I.peel = 10
    I.custom = {W["n"]: write}
    I.ghost = {("h", GHOST): hst(hb(GHOST), THISV, vec(ZERO, mk("aempty")))}
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    op = f["params"][0]["n"]
    for s, v in ex:
        ctx = " (path: %s)" % short_facts(s)
        q = hsel(I.heap(s, GHOST), THISV, s.holds)
        t, a = vsize(q), varr(q)
        tot = strip_mod(add(n0, t), 128)
        c, d = dec(tot)
        j = "yes" if c % 128 == 0 and all(k % 128 == 0 for k in d.values()) else "no" if exact(t) and set(d) <= {n0} and not I.notes else None
        verdict(r, j, "whole", where, "the padded message is a whole number of blocks", ctx)
        verdict(r, judge(s, and_(le(num(17), t), le(t, num(144)))), "least", where, "the padding is the least possible", " (%s bytes)" % (t,) + ctx)
        z = sub(t, num(16))
        verdict(r, eqint(s, rd(a, ZERO, 1, s.holds), num(128)), "one", where, "the padding starts with a one bit", ctx)
        u = s.copy()
        i = sym("i:pad", (False, 8))
        if u.assume(le(ONE, i)) and u.assume(lt(i, z)):
            verdict(r, eqint(u, rd(a, i, 1, u.holds), ZERO), "zeros", where, "zero bits follow", ctx)
        for k in range(8):
            verdict(r, eqint(s, rd(a, add(z, num(k)), 1, s.holds), ZERO), "length", where, "the length is a 128-bit big-endian number", ctx)
        x = rd(a, add(z, num(8)), 8, s.holds)
        y = mk("wrbe", 8, scale(n0, 8))
        verdict(r, eqchunk(s, x, y, 8), "length", where, "the length of the message in bits comes last", " (it is %s)" % (x,) + ctx)
        out = s.env.get(("a", "*" + op))
        if out is None:
            r.violation("output", where, "no result is written" + ctx)
            continue
        A = mk("after", q)
        for k in range(4):
            x = rd(out, num(8 * k), 8, s.holds)
            w = rd(A, num(k), 1, s.holds)
            j = eqchunk(s, x, mk("wrbe", 8, w), 8)
            if j is None and x.op == "wrbe" and x.args[0] == 8 and x.args[1].op == "rd" and x.args[1].args[0].op in ("after", "hsel") and x.args[1].args[1].op == "num":
                j = "no"
            verdict(r, j, "output", where, "word %d of the result is word %d of the state, big-endian" % (k, k), " (it is %s)" % (x,) + ctx)


def check(tier):
    r = Report("C10", tier,
               "Value-graph equivalence. The block function is reduced, for all states and blocks, to sums modulo 2^64 of bit polynomials in "
               "algebraic normal form and compared with the graph built from FIPS 180-4 (constants derived from the primes); the initial "
               "value, the splitting of the input into blocks for every length and every amount already buffered, the padding, the length "
               "field and the output encoding are decided by abstract interpretation with a symbolic byte index.",
               ["the machine is little-endian (the byte order macros are resolved for this platform)", "messages are shorter than 2^61 bytes",
                "normal forms that differ are taken to be different functions"])
    import sys
    sys.setrecursionlimit(200000)
    for config in ("release", "ndebug"):
        prog, eff = program(config)
        H = Hasher(prog)
        if H.comp is None or None in (H.state, H.buf, H.count) or H.method("Write") is None:
            r.undecided(CLS, "the parts of the hasher")
            continue
        initial(r, prog, eff, H)
        compression(r, prog, eff, H)
        consuming(r, prog, eff, H)
        finishing(r, prog, eff, H)
    return r
