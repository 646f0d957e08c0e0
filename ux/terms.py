"""Value terms for the abstract interpreter: hash-consed, with a linear normal form for integers,
functional arrays (element and byte-chunk stores, loop comprehensions), structs, maps, optionals.
Terms are values, never locations, so a fact about a term stays true for ever."""
from math import gcd


class T:
    __slots__ = ("op", "args", "id", "ty", "_syms")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def mk(op, *args, ty=None):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        t.ty = ty
        t._syms = None
        _tab[k] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


def num(c):
    return mk("num", int(c))


ZERO, ONE = num(0), num(1)
ZEROREP = mk("lrep", ZERO, 1, ())
TRUE, FALSE = mk("true"), mk("false")
NULL = mk("null")
NONE = mk("none")


def boolt(b):
    return TRUE if b else FALSE


def sym(name, ty=None):
    return mk("sym", name, ty=ty)


# ---- integers ----

def dec(t):
    """(constant, {atom: coefficient})"""
    if t.op == "num":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin(c, d):
    it = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not it:
        return num(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    return mk("lin", c, it)


def add(a, b, k=1):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + k * b.args[0])
    ca, da = dec(a)
    cb, db = dec(b)
    for x, y in db.items():
        da[x] = da.get(x, 0) + k * y
    return lin(ca + k * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = dec(a)
    return lin(c * k, {x: y * k for x, y in d.items()})


def mul(a, b):
    if a.op == "num":
        return scale(b, a.args[0])
    if b.op == "num":
        return scale(a, b.args[0])
    return mk("mul", *sorted((a, b)))


def is_num(t, v=None):
    return t.op == "num" and (v is None or t.args[0] == v)


def rng(t):
    """Type-derived bounds of an integer atom."""
    o = t.op
    if o in ("sz", "k", "msz"):
        return 0, (1 << 62)
    if o == "mod" and t.args[1].op == "num":
        return 0, t.args[1].args[0] - 1
    if o == "band":
        for x in t.args:
            if x.op == "num" and x.args[0] >= 0:
                return 0, x.args[0]
    if o == "b2i":
        return 0, 1
    if o in ("byte", "piece") and (o == "byte" or t.args[2] == 1):
        return 0, 255
    if o in ("rdbe", "rdle"):
        return 0, (1 << (8 * t.args[0])) - 1
    if o == "trunc":
        return (0, (1 << t.args[0]) - 1) if not t.args[1] else (-(1 << (t.args[0] - 1)), (1 << (t.args[0] - 1)) - 1)
    if o == "shl":
        return 0, None
    if t.ty is not None and isinstance(t.ty, tuple):
        s, b = t.ty
        if s:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1
    if o == "shr":
        lo, hi = rng(t.args[0]) if t.args[0].op not in ("lin",) else (None, None)
        return (0 if lo is not None and lo >= 0 else None), hi
    return None, None


def bounds(t):
    c, d = dec(t)
    lo = hi = c
    for a, k in d.items():
        l, h = rng(a)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def gmod(a, m):
    if m.op == "num" and m.args[0] > 0:
        n = m.args[0]
        if n & (n - 1) == 0:
            a = lowbits(a, n)
        c, d = dec(a)
        d = {x: k % n for x, k in d.items() if k % n}
        r = lin(c % n, d)
        lo, hi = bounds(r)
        if lo is not None and hi is not None and lo >= 0 and hi < n:
            return r
        return mk("mod", r, m)
    return mk("mod", a, m)


def lowbits(a, n):
    """A value equal to a modulo n, a power of two, without the truncations that do not matter for that."""
    c, d = dec(a)
    r, did = num(c), False
    for x, k in d.items():
        if x.op == "byte" and is_num(x.args[1], 0) and n <= 256:
            y, did = x.args[0], True
        elif x.op == "trunc" and n <= 1 << x.args[0]:
            y, did = x.args[2], True
        elif x.op == "mod" and x.args[1].op == "num" and x.args[1].args[0] % n == 0:
            y, did = x.args[0], True
        else:
            y = x
        r = add(r, scale(y, k))
    return lowbits(r, n) if did else a


def shl(a, k):
    if k.op == "num":
        return scale(a, 1 << k.args[0]) if 0 <= k.args[0] < 64 else mk("shl", a, k)
    return mk("shl", a, k)


def shr(a, k):
    if a.op == "num" and k.op == "num":
        return num(a.args[0] >> k.args[0])
    if is_num(k, 0):
        return a
    if is_num(a, 0):
        return ZERO
    if a.op == "shr":
        return shr(a.args[0], add(a.args[1], k))
    return mk("shr", a, k)


def band(a, b):
    if a.op == "b2i" and b.op == "b2i":
        return b2i(and_(a.args[0], b.args[0]))
    if b.op != "num":
        a, b = b, a
    if a.op == "num" and b.op == "num":
        return num(a.args[0] & b.args[0])
    if b.op == "num":
        m = b.args[0]
        if m == 0:
            return ZERO
        if m == -1:
            return a
        if a.op == "bor" and a.args[1].op == "num":
            c = a.args[1].args[0]
            if c & m == m and m >= 0:
                return b
            if c & m == 0:
                return band(a.args[0], b)
        if a.op == "band" and a.args[1].op == "num":
            return band(a.args[0], num(m & a.args[1].args[0]))
        if a.op == "b2i" and m & 1:
            return a
        if m > 1 and m & (m + 1) == 0 and m.bit_length() % 8:
            return gmod(a, num(m + 1))
        if m == 255:
            lo, _ = bounds(a)
            if lo is not None and lo >= 0:
                return byte_of(a, 0)
        return mk("band", a, b)
    return mk("band", *sorted((a, b)))


def bor(a, b):
    if a.op in ("b2i", "num") and b.op in ("b2i", "num") and (a.op == "b2i" or b.op == "b2i"):
        x = [y for y in (a, b) if y.op == "num"]
        if not x:
            return b2i(or_(a.args[0], b.args[0]))
        if x[0].args[0] == 1:
            return ONE
    if b.op != "num":
        a, b = b, a
    if a.op == "num" and b.op == "num":
        return num(a.args[0] | b.args[0])
    if is_num(b, 0):
        return a
    if b.op == "num" and a.op == "bor" and a.args[1].op == "num":
        return bor(a.args[0], num(b.args[0] | a.args[1].args[0]))
    if disjoint(a, b):
        return add(a, b)
    if b.op == "num":
        return mk("bor", a, b)
    return mk("bor", *sorted((a, b)))


def disjoint(a, b):
    """No bit is set in both (so or, xor and + agree)."""
    for x, y in ((a, b), (b, a)):
        lo, hi = bounds(x)
        ly, _ = bounds(y)
        if lo is None or lo < 0 or hi is None or ly is None or ly < 0:
            continue
        z = 1
        while z <= hi:
            z <<= 1
        c, d = dec(y)
        if c % z == 0 and all(k % z == 0 for k in d.values()):
            return True
    return False


def bxor(a, b):
    if b.op != "num":
        a, b = b, a
    if a.op == "num" and b.op == "num":
        return num(a.args[0] ^ b.args[0])
    if is_num(b, 0):
        return a
    if b.op == "num":
        return mk("bxor", a, b)
    return mk("bxor", *sorted((a, b)))


def trunc(bits, signed, x):
    if x.op == "num":
        v = x.args[0] & ((1 << bits) - 1)
        if signed and v >= 1 << (bits - 1):
            v -= 1 << bits
        return num(v)
    lo, hi = bounds(x)
    l, h = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lo is not None and hi is not None and lo >= l and hi <= h:
        return x
    if x.op == "trunc" and x.args[0] <= bits and not x.args[1]:
        return x
    if bits == 8 and not signed:
        return byte_of(x, 0)
    return mk("trunc", bits, signed, x)


# ---- booleans ----

def not_(b):
    o = b.op
    if o == "true":
        return FALSE
    if o == "false":
        return TRUE
    if o == "not":
        return b.args[0]
    if o == "le":   # not (t <= 0)  ==  -t + 1 <= 0
        return le0(add(ONE, b.args[0], -1))
    if o == "and":
        return or_(*[not_(x) for x in b.args])
    if o == "or":
        return and_(*[not_(x) for x in b.args])
    return mk("not", b)


def and_(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == "and" else (b,)):
            if not_(x) in out:
                return FALSE
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", *sorted(out))


def or_(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == "or" else (b,)):
            if not_(x) in out:
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk("or", *sorted(out))


def le0(t):
    """t <= 0"""
    c, d = dec(t)
    if not d:
        return boolt(c <= 0)
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "b2i" and k in (1, -1):
            # k*b + c <= 0
            v = [k * x + c <= 0 for x in (0, 1)]
            return TRUE if all(v) else FALSE if not any(v) else (a.args[0] if v[1] else not_(a.args[0]))
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)   # ceil(c/g):  sum <= -c  ->  sum/g <= floor(-c/g)
    return mk("le", lin(c, d))


def eq0(t):
    c, d = dec(t)
    if not d:
        return boolt(c == 0)
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "b2i":
            v = [k * x + c == 0 for x in (0, 1)]
            return FALSE if not any(v) else (a.args[0] if v[1] else not_(a.args[0]))
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c //= g
    first = min(d, key=lambda a: a.id)
    if d[first] < 0:
        d = {a: -k for a, k in d.items()}
        c = -c
    lo, hi = bounds(lin(c, d))
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return mk("eq", lin(c, d))


def ne0(t):
    return not_(eq0(t))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def le(a, b):
    return le0(sub(a, b))


def b2i(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return mk("b2i", b)


def distinct(a, b):
    """Definitely different non-integer values."""
    if a is b:
        return False
    for x, y in ((a, b), (b, a)):
        if x is NULL and y.op in ("new", "this", "addr"):
            return True
        if x.op == "new" and y.op == "new":
            if x.args[0] != y.args[0]:
                return True
            for p, q in zip(x.args[1], y.args[1]):
                d = sub(p, q)
                if d.op == "num" and d.args[0] != 0:
                    return True
        if x.op in ("new",) and old(y):
            return True
        if x is NONE and y.op == "some":
            return True
    return False


def old(t):
    """A value that existed when the analysis started (so it differs from anything allocated since)."""
    if t.op == "this":
        return True
    if t.op == "sym":
        return isinstance(t.args[0], str) and t.args[0].startswith("in:")
    if t.op in ("hb", "num", "true", "false", "null"):
        return True
    if t.op in ("rd", "hsel", "fld", "arr", "sz", "lin", "mget", "oval", "call", "k", "hb"):
        return all(old(x) for x in flat(t.args))
    return False


def flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from flat(a)


def same(a, b):
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a.op == "num" or b.op == "num":
        return eq0(sub(a, b))
    return mk("same", *sorted((a, b)))


def iff(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return not_(y)
    if a is not_(b):
        return FALSE
    return mk("iff", *sorted((a, b)))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return mk("ite", c, a, b)


# ---- structs, optionals ----

def struct(d, base=None):
    return mk("struct", base, tuple(sorted(d.items())))


def fld(v, f):
    if v.op == "struct":
        for k, x in v.args[1]:
            if k == f:
                return x
        if v.args[0] is None:
            return mk("uninit", f)
        return fld(v.args[0], f)
    if v.op == "ite":
        return ite(v.args[0], fld(v.args[1], f), fld(v.args[2], f))
    return mk("fld", v, f)


def setf(v, f, x):
    if v.op == "struct":
        d = dict(v.args[1])
        d[f] = x
        return mk("struct", v.args[0], tuple(sorted(d.items())))
    return mk("struct", v, ((f, x),))


def some(v):
    return mk("some", v)


def ohas(o):
    if o is NONE:
        return FALSE
    if o.op == "some":
        return TRUE
    return mk("ohas", o)


def oval(o):
    if o.op == "some":
        return o.args[0]
    return mk("oval", o)


# ---- vectors and arrays ----
EMPTY = mk("aempty")


def vec(size, arr):
    if arr.op == "arr" and size is mk("sz", arr.args[0]):
        return arr.args[0]
    return mk("vec", size, arr)


def vsize(v):
    if v.op == "vec":
        return v.args[0]
    if v.op == "sorted":
        return vsize(v.args[0])
    if v.op == "arrval":
        return num(v.args[0])
    return mk("sz", v)


def varr(v):
    if v.op == "vec":
        return v.args[1]
    return mk("arr", v)


def bvdepth(t):
    """Depth of the deepest bound variable occurring in t (0 if none)."""
    return max([x.args[0] for x in subterms(t) if x.op == "bv"], default=0)


def freebv(t, memo):
    """Depths of the bound variables free in t."""
    r = memo.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.args[0],))
        elif t.op == "ext":
            r = freebv(t.args[5], memo) - {t.args[4]}
            for x in t.args[:3]:
                r |= freebv(x, memo)
        elif t.op == "all":
            r = freebv(t.args[2], memo) - {t.args[1]} | freebv(t.args[0], memo)
        else:
            r = frozenset()
            for x in flat(t.args):
                r |= freebv(x, memo)
        memo[t] = r
    return r


def closed(t):
    return not freebv(t, {})


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(flat(x.args))


def syms(t):
    """Free leaf symbols (sym, k, bv, new, unk...) of a term, cached."""
    s = t._syms
    if s is None:
        if t.op in ("sym", "k", "bv", "phi", "unk", "this", "uninit", "hb"):
            s = frozenset((t,)) | frozenset(y for x in flat(t.args) for y in syms(x))
        else:
            acc = set()
            for x in flat(t.args):
                acc |= syms(x)
            s = frozenset(acc)
        t._syms = s
    return s


def subst(t, m, memo=None):
    """Replace leaf symbols; rebuilds through the smart constructors."""
    if memo is None:
        memo = {}
    keys = m.keys()
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not (syms(t) & keys):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _subst(x, m, keys, memo))
    memo[t] = r
    return r


def _mapargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_mapargs(x, f) for x in a)
    return a


def rebuild(t, f):
    o = t.op
    if o == "lin":
        r = num(t.args[0])
        for a, k in t.args[1]:
            r = add(r, f(a), k)
        return r
    a = tuple(_mapargs(x, f) for x in t.args)
    if o == "le":
        return le0(a[0])
    if o == "eq":
        return eq0(a[0])
    if o == "not":
        return not_(a[0])
    if o == "and":
        return and_(*a)
    if o == "or":
        return or_(*a)
    if o == "same":
        return same(*a)
    if o == "iff":
        return iff(*a)
    if o == "ite":
        return ite(*a)
    if o == "b2i":
        return b2i(a[0])
    if o == "mul":
        return mul(*a)
    if o == "band":
        return band(*a)
    if o == "bor":
        return bor(*a)
    if o == "bxor":
        return bxor(*a)
    if o == "mod":
        return gmod(*a)
    if o == "shl":
        return shl(*a)
    if o == "shr":
        return shr(*a)
    if o == "byte":
        return byte_of(*a)
    if o == "lapp":
        return lapp(*a)
    if o == "lrep":
        return ZEROREP if is_num(a[0], 0) else mk("lrep", *a)
    if o == "trunc":
        return trunc(*a)
    if o == "fld":
        return fld(*a)
    if o == "vec":
        return vec(*a)
    if o == "sz":
        return vsize(a[0])
    if o == "arr":
        return varr(a[0])
    if o == "ohas":
        return ohas(a[0])
    if o == "oval":
        return oval(a[0])
    if o == "st":
        return store(*a)
    if o == "rd":
        return rd(*a)
    if o == "hsel":
        return hsel(*a)
    if o == "hst":
        return hst(*a)
    if o == "mhas":
        return mhas(*a)
    if o == "mget":
        return mget(*a)
    if o == "all":
        return forall(*a)
    if o == "ext" and is_num(a[2], 0):
        return a[0]
    r = mk(o, *a)
    if r.ty is None:
        r.ty = t.ty
    return r


def _no(b):
    return b is TRUE


def store(arr, lo, w, v, holds=_no):
    """Array arr with elements [lo, lo+w) holding the chunk v."""
    if arr.op == "ext":
        a0, l0, n, w0, d, body = arr.args
        if w0 == w and lo is add(l0, scale(n, w)) and subst(body, {mk("bv", d): n}) is v:
            return mk("ext", a0, l0, add(n, ONE), w, d, body)
        if w0 == w and lo is sub(l0, num(w)):
            r = grow_front(arr, v)
            if r is not None:
                return mk("ext", a0, lo, *r.args[2:])
    if arr.op == "st" and arr.args[1] is lo and arr.args[2] == w:
        return store(arr.args[0], lo, w, v, holds)
    return mk("st", arr, lo, w, v)


def ext(arr, lo, n, w, k, body):
    """Elements [lo+w*i, lo+w*i+w) hold body[k:=i] for 0 <= i < n."""
    if is_num(n, 0):
        return arr
    d = bvdepth(body) + 1
    return mk("ext", arr, lo, n, w, d, subst(body, {k: mk("bv", d)}))


def grow_front(t, v):
    """An "ext" with v put before its first element, if v continues the pattern."""
    a0, l0, n, w, d, body = t.args
    bv = mk("bv", d)
    if subst(body, {bv: num(-1)}) is not v:
        return None
    return mk("ext", a0, l0, add(n, ONE), w, d, subst(body, {bv: sub(bv, ONE)}))


def ins_front(arr, v):
    """Array with v inserted before index 0."""
    if arr.op == "ext" and arr.args[0].op == "aempty" and is_num(arr.args[1], 0) and arr.args[3] == 1:
        return grow_front(arr, v)
    return None


def ext_body(t, i):
    return subst(t.args[5], {mk("bv", t.args[4]): i})


def rd(arr, lo, w, holds=_no):
    """Chunk [lo, lo+w) of an array."""
    a = arr
    while True:
        if a.op == "st":
            b, l, w0, v = a.args
            if l is lo and w0 == w:
                return v
            d = sub(lo, l)
            if d.op == "num":
                k = d.args[0]
                if k >= w0 or k + w <= 0:
                    a = b
                    continue
                if k == 0 and w0 == w:
                    return v
                if k >= 0 and k + w <= w0:
                    return piece(v, k, w)
                return mk("rd", a, lo, w)
            if holds(eq0(d)) and w0 == w:
                return v
            if holds(le0(sub(num(w0), d))) or holds(le0(add(d, num(w)))):
                a = b
                continue
            if w == 1 and w0 == 1 and rd(b, lo, 1, holds) is v:
                return v
            return mk("rd", a, lo, w)
        if a.op == "ext":
            b, l, n, w0, _, body = a.args
            d = sub(lo, l)
            # entirely before or behind?
            end = add(l, scale(n, w0))
            if holds(le0(add(d, num(w)))) or holds(le0(sub(end, lo))):
                a = b
                continue
            i, r = div_rem(d, w0)
            if i is not None and r + w <= w0 and holds(le0(scale(i, -1))) and holds(lt(i, n)):
                b = ext_body(a, i)
                return b if w == w0 else piece(b, r, w)
            return mk("rd", a, lo, w)
        if a.op == "copyin":
            b, l, n, c = a.args
            d = sub(lo, l)
            if holds(le0(add(d, num(w)))) or holds(le0(sub(add(l, n), lo))):
                a = b
                continue
            if holds(le0(scale(d, -1))) and holds(le0(sub(add(lo, num(w)), add(l, n)))):
                if c.op == "chunk":
                    a, lo = c.args[0], add(c.args[1], d)
                    continue
                if c.op == "rd" and c.args[2] >= w:
                    a, lo = c.args[0], add(c.args[1], d)
                    continue
            return mk("rd", a, lo, w)
        if a.op == "rsz":
            b, n, x = a.args
            if holds(le0(sub(add(lo, num(w)), n))):
                a = b
                continue
            if holds(le0(sub(n, lo))):
                return x if w == 1 else mk("rep", x, w)
            return mk("rd", a, lo, w)
        if a.op == "afill":
            return a.args[0] if w == 1 else mk("rep", a.args[0], w)
        if a.op == "arrval" and lo.op == "num" and w == 1:
            return a.args[1][lo.args[0]] if 0 <= lo.args[0] < len(a.args[1]) else mk("rd", a, lo, w)
        return mk("rd", a, lo, w)


def piece(v, k, w):
    if v.op in ("st", "ext", "afill", "arrval", "uninit"):
        return rd(v, num(k), w)
    if v.op == "rd" and v.args[2] >= k + w:
        return rd(v.args[0], add(v.args[1], num(k)), w)
    if v.op == "wrbe" and w == 1:
        n, x = v.args
        return byte_of(x, 8 * (n - 1 - k))
    if v.op == "wrle" and w == 1:
        return byte_of(v.args[1], 8 * k)
    return mk("piece", v, k, w)


def byte_of(x, s):
    """Bits s .. s+7 of x."""
    while True:
        if x.op == "num":
            return num((x.args[0] >> s) & 255)
        if x.op == "shr" and x.args[1].op == "num":
            lo, _ = rng(x.args[0])
            if x.args[0].op != "lin" and lo is None:
                break
            s += x.args[1].args[0]
            x = x.args[0]
            continue
        if x.op == "trunc" and s + 8 <= x.args[0]:
            x = x.args[2]
            continue
        if x.op == "rdbe" and s % 8 == 0:
            k = x.args[0] - 1 - s // 8
            return piece(x.args[1], k, 1) if k >= 0 else ZERO
        if x.op == "rdle" and s % 8 == 0:
            return piece(x.args[1], s // 8, 1) if s // 8 < x.args[0] else ZERO
        break
    lo, hi = bounds(x)
    if lo is not None and lo >= 0 and hi is not None:
        if hi >> s == 0:
            return ZERO
        if s == 0 and hi <= 255:
            return x
    return mk("byte", x, s)


def div_rem(d, w):
    """d as w*i + r with constant 0 <= r < w, or (None, 0)."""
    if w == 1:
        return d, 0
    c, e = dec(d)
    if any(k % w for k in e.values()):
        return None, 0
    return lin(c // w, {a: k // w for a, k in e.items()}), c % w


def div_exact(d, w):
    if w == 1:
        return d
    c, e = dec(d)
    if c % w or any(k % w for k in e.values()):
        return None
    return lin(c // w, {a: k // w for a, k in e.items()})


# ---- heap fields: arrays indexed by pointer ----

def hb(field):
    return mk("hb", field)


def hst(h, p, v):
    if h.op == "hst" and h.args[1] is p:
        return hst(h.args[0], p, v)
    if v.op == "hsel" and v.args[1] is p and v.args[0] is h:
        return h
    return mk("hst", h, p, v)


def hsel(h, p, holds=_no):
    a = h
    while a.op == "hst":
        if a.args[1] is p:
            return a.args[2]
        if distinct(a.args[1], p) or holds(not_(same(a.args[1], p))):
            a = a.args[0]
            continue
        if holds(same(a.args[1], p)):
            return a.args[2]
        break
    return mk("hsel", a, p)


# ---- maps ----
MEMPTY = mk("mempty")


def mhas(m, k, holds=_no):
    a = m
    while True:
        if a is MEMPTY:
            return FALSE
        if a.op == "mput":
            if a.args[1] is k or holds(same(a.args[1], k)):
                return TRUE
            if distinct(a.args[1], k) or holds(not_(same(a.args[1], k))):
                a = a.args[0]
                continue
        elif a.op == "merase":
            if a.args[1] is k or holds(same(a.args[1], k)):
                return FALSE
            if distinct(a.args[1], k) or holds(not_(same(a.args[1], k))):
                a = a.args[0]
                continue
        return mk("mhas", a, k)


def mget(m, k, holds=_no):
    a = m
    while True:
        if a.op == "mput":
            if a.args[1] is k or holds(same(a.args[1], k)):
                return a.args[2]
            if distinct(a.args[1], k) or holds(not_(same(a.args[1], k))):
                a = a.args[0]
                continue
        elif a.op == "merase":
            if distinct(a.args[1], k) or holds(not_(same(a.args[1], k))):
                a = a.args[0]
                continue
        return mk("mget", a, k)


def mput(m, k, v):
    if m.op == "mput" and m.args[1] is k:
        m = m.args[0]
    return mk("mput", m, k, v)


def merase(m, k):
    if m is MEMPTY:
        return m
    return mk("merase", m, k)


def forall(n, d, body):
    """body holds for every value 0 <= bv < n of the bound variable of depth d"""
    if is_num(n, 0) or body is TRUE:
        return TRUE
    return mk("all", n, d, body)


def all_at(t, i):
    return subst(t.args[2], {mk("bv", t.args[1]): i})


# ---- bytes of integers ----

# sequences of events: lnil, lapp(sequence, element); an element is an event or lrep(count, depth, elements)

def lrep(n, kap, els):
    """The elements once for each value of kap from 0 to n-1."""
    d = max([bvdepth(x) for x in els], default=0) + 1
    return mk("lrep", n, d, tuple(subst(x, {kap: mk("bv", d)}) for x in els)) if not is_num(n, 0) else ZEROREP


def lapp(log, e):
    if e is ZEROREP or e.op == "lrep" and (is_num(e.args[0], 0) or not e.args[2]):
        return log
    # one more round of the last repetition?
    tail, t = [e], log
    while t.op == "lapp" and len(tail) <= 8:
        x = t.args[1]
        if x.op == "lrep" and len(x.args[2]) == len(tail):
            n, d, items = x.args
            if all(subst(a, {mk("bv", d): n}) is b for a, b in zip(items, tail[::-1])):
                return mk("lapp", t.args[0], mk("lrep", add(n, ONE), d, items))
        tail.append(x)
        t = t.args[0]
    return mk("lapp", log, e)


def rdbe(n, b):
    return bswap(n, rdle(n, b))


def rdle(n, b):
    if b.op == "wrle" and b.args[0] == n:
        return trunc(8 * n, False, b.args[1])
    if b.op == "wrbe" and b.args[0] == n:
        return bswap(n, trunc(8 * n, False, b.args[1]))
    return mk("rdle", n, b)


def wrle(n, x):
    if x.op == "rdle" and x.args[0] == n:
        return x.args[1]
    if x.op == "bswap" and x.args[0] == n:
        return wrbe(n, x.args[1])
    return mk("wrle", n, x)


def wrbe(n, x):
    if x.op == "rdbe" and x.args[0] == n:
        return x.args[1]
    return mk("wrbe", n, x)


def bswap(n, x):
    if x.op == "num":
        return num(int.from_bytes((x.args[0] & ((1 << 8 * n) - 1)).to_bytes(n, "big"), "little"))
    if x.op == "rdle" and x.args[0] == n:
        return mk("rdbe", n, x.args[1])
    if x.op == "rdbe" and x.args[0] == n:
        return mk("rdle", n, x.args[1])
    if x.op == "bswap" and x.args[0] == n:
        return x.args[1]
    return mk("bswap", n, x, ty=(False, 8 * n))


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


# ---- printing ----

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 14:
        return "~"
    o, a = t.op, t.args
    e = d + 1
    if o == "num":
        return str(a[0])
    if o == "lin":
        s = ""
        for x, k in a[1]:
            s += ("+" if k > 0 and s else "") + ("-" if k == -1 else "" if k == 1 else "%d*" % k) + show(x, e)
        return "(" + s + (("%+d" % a[0]) if a[0] else "") + ")"
    if o == "sym":
        return str(a[0]).replace("in:", "")
    if o == "k":
        return "k%d" % t.id
    if o == "bv":
        return "$%d" % a[0]
    if o == "heapv":
        return "H%d" % t.id if a[0] else "H0"
    if o == "phi":
        return "phi%d<%s>" % (t.id, show(a[1], e)[-40:])
    if o == "le":
        return show(a[0], e) + "<=0"
    if o == "eq":
        return show(a[0], e) + "==0"
    if o == "not":
        return "!" + show(a[0], e)
    if o == "same":
        return "%s===%s" % (show(a[0], e), show(a[1], e))
    if o == "fld":
        return "%s.%s" % (show(a[0], e), str(a[1]).split("::")[-1])
    if o == "hsel":
        return "%s.%s" % (show(a[1], e), show(a[0], e))
    if o == "hb":
        return str(a[0]).split("::")[-1]
    if o == "rd":
        return "%s[%s%s]" % (show(a[0], e), show(a[1], e), "" if a[2] == 1 else ":+%d" % a[2])
    if o == "new":
        return "new%d(%s)" % (t.id, ",".join(show(x, e) for x in a[1]))
    if o == "struct":
        return "{" + (show(a[0], e) + "|" if a[0] is not None else "") + ",".join("%s=%s" % (str(k).split("::")[-1], show(v, e)) for k, v in a[1]) + "}"
    if o == "call":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ",".join(show(x, e) for x in a[1:]))
    return o + ("(" + ",".join(show(x, e) for x in a) + ")" if a else "")
