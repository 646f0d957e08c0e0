"""Abstract interpreter over the exported syntax trees.

Domain: value terms (terms.py) for every variable, heap field and container component, together with
must-facts (state.py).  Paths are kept apart up to a cap and then joined; loops are run to a fixpoint in which
changed components become induction terms (start + c*k, array comprehensions) or unconstrained symbols,
and facts that hold on every back edge become loop invariants.  Repository functions are followed into
(inlined); recursion and anything not modelled gives unconstrained values and is reported as such.
Checks attach hooks that are called, once the surrounding loops are stable, with the state at each
event (call, return, store, dereference, ...)."""
from .facts import AnalysisError, loc, walk
from .effects import short
from .terms import *
from .state import State

CAP = 64


class Limit(Exception):
    """The analysis grew beyond its budget: no verdict."""


class Frame:
    __slots__ = ("id", "fn", "tu", "this", "up", "kap", "node")


OBJ = ("obj",)


def LV(key, path=()):
    return mk("lv", key, path)


def sub_lv(lv, *el):
    return mk("lv", lv.args[0], lv.args[1] + el)


THIS = mk("this")


def has_unk(t):
    return has_op(t, ("unk", "uninit"))


class Interp:
    def __init__(self, prog, world="utreexo::Pollard", opaque=None, hook=None, effects=None, budget=400000, ranges=None, results=None):
        self.results = results or {}
        self.custom = {}       # function name -> model supplied by a check
        self.cap = CAP         # paths kept apart
        self.meets = 0
        self.ghost = {}        # extra entries of the initial state
        self.gconst = {}       # namespace-scope variables: value on entry
        self.peel = 0          # iterations of outermost loops analysed apart from the rest
        self.joins = 0         # states merged to bound their number
        self.reading = set()   # loops a check wants to remember
        self.prog = prog
        self.world = world
        self.opaque = opaque or (lambda f: False)
        self.hookf = hook
        self.mix = False
        self.effects = effects
        self.rec = True
        self.fids = {}
        self.nids = {}
        self.keep = []
        self.ktype = {}
        self.fr = None
        self.kap = ()
        self.budget = budget
        self.steps = 0
        self.notes = []       # constructs that were not modelled
        self.stack = []
        self.fieldtypes = {}
        self.ranges = {"utreexo::ForestState::NumRows": 64, "utreexo::ForestState::DetectRow": 65,
                       "utreexo::ForestState::NumRoots": 64, "utreexo::ForestState::RootIndex": 64,
                       "CountBits": 64, "utreexo::_numRows": 64}
        for r in prog.records.values():
            for f in r["fields"]:
                self.fieldtypes[f["q"]] = f["t"]
        from . import models
        self.models = models

    # ------------------------------------------------------------ utilities
    def nid(self, n):
        i = self.nids.get(id(n))
        if i is None:
            i = len(self.nids) + 1
            self.nids[id(n)] = i
            self.keep.append(n)
        return i

    def note(self, n, why):
        s = "%s: %s" % (loc(self.fr.fn, n) if n is not None and self.fr else "?", why)
        if s not in self.notes:
            self.notes.append(s)

    def unk(self, n, why, t=None, tag=""):
        self.note(n, why)
        return self.fresh(n, tag, t)

    def fresh(self, n, tag="", t=None):
        return mk("unk", (self.fr.id, self.nid(n), tag), self.kap, ty=self.ity(t))

    def ity(self, t):
        t = t.strip_ref() if t is not None else None
        if t is not None and t.k in ("int", "enum"):
            return (t.signed, t.bits)
        return None

    def hook(self, kind, st, n, **kw):
        if self.rec and self.hookf:
            self.hookf(self, kind, st, n, kw)

    def key(self, did):
        return ("v", self.fr.id, did)

    def findkey(self, st, did):
        f = self.fr
        while f is not None:
            k = ("v", f.id, did)
            if k in st.env:
                return k
            f = f.up
        return ("v", self.fr.id, did)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Limit("step budget exhausted")

    # ------------------------------------------------------------ stores
    def heap(self, st, f):
        return st.env.get(("h", f)) or hb(f)

    def base(self, st, key):
        v = st.env.get(key)
        if v is None:
            if key[0] == "a":
                return sym("in:" + key[1])
            if key[0] == "G":
                return self.gvalue(key[1])
            return mk("uninit", str(key))
        return v

    def entry(self, key):
        """Value a variable has before its first write, for those that are not declared by the code analysed."""
        if key[0] == "h":
            return hb(key[1])
        if key[0] == "a":
            return sym("in:" + key[1])
        if key[0] == "G":
            return self.gvalue(key[1])
        return None

    def gvalue(self, qn):
        """A namespace-scope variable on entry: its initialiser if it is a constant."""
        if qn in self.gconst:
            return self.gconst[qn]
        r = self.gconst[qn] = sym("glob:" + qn)
        gs = [g for g in self.prog.globals if g["qn"] == qn and g.get("init") is not None]
        if len(gs) == 1 and gs[0]["t"].const and self.fr is not None:
            hookf, self.hookf = self.hookf, None
            try:
                out = self.ev(State({}, {}, ()), gs[0]["init"])
            finally:
                self.hookf = hookf
            if len(out) == 1 and isinstance(out[0][1], T) and not any(y.op in ("sym", "this", "hsel", "new", "call", "phi", "unk", "uninit") for y in subterms(out[0][1])):
                r = self.gconst[qn] = out[0][1]
        return r

    def proj(self, st, v, el):
        o = el[0]
        if o == "f":
            return fld(v, el[1])
        if o == "vi":
            return rd(varr(v), el[1], 1, st.holds)
        if o == "ai":
            return rd(v, el[1], 1, st.holds)
        if o == "k":
            return mget(v, el[1], st.holds)
        if o == "mkv":
            return struct({"std::pair::first": el[1], "std::pair::second": mget(v, el[1], st.holds)})
        if o == "opt":
            return oval(v)
        raise AnalysisError("projection " + o)

    def read(self, st, lv):
        if lv.op != "lv":
            return lv
        key, path = lv.args
        if key == OBJ:
            p = path[0][1]
            if len(path) == 1:
                return mk("deref", p)
            if path[1][0] != "f":
                return mk("deref", p)
            v = hsel(self.heap(st, path[1][1]), p, st.holds)
            rest = path[2:]
        else:
            v = self.base(st, key)
            if v.op == "lv":
                return self.read(st, mk("lv", v.args[0], v.args[1] + path))
            rest = path
        for el in rest:
            v = self.proj(st, v, el)
        return v

    def write(self, st, lv, val):
        key, path = lv.args
        if key == OBJ:
            p = path[0][1]
            if len(path) == 1:
                if val.op == "struct" and val.args[0] is None:
                    for f, x in val.args[1]:
                        self.write(st, mk("lv", OBJ, (("at", p), ("f", f))), x)
                elif val.op == "deref":
                    pass
                return
            f = path[1][1]
            h = self.heap(st, f)
            new = self.upd(st, hsel(h, p, st.holds) if len(path) > 2 else None, path[2:], val)
            st.env[("h", f)] = hst(h, p, new)
            return
        v = st.env.get(key)
        if v is not None and v.op == "lv":
            return self.write(st, mk("lv", v.args[0], v.args[1] + path), val)
        st.env[key] = self.upd(st, self.base(st, key), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        el = path[0]
        rest = path[1:]
        o = el[0]
        if o == "vi":
            x = self.upd(st, rd(varr(v), el[1], 1, st.holds) if rest else None, rest, val)
            return vec(vsize(v), store(varr(v), el[1], 1, x, st.holds))
        if o == "ai":
            x = self.upd(st, rd(v, el[1], 1, st.holds) if rest else None, rest, val)
            return store(v, el[1], 1, x, st.holds)
        if o == "f":
            return setf(v, el[1], self.upd(st, fld(v, el[1]) if rest else None, rest, val))
        if o == "k":
            return mput(v, el[1], self.upd(st, mget(v, el[1], st.holds) if rest else None, rest, val))
        if o == "mkv":
            if rest and rest[0] == ("f", "std::pair::second"):
                return mput(v, el[1], self.upd(st, mget(v, el[1], st.holds) if rest[1:] else None, rest[1:], val))
            return v
        if o == "opt":
            return some(self.upd(st, oval(v) if rest else None, rest, val))
        raise AnalysisError("update " + o)

    def canon(self, st, lv):
        """Resolve reference variables at the root of an lvalue."""
        while lv.op == "lv" and lv.args[0] != OBJ:
            v = st.env.get(lv.args[0])
            if v is not None and v.op == "lv":
                lv = mk("lv", v.args[0], v.args[1] + lv.args[1])
            else:
                break
        return lv

    def deref(self, st, p, n):
        """lvalue a pointer-like value points to"""
        if p.op == "addr":
            return p.args[0]
        if p.op == "bp":
            lv, size, off = p.args
            if isinstance(size, str) and size.startswith("i"):
                return lv
            return sub_lv(lv, ("vi" if size == "v" else "ai", off))
        return mk("lv", OBJ, (("at", p),))

    def assign(self, st, lv, val, n):
        lv = self.canon(st, lv)
        self.hook("store", st, n, lv=lv, val=val)
        self.write(st, lv, val)

    # ------------------------------------------------------------ numbers
    def fits(self, st, x, bits, signed):
        l, h = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        lo, hi = bounds(x)
        if not (lo is not None and lo >= l) and not st.holds(le(num(l), x)):
            return False
        return (hi is not None and hi <= h) or st.holds(le(x, num(h)))

    def wrap(self, st, x, t):
        """Value of an arithmetic result of integer type t."""
        if t is None or t.k not in ("int", "enum"):
            return x
        if x.op == "num" and not t.signed:
            return num(x.args[0] & ((1 << t.bits) - 1)) if t.bits < 64 else x
        if t.bits >= 64 or t.signed:
            return x
        if self.fits(st, x, t.bits, False):
            return x
        return trunc(t.bits, False, x)

    def conv(self, st, x, src, dst):
        """Conversion between integer types."""
        if dst is None:
            return x
        if dst.k == "bool":
            return self.tobool(x)
        if src is not None and src.k == "bool":
            return b2i(self.tobool(x))
        if x.op in ("true", "false", "not", "le", "eq", "same", "and", "or", "iff"):
            return b2i(x)
        if dst.k not in ("int", "enum"):
            return x
        if x.op == "num":
            return trunc(dst.bits, dst.signed, x) if dst.bits < 64 else x
        if src is not None and src.k in ("int", "enum"):
            if dst.bits > src.bits or dst.bits == src.bits and (dst.bits >= 64 or dst.signed == src.signed):
                return x
        if self.fits(st, x, dst.bits, dst.signed):
            return x
        return trunc(dst.bits, dst.signed, x)

    def tobool(self, x):
        o = x.op
        if o in ("true", "false", "not", "le", "eq", "same", "and", "or", "iff", "ohas", "mhas", "all"):
            return x
        if o in ("num", "lin", "band", "bor", "b2i", "trunc", "shr", "mul", "mod", "k", "sz"):
            return ne0(x)
        if x.ty is not None and isinstance(x.ty, tuple):
            return ne0(x)
        if o == "ite":
            c, a, b = x.args
            a, b = self.tobool(a), self.tobool(b)
            return or_(and_(c, a), and_(not_(c), b)) if len(syms(x)) < 40 else ite(c, a, b)
        return x

    def typed(self, v, t):
        """Remember the integer type of an atom."""
        if t is not None and t.k in ("int", "enum") and v.ty is None and v.op in ("hsel", "fld", "rd", "mget", "sym", "call", "oval", "unk", "uninit", "phi", "ite", "div", "deref"):
            v.ty = (t.signed, t.bits)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        self.tick()
        m = getattr(self, "ev_" + n["k"], None)
        if m is None:
            return [(st, self.unk(n, "expression " + n["k"], n.get("t")))]
        return m(st, n)

    def evs(self, st, ns):
        """Evaluate a list of expressions left to right: [(state, [values])]"""
        out = [(st, [])]
        for x in ns:
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(s, x)]
        return out

    def rv(self, st, n):
        """Value of an expression that may be an lvalue call result."""
        return self.ev(st, n)

    def lv(self, st, n):
        """[(state, lvalue)]; materialises temporaries for prvalues."""
        self.tick()
        k = n["k"]
        m = getattr(self, "lv_" + k, None)
        if m is not None:
            r = m(st, n)
            if r is not None:
                return r
        out = []
        for s, v in self.ev(st, n):
            key = ("t", self.fr.id, self.nid(n))
            s.env[key] = v
            out.append((s, LV(key)))
        return out

    def ev_int(self, st, n):
        t = n.get("t")
        v = int(n["v"])
        if t is not None and t.k == "bool":
            return [(st, boolt(v))]
        return [(st, num(v))]

    def ev_null(self, st, n):
        return [(st, NULL)]

    def ev_zero(self, st, n):
        return [(st, self.default(n.get("t"), True))]

    def ev_str(self, st, n):
        return [(st, mk("strlit", str(n.get("v"))))]

    def ev_this(self, st, n):
        t = self.fr.this
        if t.op == "lv" and t.args[0] == OBJ and len(t.args[1]) == 1:
            return [(st, t.args[1][0][1])]
        return [(st, mk("addr", t))]

    def ev_fnref(self, st, n):
        return [(st, mk("fnref", n.get("fn", {}).get("usr", "?")))]

    def lv_ref(self, st, n):
        dk = n["dk"]
        if dk in ("var", "param", "binding"):
            k = self.findkey(st, n["d"])
            if k not in self.ktype:
                self.ktype[k] = n.get("t")
            return [(st, LV(k))]
        if dk == "staticlocal":
            k = ("G", n.get("qn") or "%s@%s" % (n["n"], n.get("d")))
            return [(st, LV(k))]
        if dk == "global":
            return [(st, LV(("G", n.get("qn") or n["n"])))]
        return None

    def ev_ref(self, st, n):
        if n["dk"] == "enumconst" or (n.get("cv") is not None):
            v = n.get("cv", n.get("v"))
            t = n.get("t")
            if v is not None:
                if t is not None and t.k == "bool":
                    return [(st, boolt(int(v)))]
                return [(st, num(int(v)))]
        if n["dk"] == "global" and (n.get("qn") or n["n"]) == "std::nullopt":
            return [(st, NONE)]
        r = self.lv_ref(st, n)
        if r is None:
            return [(st, self.unk(n, "reference to " + n["n"], n.get("t")))]
        s, lv = r[0]
        return [(s, self.load(s, lv, n))]

    def load(self, st, lv, n, quiet=False):
        t = n.get("t")
        if not quiet:
            self.hook("load", st, n, lv=lv)
        v = self.read(st, lv)
        return self.typed(v, t.strip_ref() if t is not None else None)

    def lv_member(self, st, n):
        out = []
        b = n["b"]
        if n.get("arrow"):
            for s, p in self.ev(st, b):
                self.hook("deref", s, n, p=p, how="->")
                out.append((s, sub_lv(self.deref(s, p, n), ("f", n["fld"]))))
        else:
            for s, lv in self.lv(st, b):
                out.append((s, sub_lv(self.canon(s, lv), ("f", n["fld"]))))
        return out

    def ev_member(self, st, n):
        if n.get("cv") is not None:
            return [(st, num(int(n["cv"])))]
        if n.get("fld") is None:
            return [(st, self.unk(n, "member " + n["n"], n.get("t")))]
        out = []
        b = n["b"]
        if not n.get("arrow") and not b.get("lv"):
            for s, v in self.ev(st, b):
                out.append((s, self.typed(fld(v, n["fld"]), n.get("t"))))
            return out
        for s, lv in self.lv_member(st, n):
            out.append((s, self.load(s, lv, n)))
        return out

    def lv_idx(self, st, n):
        out = []
        for s, p in self.ev(st, n["b"]):
            for s2, i in self.ev(s, n["i"]):
                if p.op == "bp":
                    q = mk("bp", p.args[0], p.args[1], add(p.args[2], i))
                    self.hook("mem", s2, n, p=q, cnt=ONE, w=False)
                    out.append((s2, self.deref(s2, q, n)))
                else:
                    out.append((s2, sub_lv(self.deref(s2, p, n), ("ai", i))))
        return out

    def ev_idx(self, st, n):
        return [(s, self.load(s, lv, n)) for s, lv in self.lv_idx(st, n)]

    def lv_cast(self, st, n):
        ck = n["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "LValueBitCast") and n["x"].get("lv"):
            return self.lv(st, n["x"])
        return None

    def ev_cast(self, st, n):
        ck = n["ck"]
        x = n["x"]
        t = n.get("t")
        if ck == "ArrayToPointerDecay":
            out = []
            if x["k"] == "str":
                return self.ev(st, x)
            for s, lv in self.lv(st, x):
                xt = x.get("t")
                out.append((s, mk("bp", self.canon(s, lv), xt.n if xt is not None and xt.n and xt.n > 0 else "p", ZERO)))
            return out
        if ck == "ToVoid":
            return [(s, ZERO) for s, _ in self.ev(st, x)]
        if ck == "NullToPointer":
            return [(s, NULL) for s, _ in self.ev(st, x)]
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            return [(s, self.conv(s, v, x.get("t"), t)) for s, v in self.ev(st, x)]
        if ck in ("PointerToBoolean", "NullPointerToBoolean"):
            return [(s, not_(same(v, NULL))) for s, v in self.ev(st, x)]
        return self.ev(st, x)

    def lv_un(self, st, n):
        op = n["op"]
        if op == "*":
            out = []
            for s, p in self.ev(st, n["x"]):
                self.hook("deref", s, n, p=p, how="*")
                out.append((s, self.deref(s, p, n)))
            return out
        if op in ("++", "--"):
            out = []
            for s, lv in self.lv(st, n["x"]):
                self.incdec(s, lv, n, op)
                out.append((s, lv))
            return out
        return None

    def incdec(self, st, lv, n, op):
        v = self.typed(self.read(st, lv), n.get("t"))
        one = ONE if op == "++" else num(-1)
        if v.op == "bp":
            new = mk("bp", v.args[0], v.args[1], add(v.args[2], one))
        else:
            new = self.wrap(st, add(v, one), n.get("t"))
        self.assign(st, lv, new, n)
        return v

    def ev_un(self, st, n):
        op = n["op"]
        x = n["x"]
        if op == "!":
            return [(s, not_(self.tobool(v))) for s, v in self.ev(st, x)]
        if op == "&":
            if x["k"] == "fnref":
                return self.ev(st, x)
            out = []
            for s, lv in self.lv(st, x):
                lv = self.canon(s, lv)
                if lv.args[0] == OBJ and len(lv.args[1]) == 1:
                    out.append((s, lv.args[1][0][1]))
                    continue
                xt = x.get("t")
                if lv.args[1] and lv.args[1][-1][0] in ("vi", "ai"):
                    b = mk("lv", lv.args[0], lv.args[1][:-1])
                    out.append((s, mk("bp", b, "v" if lv.args[1][-1][0] == "vi" else "p", lv.args[1][-1][1])))
                elif xt is not None and xt.k == "int":
                    out.append((s, mk("bp", lv, "i%d" % (xt.bits // 8), ZERO)))
                else:
                    out.append((s, mk("addr", lv)))
            return out
        if op in ("++", "--"):
            return [(s, self.typed(self.read(s, lv), n.get("t"))) for s, lv in self.lv_un(st, n)]
        if op in ("post++", "post--"):
            out = []
            for s, lv in self.lv(st, x):
                out.append((s, self.incdec(s, lv, n, op[4:])))
            return out
        if op == "*":
            return [(s, self.load(s, lv, n)) for s, lv in self.lv_un(st, n)]
        t = n.get("t")
        if op == "-":
            return [(s, self.wrap(s, scale(v, -1), t)) for s, v in self.ev(st, x)]
        if op == "+":
            return self.ev(st, x)
        if op == "~":
            out = []
            for s, v in self.ev(st, x):
                if t is not None and t.k == "int" and not t.signed:
                    out.append((s, sub(num((1 << t.bits) - 1), v)))
                else:
                    out.append((s, sub(num(-1), v)))
            return out
        return [(s, self.unk(n, "operator " + op, t)) for s, _ in self.ev(st, x)]

    def lv_bin(self, st, n):
        op = n["op"]
        if op == ",":
            return [r for s, _ in self.ev(st, n["x"]) for r in self.lv(s, n["y"])]
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            if op == "=":
                for s, v in self.ev(st, n["y"]):
                    for s2, lv in self.lv(s, n["x"]):
                        self.assign(s2, lv, v, n)
                        out.append((s2, lv))
                return out
            for s, v in self.ev(st, n["y"]):
                for s2, lv in self.lv(s, n["x"]):
                    old_ = self.typed(self.read(s2, lv), n["x"].get("t"))
                    ct = n.get("ct") or n.get("t")
                    a = self.conv(s2, old_, n["x"].get("t"), ct) if old_.op != "bp" else old_
                    r = self.arith(s2, op[:-1], a, v, ct, n)
                    r = self.conv(s2, r, ct, n["x"].get("t")) if r.op != "bp" else r
                    self.assign(s2, lv, r, n)
                    out.append((s2, lv))
            return out
        return None

    def arith(self, st, op, a, b, t, n):
        if a.op == "bp" or b.op == "bp":
            if op == "+" and b.op == "bp":
                a, b = b, a
            if op == "+" and b.op != "bp":
                return mk("bp", a.args[0], a.args[1], add(a.args[2], b))
            if op == "-" and b.op != "bp":
                return mk("bp", a.args[0], a.args[1], sub(a.args[2], b))
            if op == "-" and a.op == "bp" and a.args[0] is b.args[0]:
                return sub(a.args[2], b.args[2])
            return self.unk(n, "pointer arithmetic", t)
        a, b = [b2i(x) if x.op in ("true", "false", "le", "eq", "not", "same", "and", "or") else x for x in (a, b)]
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
            if t is not None and t.k == "int" and not t.signed and not st.holds(le(b, a)):
                self.hook("usub", st, n, a=a, b=b)
        elif op == "*":
            r = mul(a, b)
        elif op == "<<":
            r = shl(a, b)
        elif op == ">>":
            r = shr(a, b)
        elif op == "&":
            r = band(a, b)
        elif op == "|":
            r = bor(a, b)
        elif op == "^":
            r = bxor(a, b)
        elif op == "%":
            r = gmod(a, b)
        elif op == "/":
            if a.op == "num" and b.op == "num" and b.args[0]:
                r = num(a.args[0] // b.args[0])
            elif b.op == "num" and t is not None and t.k == "int" and not t.signed and b.args[0] > 1 and not b.args[0] & (b.args[0] - 1):
                r = shr(a, num(b.args[0].bit_length() - 1))
            else:
                r = mk("div", a, b, ty=self.ity(t))
        else:
            return self.unk(n, "operator " + op, t)
        return self.wrap(st, r, t)

    def cmp(self, st, op, a, b, n):
        if a.op == "bp" and b.op == "bp" and a.args[0] is b.args[0]:
            a, b = a.args[2], b.args[2]
        elif a.op in ("bp", "addr") and b is NULL or b.op in ("bp", "addr") and a is NULL:
            return boolt(op == "!=")
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return lt(b, a)
        if op == ">=":
            return le(b, a)
        r = self.equal(a, b, n)
        return r if op == "==" else not_(r)

    def isint(self, x):
        return x.op in ("num", "lin", "band", "bor", "bxor", "b2i", "trunc", "shr", "shl", "mul", "mod", "k", "sz", "rdbe", "rdle", "div", "msz", "byte") or isinstance(x.ty, tuple)

    def equal(self, a, b, n):
        bo = ("true", "false", "not", "le", "eq", "same", "and", "or", "iff")
        if a.op in bo or b.op in bo:
            return iff(self.tobool(a), self.tobool(b))
        if self.isint(a) or self.isint(b):
            return eq0(sub(a, b))
        return same(a, b)

    def ev_bin(self, st, n):
        op = n["op"]
        if op in ("&&", "||"):
            out = []
            for s, b in self.branch(st, n["x"]):
                if b == (op == "||"):
                    out.append((s, boolt(b)))
                else:
                    out += [(s2, self.tobool(v)) for s2, v in self.ev(s, n["y"])]
            return out
        if op == ",":
            return [r for s, _ in self.ev(st, n["x"]) for r in self.ev(s, n["y"])]
        r = self.lv_bin(st, n)
        if r is not None:
            return [(s, self.typed(self.read(s, lv), n.get("t"))) for s, lv in r]
        out = []
        for s, a in self.ev(st, n["x"]):
            for s2, b in self.ev(s, n["y"]):
                if op in ("<", ">", "<=", ">=", "==", "!="):
                    xt, yt = n["x"].get("t"), n["y"].get("t")
                    if xt is not None and xt.k == "bool" and yt is not None and yt.k == "bool":
                        a2, b2 = self.tobool(a), self.tobool(b)
                        r = iff(a2, b2)
                        out.append((s2, r if op == "==" else not_(r)))
                        continue
                    out.append((s2, self.cmp(s2, op, a, b, n)))
                else:
                    out.append((s2, self.arith(s2, op, a, b, n.get("t"), n)))
        return out

    def lv_cond(self, st, n):
        if not n.get("lv"):
            return None
        return [r for s, b in self.branch(st, n["x"]) for r in self.lv(s, n["a"] if b else n["b"])]

    def ev_cond(self, st, n):
        return [r for s, b in self.branch(st, n["x"]) for r in self.ev(s, n["a"] if b else n["b"])]

    def branch(self, st, n):
        """Evaluate as a condition: [(state, bool)] with the outcome assumed in each state."""
        k = n["k"]
        if k == "un" and n["op"] == "!":
            return [(s, not b) for s, b in self.branch(st, n["x"])]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s, b in self.branch(st, n["x"]):
                if b == (n["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.branch(s, n["y"])
            return out
        if k == "cast" and n["ck"] in ("NoOp", "ToVoid") and n["x"].get("t") is not None and n["x"]["t"].k == "bool":
            return self.branch(st, n["x"])
        out = []
        for s, v in self.ev(st, n):
            out += self.split(s, self.tobool(v), n)
        return out

    def split(self, s, b, n):
        if s.holds(b):
            return [(s, True)]
        if s.refuted(b):
            return [(s, False)]
        t = s.copy()
        out = []
        if t.assume(b):
            out.append((t, True))
        if s.assume(not_(b)):
            out.append((s, False))
        return out

    def ev_init(self, st, n):
        t = n.get("t")
        args = n["args"]
        if t is not None and t.k == "rec" and t.tmpl in ("std::array",) or t is not None and t.k == "array":
            # aggregate of elements
            els = args
            if t.tmpl == "std::array" and len(args) == 1 and args[0]["k"] == "init":
                els = args[0]["args"]
            out = []
            size = t.n if t.k == "array" else (t.targs[1] if len(t.targs) > 1 else None)
            for s, vs in self.evs(st, els):
                v = mk("afill", ZERO) if not (t.targs and t.targs[0] is not None and t.targs[0].k != "int") else mk("uninit", "arr")
                if t.k == "array" and t.to is not None and t.to.k not in ("int",):
                    v = mk("afill", NULL) if t.to.tmpl == "std::shared_ptr" else mk("uninit", "arr")
                for i, x in enumerate(vs):
                    v = store(v, num(i), 1, x)
                out.append((s, v))
            return out
        if t is not None and t.k == "rec":
            fs = self.prog.all_fields(t.rec)
            if fs is not None and len(fs) >= len(args):
                out = []
                for s, vs in self.evs(st, args):
                    out.append((s, struct({f["q"]: v for f, v in zip(fs, vs)})))
                return out
        if len(args) == 1:
            return self.ev(st, args[0])
        if not args and t is not None:
            return [(st, self.default(t, True))]
        return [(s, self.unk(n, "initialiser list", t)) for s, _ in self.evs(st, args)]

    def ev_lambda(self, st, n):
        out = [(st, [])]
        for c in n["caps"]:
            nxt = []
            for s, cs in out:
                if c.get("this"):
                    nxt.append((s, cs + [("this", self.fr.this)]))
                elif c["byref"]:
                    lv = self.canon(s, LV(self.findkey(s, c["d"])))
                    nxt.append((s, cs + [(c["d"], lv)]))
                elif c.get("init"):
                    for s2, v in self.ev(s, c["init"]):
                        nxt.append((s2, cs + [(c["d"], v)]))
                else:
                    nxt.append((s, cs + [(c["d"], self.read(s, LV(self.findkey(s, c["d"]))))]))
            out = nxt
        return [(s, mk("lam", "lambda:%d:%d" % n["did"], tuple(cs), self.fr.id)) for s, cs in out]

    def ev_throw(self, st, n):
        self.hook("throw", st, n)
        self.pending.append(("x", st, None))
        return []

    def ev_new(self, st, n):
        return [(st, self.unk(n, "new expression"))]

    def ev_stmtexpr(self, st, n):
        return [(st, self.unk(n, "statement expression", n.get("t")))]

    def ev_arraycopy(self, st, n):
        return self.ev(st, n["x"]) if "x" in n else [(st, self.unk(n, "array copy"))]

    def ev_unknown(self, st, n):
        return [(st, self.unk(n, "construct %s" % n.get("cls", "?"), n.get("t")))]

    # ------------------------------------------------------------ default values
    def default(self, t, value_init=False):
        if t is None:
            return mk("uninit", "?")
        t = t.strip_ref()
        if t.k in ("int", "enum"):
            return ZERO if value_init else mk("uninit", t.s)
        if t.k == "bool":
            return FALSE if value_init else mk("uninit", t.s)
        if t.k in ("ptr", "nullptr"):
            return NULL if value_init else mk("uninit", t.s)
        if t.tmpl in ("std::vector", "std::deque", "std::basic_string"):
            return vec(ZERO, EMPTY)
        if t.tmpl in ("std::unordered_map", "std::unordered_set", "std::map", "std::set"):
            return MEMPTY
        if t.tmpl == "std::optional":
            return NONE
        if t.tmpl in ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            return NULL
        if t.k == "array":
            if t.to is not None and t.to.tmpl == "std::shared_ptr":
                return mk("afill", NULL)
            return mk("afill", ZERO) if value_init and t.to is not None and t.to.k == "int" else mk("uninit", "arr")
        if t.tmpl == "std::array":
            return mk("afill", ZERO) if value_init else mk("uninit", "arr")
        if t.tmpl == "std::pair":
            return struct({"std::pair::first": self.default(t.targs[0], True), "std::pair::second": self.default(t.targs[1], True)})
        if t.tmpl == "std::tuple":
            return struct({"#%d" % i: self.default(x, True) for i, x in enumerate(t.targs)})
        if t.k == "rec":
            fs = self.prog.all_fields(t.rec)
            if fs is not None:
                return struct({f["q"]: self.default(f["t"]) for f in fs})
        return mk("uninit", t.s)

    # ------------------------------------------------------------ calls
    def resolve(self, fnref, qual=False):
        """Repository definition of a call target, following virtual dispatch in the chosen world."""
        f = self.prog.lookup(fnref, self.fr.tu)
        u = fnref["usr"]
        if not qual:
            cands = [g for g in self.alloverriders(u)]
            mine = [g for g in cands if (g.get("cls") or "").startswith(self.world)]
            if mine:
                return max(mine, key=lambda g: len(g.get("cls") or ""))
        return f

    def alloverriders(self, u, seen=None):
        out = []
        for g in self.prog.overriders.get(u, []):
            out.append(g)
            out += self.alloverriders(g["usr"])
        return out

    def lv_call(self, st, n):
        ret = n["fn"].get("ret")
        if not n.get("lv"):
            return None
        out = []
        for s, v in self.call(st, n, True):
            if v.op == "lv":
                out.append((s, v))
            else:
                key = ("t", self.fr.id, self.nid(n))
                s.env[key] = v
                out.append((s, LV(key)))
        return out

    def ev_call(self, st, n):
        out = []
        for s, v in self.call(st, n, False):
            if v.op == "lv":
                v = self.load(s, v, n)
            t = n.get("t")
            out.append((s, self.typed(v, t.strip_ref() if t is not None else None)))
        return out

    def ev_pcall(self, st, n):
        return [(st, self.unk(n, "call through a pointer", n.get("t")))]

    def call(self, st, n, want_lv):
        """[(state, value or lv)]"""
        fn = n["fn"]
        r = self.models.call(self, st, n, want_lv)
        if r is not None:
            return r
        f = self.resolve(fn, n.get("qual"))
        if f is None and not fn.get("root"):
            return self.unmodelled(st, n)
        # arguments and object
        obj = n.get("obj")
        outs = [(st, None)]
        if obj is not None:
            if n.get("arrow"):
                outs = []
                for s, p in self.ev(st, obj):
                    self.hook("deref", s, n, p=p, how="call")
                    outs.append((s, self.deref(s, p, n)))
            else:
                outs = [(s, self.canon(s, lv)) for s, lv in self.lv(st, obj)]
        res = []
        pts = fn.get("pt", [])
        for s, o in outs:
            for s2, args in self.evargs(s, n["args"], pts):
                res += self.enter(s2, n, f, fn, o, args)
        return res

    def evargs(self, st, args, pts):
        out = [(st, [])]
        for i, a in enumerate(args):
            byref = i < len(pts) and pts[i] is not None and pts[i].k == "ref"
            nxt = []
            for s, vs in out:
                if byref:
                    nxt += [(s2, vs + [self.canon(s2, lv)]) for s2, lv in self.lv(s, a)]
                else:
                    nxt += [(s2, vs + [v]) for s2, v in self.ev(s, a)]
            out = nxt
        return out

    def enter(self, st, n, f, fn, o, args):
        """Call a repository function with evaluated object and arguments (lv terms for references)."""
        if fn["n"].endswith("::operator=") and (f is None or f.get("body") is None) and fn.get("cls") in self.prog.records and o is not None and len(args) == 1:
            v = args[0]
            fs = self.prog.all_fields(fn["cls"]) or []
            vals = [self.read(st, sub_lv(v, ("f", x["q"]))) if v.op == "lv" else fld(v, x["q"]) for x in fs]
            for x, y in zip(fs, vals):
                self.assign(st, sub_lv(o, ("f", x["q"])), y, n)
            return [(st, o)]
        if f is None:
            return self.opaque_call(st, n, fn, o, args)
        self.hook("call", st, n, f=f, o=o, args=args)
        if f["n"] in self.custom:
            return self.custom[f["n"]](self, st, n, f, o, args)
        if self.opaque(f) or f.get("body") is None or f["key"] in self.stack or len(self.stack) > 24:
            if f["key"] in self.stack:
                self.note(n, "recursive call to " + f["n"])
            out = self.opaque_call(st, n, f, o, args)
            for s, v in out:
                self.hook("result", s, n, f=f, val=v, o=o, args=args)
            return out
        return self.inline(st, n, f, o, args)

    def inline(self, st, n, f, o, args, caps=()):
        fr = Frame()
        k = (self.fr.id if self.fr else 0, self.nid(n), f["key"])
        fr.id = self.fids.setdefault(k, len(self.fids) + 1)
        fr.fn = f
        fr.tu = f["tu"]
        fr.this = o
        fr.up = None
        fr.node = n
        saved = self.fr, self.pending if hasattr(self, "pending") else None
        for p, a in zip(f["params"], args):
            st.env[("v", fr.id, p["d"])] = a
            self.ktype[("v", fr.id, p["d"])] = p["t"]
        for d, v in caps:
            if d == "this":
                fr.this = v
            else:
                st.env[("v", fr.id, d)] = v
        self.stack.append(f["key"])
        self.fr = fr
        self.pending = []
        try:
            states = [st]
            if f.get("ctor") or f.get("inits"):
                states = self.ctor_inits(st, f, o)
            out = []
            flows = []
            for s in states:
                flows += self.ex(f["body"], s)
            for kind, s, v in flows:
                if kind in ("n", "r"):
                    if v is not None and v.op == "lv":
                        rt = f.get("ret")
                        if rt is None or rt.k != "ref":
                            v = self.read(s, v)
                    self.hook("return", s, n, f=f, val=v, o=o, args=args)
                    out.append((s, v if v is not None else ZERO))
                elif kind == "x":
                    self.hook("escape", s, n, f=f)
            pend = self.pending
            out = self.limit_r(out, n)
            for s, v in out:
                for kk in [kk for kk in s.env if kk[0] in ("v", "t") and kk[1] == fr.id]:
                    if v.op != "lv" or v.args[0] != kk:
                        del s.env[kk]
        finally:
            self.stack.pop()
            self.fr, sp = saved
            xs = self.pending
            self.pending = sp if sp is not None else []
        return out

    def ctor_inits(self, st, f, o):
        states = [st]
        done = set()
        for i in f.get("inits", []):
            nxt = []
            for s in states:
                if i.get("deleg") or i.get("base"):
                    x = i.get("x")
                    if x is None:
                        nxt.append(s)
                        continue
                    nxt += self.construct_into(s, x, o)
                elif i.get("fld"):
                    x = i.get("x")
                    lv = sub_lv(o, ("f", i["fld"]))
                    if x is None:
                        self.write(s, lv, self.default(i.get("ft")))
                        nxt.append(s)
                        continue
                    ft = i.get("ft")
                    for s2, v in self.ev(s, x):
                        self.write(s2, lv, v)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return states

    def construct_into(self, st, x, o):
        """Run a constructor expression on an existing (sub)object."""
        if x["k"] == "ctor":
            f = self.prog.lookup(x["fn"], self.fr.tu)
            if f is not None and f.get("body") is not None:
                out = []
                for s, args in self.evargs(st, x["args"], x["fn"].get("pt", [])):
                    out += [s2 for s2, _ in self.inline(s, x, f, o, args)]
                return out
            fs = self.prog.all_fields(x["fn"].get("cls") or "")
            if fs:
                for fd in fs:
                    v = self.default(fd["t"])
                    if fd.get("init") and fd["init"].get("k") == "init" or fd.get("init") and fd["init"].get("k") == "int":
                        r = self.ev(st, fd["init"])
                        st, v = r[0]
                    self.write(st, sub_lv(o, ("f", fd["q"])), v)
            return [st]
        return [st]

    def opaque_call(self, st, n, f, o, args):
        name = f["n"]
        if name.startswith("utreexo::ForestState::") and o is not None:
            objv = self.typed(self.read(st, sub_lv(o, ("f", "utreexo::ForestState::m_num_leaves"))), None)
            if objv.ty is None and objv.op not in ("num", "lin"):
                objv.ty = (False, 64)
            vs = [objv]
        else:
            vs = [] if o is None else [self.objval(st, o)]
        pts = f.get("pt") or [p["t"] for p in f.get("params", [])]
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else None
            if a.op == "lv":
                if pt is not None and pt.k == "ref" and not pt.to.const and not pt.rv:
                    self.write(st, a, self.fresh(n, "out%d" % i, pt.to))
                    vs.append(mk("outarg", i))
                else:
                    vs.append(self.read(st, a))
            else:
                vs.append(a)
        pure = f.get("const") or o is None
        if not pure or self.lasting(f):
            self.havoc(st, n, f, o)
        rt = f.get("ret")
        if rt is not None and rt.k == "void":
            return [(st, ZERO)]
        if name in self.results:
            return [(st, self.results[name])]
        if not name.startswith("utreexo::ForestState::") and o is not None or not pure:
            vs.append(mk("heapv", tuple(sorted(((k[1], x) for k, x in st.env.items() if k[0] == "h"), key=lambda y: y[0]))))
        if not pure:
            vs.append(mk("site", (self.fr.id, self.nid(n)), self.kap))
        v = mk("call", name, *vs, ty=self.ity(rt))
        if name in self.ranges and v.ty:
            self.bound(st, v, self.ranges[name])
        return [(st, v)]

    def bound(self, st, v, hi):
        st.add(le0(sub(v, num(hi))))

    def objval(self, st, o):
        if o.op == "lv" and o.args[0] == OBJ:
            if len(o.args[1]) == 1:
                return o.args[1][0][1]
        return self.read(st, o)

    def havoc(self, st, n, f, o):
        """Forget everything a call we do not follow may write."""
        fields = self.effects.fields(f) if self.effects and f.get("body") is not None else None
        for k in list(st.env):
            if k[0] == "h" and (fields is None or k[1] in fields):
                st.env[k] = mk("unk", (self.fr.id, self.nid(n), k[1]), self.kap)
        for fl in (fields or ()):
            if ("h", fl) not in st.env:
                st.env[("h", fl)] = mk("unk", (self.fr.id, self.nid(n), fl), self.kap)
        if o is not None and o.op == "lv" and o.args[0] != OBJ:
            self.write(st, o, self.fresh(n, "obj"))

    def lasting(self, f):
        """Does the function write anything but its own locals and new objects?"""
        e = self.effects.sum.get(f.get("key")) if self.effects else None
        return e is not None and any(w not in ("local", "fresh", "io") for w in e.writes)

    def unmodelled(self, st, n):
        fn = n["fn"]
        outs = [(st, None)]
        if n.get("obj") is not None:
            outs = [(s, lv) for s, lv in (self.lv(st, n["obj"]) if not n.get("arrow") else self.ev(st, n["obj"]))]
        res = []
        for s, o in outs:
            for s2, args in self.evargs(s, n["args"], fn.get("pt", [])):
                for i, a in enumerate(args):
                    if a.op == "lv":
                        pt = fn["pt"][i]
                        if not pt.to.const:
                            self.write(s2, a, self.fresh(n, "out%d" % i))
                if o is not None and o.op == "lv" and not fn.get("const"):
                    self.write(s2, self.canon(s2, o), self.fresh(n, "obj"))
                res.append((s2, self.unk(n, "library call " + fn["n"], n.get("t"))))
        return res

    # constructors
    def ev_ctor(self, st, n):
        r = self.models.ctor(self, st, n)
        if r is not None:
            return r
        fn = n["fn"]
        t = n.get("t")
        if fn.get("ctor") in ("copy", "move") and len(n["args"]) == 1:
            return self.ev(st, n["args"][0])
        f = self.prog.lookup(fn, self.fr.tu)
        key = ("t", self.fr.id, self.nid(n))
        if f is not None and f.get("body") is not None:
            out = []
            for s, args in self.evargs(st, n["args"], fn.get("pt", [])):
                s.env[key] = self.default(t) if t is not None else mk("uninit", "obj")
                self.hook("call", s, n, f=f, o=LV(key), args=args)
                if f["n"] in self.custom:
                    out += [(s2, s2.env.get(key)) for s2, _ in self.custom[f["n"]](self, s, n, f, LV(key), args)]
                    continue
                if self.opaque(f):
                    for s2, _ in self.opaque_call(s, n, f, None, args):
                        out.append((s2, mk("call", f["n"], *[self.read(s2, a) for a in args])))
                    continue
                for s2, _ in self.inline(s, n, f, LV(key), args):
                    out.append((s2, s2.env.get(key)))
            return out
        if fn.get("cls") in self.prog.records and not n["args"]:
            return [(st, self.default(t))]
        return [(s, self.unk(n, "constructor of " + str(fn.get("cls")), t)) for s, _ in self.evargs(st, n["args"], fn.get("pt", []))]

    def new_object(self, st, n, cls, args, tag=""):
        """Allocate an object of a repository class and run the constructor of matching arity."""
        p = mk("new", (self.fr.id, self.nid(n), cls), self.kap)
        o = mk("lv", OBJ, (("at", p),))
        cs = [f for f in self.prog.functions.values() if f.get("cls") == cls and f.get("ctor") and f["ctor"] not in ("copy", "move") and len(f["params"]) == len(args)]
        if not cs:
            fs = self.prog.all_fields(cls)
            if fs is None:
                return [(st, self.unk(n, "allocation of " + cls))]
            for f in fs:
                self.write(st, sub_lv(o, ("f", f["q"])), self.default(f["t"]))
            return [(st, p)]
        if len(cs) > 1:
            self.note(n, "ambiguous constructor of " + cls)
        out = []
        f = cs[0]
        for fd in self.prog.all_fields(cls) or []:
            st.env[("h", fd["q"])] = hst(self.heap(st, fd["q"]), p, self.default(fd["t"]))
        vals = []
        for prm, a in zip(f["params"], args):
            if prm["t"].k != "ref" and a.op == "lv":
                a = self.read(st, a)
            elif prm["t"].k == "ref" and a.op != "lv":
                key = ("t", self.fr.id, (self.nid(n), prm["d"]))
                st.env[key] = a
                a = LV(key)
            vals.append(a)
        self.hook("new", st, n, cls=cls, p=p, args=vals, f=f)
        for s, _ in self.inline(st, n, f, o, vals):
            out.append((s, p))
        return out

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        self.tick()
        if n is None:
            return [("n", st, None)]
        m = getattr(self, "ex_" + n["k"], None)
        if m is None:
            # expression statement
            out = [("n", s, None) for s, _ in self.discard(st, n)]
        else:
            out = m(n, st)
        if self.pending:
            out = out + self.pending
            self.pending = []
        return out

    def discard(self, st, n):
        if n.get("lv") and n["k"] in ("bin", "un", "call"):
            return self.lv(st, n)
        return self.ev(st, n)

    def ex_expr(self, n, st):
        return [("n", s, None) for s, _ in self.discard(st, n["x"])]

    def ex_null(self, n, st):
        return [("n", st, None)]

    def seq(self, stmts, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for fl in self.ex(x, s):
                    if fl[0] == "n":
                        nxt.append(fl[1])
                    else:
                        out.append(fl)
            cur = self.limit(nxt, x)
            if not cur:
                break
        return out + [("n", s, None) for s in cur]

    def ex_block(self, n, st):
        return self.seq(n["s"], st)

    def ex_label(self, n, st):
        return self.ex(n.get("s") or n.get("body"), st)

    def ex_decl(self, n, st):
        states = [st]
        for v in n["vars"]:
            states = [s2 for s in states for s2 in self.declare(v, s, n)]
        return [("n", s, None) for s in states]

    def declare(self, v, st, n):
        key = self.key(v["d"])
        t = v["t"]
        self.ktype[key] = t
        if v.get("static"):
            if v.get("init") is not None and t.const:
                k2 = ("G", v.get("qn") or "%s@%s" % (v["n"], v.get("d")))
                out = []
                for s, x in self.ev(st, v["init"]):
                    if not isinstance(x, T) or any(y.op in ("sym", "this", "hsel", "new", "call", "phi") for y in subterms(x)):
                        self.note(n, "static local " + v["n"])
                    s.env[k2] = x
                    s.env[key] = LV(k2)
                    out.append(s)
                return out
            self.note(n, "static local " + v["n"])
        out = []
        init = v.get("init")
        if init is None:
            st.env[key] = self.default(t)
            out = [st]
        elif t.k == "ref":
            for s, lv in self.lv(st, init):
                s.env[key] = self.canon(s, lv)
                out.append(s)
        else:
            for s, x in self.ev(st, init):
                s.env[key] = x
                if t.is_int:
                    self.hook("init", s, n, var=v, val=x)
                out.append(s)
        bs = v.get("bindings")
        if bs:
            for s in out:
                tt = t.strip_ref()
                for i, b in enumerate(bs):
                    if b.get("fld"):
                        f = b["fld"]
                    elif tt.tmpl == "std::pair":
                        f = ("std::pair::first", "std::pair::second")[i]
                    elif tt.tmpl == "std::tuple":
                        f = "#%d" % i
                    elif tt.tmpl == "std::array" or tt.k == "array":
                        s.env[self.key(b["d"])] = self.canon(s, LV(key, (("ai", num(i)),)))
                        continue
                    else:
                        f = "?%d" % i
                    s.env[self.key(b["d"])] = sub_lv(self.canon(s, LV(key)), ("f", f))
                    self.ktype[self.key(b["d"])] = b["t"]
        return out

    def ex_if(self, n, st):
        states = [st]
        if n.get("init"):
            states = [fl[1] for s in states for fl in self.ex(n["init"], s)]
        if n.get("cvar"):
            cv = n["cvar"]
            states = [s2 for s in states for v in (cv if isinstance(cv, list) else [cv]) for s2 in self.declare(v, s, n)]
        out = []
        for s in states:
            c = n["cond"]
            for s2, b in self.branch(s, c):
                self.hook("branch", s2, n, b=b)
                if b:
                    out += self.ex(n["then"], s2)
                elif n.get("else"):
                    out += self.ex(n["else"], s2)
                else:
                    out.append(("n", s2, None))
        return self.limit_f(out, n)

    def limit_f(self, out, n):
        ns = [s for k, s, _ in out if k == "n"]
        if len(ns) > self.cap:
            ns = self.limit(ns, n)
            return [f for f in out if f[0] != "n"] + [("n", s, None) for s in ns]
        return out

    def ex_return(self, n, st):
        x = n.get("x")
        if x is None:
            return [("r", st, None)]
        rt = self.fr.fn.get("ret")
        if rt is not None and rt.k == "ref":
            return [("r", s, self.canon(s, lv)) for s, lv in self.lv(st, x)]
        self.hook("ret", st, n)
        out = []
        for s, v in self.ev(st, x):
            if rt is not None and rt.k == "bool":
                b = self.tobool(v)
                if s.holds(b):
                    out.append(("r", s, TRUE))
                elif s.refuted(b):
                    out.append(("r", s, FALSE))
                else:
                    for s2, c in self.split(s, b, n):
                        out.append(("r", s2, boolt(c)))
            else:
                out.append(("r", s, v))
        return out

    def ex_break(self, n, st):
        return [("b", st, None)]

    def ex_continue(self, n, st):
        return [("c", st, None)]

    def ex_throw(self, n, st):
        self.hook("throw", st, n)
        return [("x", st, None)]

    def ex_try(self, n, st):
        self.note(n, "try block")
        out = []
        for fl in self.ex(n.get("body") or n.get("s"), st):
            out.append(fl)
        return out

    def ex_switch(self, n, st):
        out = []
        body = n["body"]
        stmts = body["s"] if body["k"] == "block" else [body]
        # flatten "case v: stmt" chains
        flat_, labels = [], []

        def put(s):
            while s is not None and s["k"] in ("case", "default"):
                labels.append((len(flat_), s.get("v") if s["k"] == "case" else None))
                s = s.get("s")
            if s is not None:
                flat_.append(s)
        for s in stmts:
            put(s)
        for s0, v in self.ev(st, n["cond"]):
            rest = [s0]
            dflt = None
            for pos, ce in labels:
                if ce is None:
                    dflt = pos
                    continue
                nr = []
                for r in rest:
                    for r3, b in self.split(r, self.cmp(r, "==", v, num(int(ce)), n), n):
                        if b:
                            out += self.seq(flat_[pos:], r3)
                        else:
                            nr.append(r3)
                rest = nr
            for r in rest:
                if dflt is not None:
                    out += self.seq(flat_[dflt:], r)
                else:
                    out.append(("n", r, None))
        return [("n", s, None) if k == "b" else (k, s, v) for k, s, v in out]

    # ------------------------------------------------------------ joins
    def limit(self, states, n):
        if len(states) <= self.cap:
            return states
        by = {}
        for s in states:
            by.setdefault((frozenset(s.env.items()), s.note), []).append(s)
        out = []
        for ss in by.values():
            out.append(ss[0] if len(ss) == 1 else self.meet(ss))
        if len(out) <= self.cap:
            return out
        return [self.join(out, n)]

    def limit_r(self, out, n):
        if len(out) <= self.cap:
            return out
        by = {}
        for s, v in out:
            by.setdefault((v, frozenset(s.env.items()), s.note), []).append(s)
        out = [(ss[0] if len(ss) == 1 else self.meet(ss), v) for (v, _, _), ss in by.items()]
        if len(out) <= self.cap:
            return out
        by = {}
        for s, v in out:
            by.setdefault(v if v in (TRUE, FALSE) else None, []).append((s, v))
        res = []
        for v, ss in by.items():
            if v is not None:
                res.append((self.join([s for s, _ in ss], n), v))
            else:
                for s, x in ss:
                    s.env[("t", 0, "ret")] = x
                j = self.join([s for s, _ in ss], n)
                res.append((j, j.env.pop(("t", 0, "ret"))))
        return res

    def meet(self, ss):
        self.meets += 1
        f = dict(ss[0].facts)
        for s in ss[1:]:
            f = {k: None for k in f if k in s.facts or (k.op in ("le", "eq", "not", "same") and s.holds(k))}
        r = State(dict(ss[0].env), f, ss[0].note)
        return r

    def join(self, ss, n):
        self.joins += len(ss) > 1
        env = {}
        keys = set(ss[0].env)
        for s in ss[1:]:
            keys |= set(s.env)
        for k in keys:
            vs = []
            for s in ss:
                v = s.env.get(k)
                if v is None:
                    v = self.entry(k)
                vs.append(v)
            if any(v is None for v in vs):
                continue
            env[k] = self.join_v(vs, (self.fr.id, self.nid(n), "j", k))
        f = {}
        for k in ss[0].facts:
            if all(k in s.facts for s in ss[1:]):
                f[k] = None
        r = State(env, f, ss[0].note)
        for s in ss[1:]:
            r.note = r.note if r.note == s.note else ()
        return r

    def join_v(self, vs, tag):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(v.op == "struct" and v.args[0] is v0.args[0] and [k for k, _ in v.args[1]] == [k for k, _ in v0.args[1]] for v in vs):
            return mk("struct", v0.args[0], tuple((k, self.join_v([v.args[1][i][1] for v in vs], tag + (k,))) for i, (k, _) in enumerate(v0.args[1])))
        if all(v.op == "vec" for v in vs):
            return vec(self.join_v([v.args[0] for v in vs], tag + ("sz",)), self.join_v([v.args[1] for v in vs], tag + ("arr",)))
        if all(v.op == "hst" and v.args[1] is v0.args[1] for v in vs):
            return hst(self.join_v([v.args[0] for v in vs], tag + ("h",)), v0.args[1], self.join_v([v.args[2] for v in vs], tag + ("v",)))
        if v0.op in ("vit", "rit", "dit") and all(v.op == v0.op and v.args[0] is v0.args[0] for v in vs):
            return mk(v0.op, v0.args[0], self.join_v([v.args[1] for v in vs], tag + ("ix",)))
        tys = {v.ty for v in vs if v.op != "num"}
        ty = tys.pop() if len(tys) == 1 else None
        return mk("phi", tag, self.kap, ty=ty)

    # ------------------------------------------------------------ loops
    def ex_while(self, n, st):
        return self.loop(st, n, (lambda s: self.branch(s, n["cond"])), n["body"], None)

    def ex_do(self, n, st):
        out = []
        for k, s, v in self.ex(n["body"], st):
            if k in ("n", "c"):
                out += self.loop(s, n, (lambda x: self.branch(x, n["cond"])), n["body"], None)
            elif k == "b":
                out.append(("n", s, None))
            else:
                out.append((k, s, v))
        return out

    def ex_for(self, n, st):
        out = []
        flows = self.ex(n["init"], st) if n.get("init") else [("n", st, None)]
        cond = (lambda s: self.branch(s, n["cond"])) if n.get("cond") else (lambda s: [(s, True)])
        inc = (lambda s: [s2 for s2, _ in self.discard(s, n["inc"])]) if n.get("inc") else None
        for k, s, v in flows:
            if k == "n":
                out += self.loop(s, n, cond, n["body"], inc)
            else:
                out.append((k, s, v))
        return out

    def ex_rangefor(self, n, st):
        out = []
        rt = n["range"].get("t")
        rt = rt.strip_ref() if rt is not None else None
        ikey = ("v", self.fr.id, ("rf", self.nid(n)))
        var = n["var"]
        for s, lv in self.lv(st, n["range"]):
            lv = self.canon(s, lv)
            cv = self.read(s, lv)
            s.env[ikey] = ZERO
            ismap = rt is not None and rt.tmpl in ("std::unordered_map", "std::unordered_set", "std::map", "std::set")
            if rt is not None and (rt.tmpl == "std::array" or rt.k == "array"):
                size = num(rt.n if rt.k == "array" else int(rt.targs[1]) if not hasattr(rt.targs[1], "s") else 0)
            elif ismap:
                size = mk("msz", cv)
            else:
                size = vsize(cv)
            if rt is not None and rt.k == "rec" and rt.tmpl is None:
                self.note(n, "range of type " + rt.s)
            beg = [x for x in walk(var["init"]) if x["k"] == "ref" and x["n"].startswith("__begin")] if var.get("init") else []

            def cond(x, size=size):
                return self.split(x, lt(x.env[ikey], size), n)

            def inc(x):
                x.env[ikey] = add(x.env[ikey], ONE)
                return [x]

            def pre(x, lv=lv, ismap=ismap, cv=cv, rt=rt):
                i = x.env[ikey]
                if ismap:
                    k = mk("mkey", cv, i)
                    x.assume(mhas(cv, k))
                    it = mk("mit", lv, k, TRUE)
                elif rt is not None and (rt.tmpl == "std::array" or rt.k == "array"):
                    it = mk("ait", lv, i)
                else:
                    it = mk("vit", lv, i)
                for b in beg:
                    x.env[self.key(b["d"])] = it
                self.hook("elem", x, n, lv=lv, i=i)
                return self.declare(var, x, n)
            out += self.loop(s, n, cond, n["body"], inc, pre)
        return out

    def loop(self, st0, n, cond, body, inc, pre=None):
        """One loop, entered in state st0: its first iterations apart where asked for, then the fixpoint."""
        starts = [st0]
        out = []
        if not self.kap:
            for _ in range(self.peel):
                nxt = []
                for s in starts:
                    back, o = self.run_body(s, n, cond, body, inc, pre)
                    nxt += back
                    out += [("n" if k in ("exit", "b") else k, x, v) for k, x, v in o]
                starts = nxt
            if not self.peel:
                return self.loop_rest(st0, n, cond, body, inc, pre)
        for s in starts:
            fs = cond(s.copy())
            if all(x.env == s.env for x, b in fs if b):
                out += [("n", x, None) for x, b in fs if not b]
                for x, b in fs:
                    if b:
                        out += self.loop_rest(x, n, cond, body, inc, pre)
            else:
                out += self.loop_rest(s, n, cond, body, inc, pre)
        return self.limit_f(out, n)

    def loop_rest(self, st0, n, cond, body, inc, pre=None):
        """Fixpoint over one loop, entered in state st0."""
        uid = (self.fr.id, self.nid(n))
        outer = self.kap
        kap = mk("k", uid, outer)
        shift = {kap: add(kap, ONE)}
        head = {}        # env key -> head value where it differs from entry
        forced = set()
        ind = {}         # candidate facts about phis
        common = None
        rec0 = self.rec
        self.kap = (kap,) + outer
        shape = {}
        try:
            self.rec = False
            dead = set()
            facts_prev = None
            for rnd in range(14):
                h = self.head_state(st0, head, ind, common, kap)
                back, out = self.run_body(h, n, cond, body, inc, pre)
                ok = True
                if not back:
                    break
                nh = self.generalise(st0, h, back, head, kap, uid, forced, rnd)
                if nh is not None:
                    head = nh
                    ok = False
                # candidate facts about the head values
                nc = self.back_facts(st0, h, back, kap, head, common or {}, shift, rnd)
                if ok:
                    ni = {}
                    for f in ind:
                        sf = subst(f, shift)
                        if all(b.holds(self.resolve_phis(sf, b, head, kap)) for b in back):
                            ni[f] = None
                        else:
                            dead.add(f)
                    if len(ni) != len(ind):
                        ind = ni
                        ok = False
                if rnd < 8:
                    for f in self.bound_candidates(st0, back, kap):
                        if f not in dead and f not in ind:
                            ind[f] = None
                            ok = False
                if nh is not None or rnd == 0:
                    for f in self.phi_candidates(st0, head, kap):
                        if f not in dead and f not in ind:
                            ind[f] = None
                            ok = False
                if common != nc:
                    common = nc
                    ok = False
                if ok:
                    break
            else:
                # no fixpoint: give up precision on everything that changed
                self.note(n, "loop did not stabilise")
                for k in list(head):
                    head[k] = self.phi_of(k, head[k], uid, ("g",), kap)
                ind = {}
                common = {}
            self.rec = rec0
            h = self.head_state(st0, head, ind, common, kap)
            start = h.copy()
            back, out = self.run_body(h, n, cond, body, inc, pre)
            self.hook("loop", h, n, head=head, back=back, kap=kap, entry=st0, out=out, start=start)
        finally:
            self.rec = rec0
            self.kap = outer
        res = []
        for k, s, v in out:
            if k == "exit":
                self.solve(s, kap)
                res.append(("n", s, None))
            elif k == "b":
                res.append(("n", s, None))
            else:
                res.append((k, s, v))
        return self.limit_f(res, n)

    def run_body(self, h, n, cond, body, inc, pre):
        out = []
        back = []
        for s, b in cond(h):
            if not b:
                out.append(("exit", s, None))
                continue
            starts = pre(s) if pre else [s]
            for s1 in starts:
                for k, s2, v in (body(s1) if callable(body) else self.ex(body, s1)):
                    if k in ("n", "c"):
                        back += inc(s2) if inc else [s2]
                    else:
                        out.append((k, s2, v))
        if self.pending:
            out += self.pending
            self.pending = []
        if len(back) > 4 * self.cap:
            back = [self.join(back, n)]
        return back, out

    def head_state(self, st0, head, ind, common, kap):
        env = dict(st0.env)
        env.update(head)
        s = State(env, dict(st0.facts), st0.note)
        for f in ind:
            s.add(f)
        for f in (common or ()):
            s.add(f)
        return s

    def phi_of(self, k, v, uid, path, kap):
        ty = None
        if isinstance(k, tuple) and k[0] in ("v", "t") and not path[1:]:
            t = self.ktype.get(k)
            ty = self.ity(t)
        if ty is None and v is not None:
            ty = v.ty if v.op not in ("lin", "num") else ((False, 64) if v.op == "num" and path and path[-1] == "sz" else None)
        if path and path[-1] == "sz":
            ty = (False, 62)
        return mk("phi", uid + (k,) + path, self.kap, ty=ty)

    def generalise(self, st0, h, back, head, kap, uid, forced, rnd):
        """New head values, or None if the current ones are stable."""
        shift = {kap: add(kap, ONE)}
        keys = set(st0.env) | set(head)
        for b in back:
            keys |= {k for k in b.env if k[0] in ("h", "a", "G")}
        changed = False
        new = dict(head)
        for k in keys:
            e = st0.env.get(k)
            if e is None:
                e = self.entry(k)
                if e is None:
                    continue
            cur = head.get(k, e)
            bs = [b.env.get(k, self.entry(k)) for b in back]
            if any(b is None for b in bs):
                continue
            g = self.gen(k, (), e, cur, bs, kap, uid, forced, shift)
            if g is not cur:
                new[k] = g
                changed = True
        return new if changed else None

    def gen(self, k, path, e, cur, bs, kap, uid, forced, shift):
        want = subst(cur, shift)
        if all(b is want for b in bs):
            return cur
        pk = (k,) + path
        phi = self.phi_of(k, e, uid, path, kap)
        # structural decomposition
        if e.op == "struct" and cur.op == "struct" and all(b.op == "struct" and b.args[0] is cur.args[0] and len(b.args[1]) == len(cur.args[1]) for b in bs) and len(e.args[1]) == len(cur.args[1]) and e.args[0] is cur.args[0]:
            return mk("struct", cur.args[0], tuple((f, self.gen(k, path + (f,), e.args[1][i][1], x, [b.args[1][i][1] for b in bs], kap, uid, forced, shift)) for i, (f, x) in enumerate(cur.args[1])))
        if (cur.op == "vec" or any(b.op == "vec" for b in bs)) and all(b.op in ("vec", "sym", "hsel", "phi", "fld") for b in bs) and cur.op != "phi":
            sz = self.gen(k, path + ("sz",), vsize(e), vsize(cur), [vsize(b) for b in bs], kap, uid, forced, shift)
            ar = self.gen(k, path + ("arr",), varr(e), varr(cur), [varr(b) for b in bs], kap, uid, forced, shift)
            return vec(sz, ar)
        for op in ("vit", "rit", "dit"):
            if cur.op == op and all(b.op == op and b.args[0] is cur.args[0] for b in bs) and e.op == op:
                return mk(op, cur.args[0], self.gen(k, path + ("ix",), e.args[1], cur.args[1], [b.args[1] for b in bs], kap, uid, forced, shift))
        if self.mix and path == () and e.op == "vit" and cur.op == "vit" and all(b.op == "vit" for b in bs):
            # the iterator moves from one container to another: stands for a place in any of them
            return mk("vit", mk("lv", ("a", "any container at %d.%d" % uid), ()), mk("phi", uid + (k, "ix"), self.kap, ty=(False, 62)))
        if cur.op == "bp" and all(b.op == "bp" and b.args[0] is cur.args[0] and b.args[1] == cur.args[1] for b in bs) and e.op == "bp":
            return mk("bp", cur.args[0], cur.args[1], self.gen(k, path + ("ix",), e.args[2], cur.args[2], [b.args[2] for b in bs], kap, uid, forced, shift))
        if bs and all(b.op == "st" and b.args[1] is bs[0].args[1] and b.args[2] == 1 for b in bs) and cur.op != "phi" and not self.local_to(bs[0].args[1], kap, uid):
            # one element, always the same, is written
            c = bs[0].args[1]

            def rest(x):
                return x.args[0] if x.op == "st" and x.args[1] is c and x.args[2] == 1 else x

            def grown(x, y):
                """x is what became of the container y"""
                if x.op != "vec":
                    return False
                x, y = varr(x), varr(y)
                while x is not y and x.op in ("st", "ext"):
                    x = x.args[0]
                return x is y
            if rest(cur) is rest(e) and all(rest(b) is rest(e) for b in bs) and all(grown(rd(b, c, 1), rd(e, c, 1)) or grown(rd(b, c, 1), rd(cur, c, 1)) for b in bs):
                return store(rest(e), c, 1, self.gen(k, path + ("el", c.id), rd(e, c, 1), rd(cur, c, 1), [rd(b, c, 1) for b in bs], kap, uid, forced, shift))
        if path == () and k[0] == "h":
            r = self.gen_heap(k, e, cur, bs, kap, uid, forced, shift)
            if r is not None:
                return r
        if (cur is phi or cur is e) and len(set(bs)) == 1 and (pk, "shr") not in forced:
            # halved (shifted) every round
            b = bs[0]
            x, by = (b.args if b.op == "shr" else (b, None))
            if by is not None and cur.op == "shr" and x is cur.args[0]:
                x, by = cur, sub(by, cur.args[1])
            if by is not None and x is cur and by.op == "num" and by.args[0] > 0:
                forced.add((pk, "shr"))
                return shr(e, scale(kap, by.args[0]))
        if pk in forced:
            return phi
        if cur is not phi:
            if cur is e and self.isint2(e, bs):
                # first change: guess a linear induction directly
                ds = {sub(b, cur) for b in bs}
                if len(ds) == 1:
                    d = ds.pop()
                    if not self.local_to(d, kap, uid):
                        return add(e, mul(d, kap))
                return phi
            if cur is e:
                g = self.gen_arr(e, cur, bs, kap, uid)
                return g if g is not None else phi
            forced.add(pk)
            return phi
        # cur is phi: look for linear induction or comprehension
        ds = {sub(b, cur) for b in bs} if self.isint2(e, bs) else set()
        if len(ds) == 1:
            d = ds.pop()
            if not self.local_to(d, kap, uid):
                return add(e, mul(d, kap))
        g = self.gen_arr(e, cur, bs, kap, uid)
        if g is not None:
            return g
        # b is phi(k+1) already by definition: stable
        return cur

    def gen_arr(self, e, cur, bs, kap, uid):
        if len(set(bs)) != 1:
            return None
        b = bs[0]
        if b.op == "ains" and b.args[0] is cur and is_num(b.args[1].args[1], 0) and e.op == "aempty":
            lo, w, v = ZERO, 1, b.args[2]
            l0, kk = ZERO, -1
        elif b.op != "st" or b.args[0] is not cur:
            return None
        else:
            _, lo, w, v = b.args
            c, d = dec(lo)
            kk = d.pop(kap, 0)
            if kk != w and kk != -w:
                return None
            l0 = lin(c, d)
        if self.local_to(l0, kap, uid) or (cur.op == "phi" and cur in set(subterms(v))):
            return None
        if kk == -w:
            # written from the back: element i is the one of iteration kap-1-i
            x = sym("rev", (False, 62))
            if b.op == "st":
                l0 = sub(l0, scale(sub(kap, ONE), w))
            return ext(e, l0, kap, w, x, subst(v, {kap: sub(sub(kap, ONE), x)}))
        return ext(e, l0, kap, w, kap, v)

    def gen_heap(self, k, e, cur, bs, kap, uid, forced, shift):
        """Component-wise treatment of heap fields written at loop-invariant pointers."""
        def chain(h):
            ws = {}
            order = []
            while h.op == "hst":
                if h.args[1] not in ws:
                    ws[h.args[1]] = h.args[2]
                    order.append(h.args[1])
                h = h.args[0]
            return h, ws
        eb, ew = chain(e)
        cb, cw = chain(cur)
        bb = [chain(b) for b in bs]
        if any(x[0] is not cb for x in bb) or cb is not eb:
            return None
        ptrs = set(cw) | set(ew)
        for _, w in bb:
            ptrs |= set(w)
        if any(self.local_to(p, kap, uid) for p in ptrs) or len(ptrs) > 6:
            return None
        ps = sorted(ptrs)
        # the pointers must be pairwise provably distinct for the order of writes not to matter
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                if not distinct(p, q):
                    return None
        r = eb
        for p in ps:
            ev = ew.get(p, hsel(eb, p))
            cv = cw.get(p, hsel(cb, p))
            bv = [w.get(p, hsel(cb, p)) for _, w in bb]
            g = self.gen(k, ("@", p.id), ev, cv, bv, kap, uid, forced, shift)
            r = hst(r, p, g)
        return r

    def isint2(self, e, bs):
        bad = ("true", "false", "vec", "struct", "st", "ext", "hst", "none", "some", "null", "new", "hsel", "le", "eq", "not", "same", "mput", "merase", "mempty", "aempty", "sop", "lapp", "lnil")
        if any(self.isint(b) for b in bs) and not any(b.op in bad and not isinstance(b.ty, tuple) for b in bs):
            return e.op not in bad or isinstance(e.ty, tuple)
        return False

    def local_to(self, t, kap, uid):
        for s in syms(t):
            if s is kap:
                return True
            if s.op in ("k", "phi", "unk", "new") and len(s.args) > 1 and any(kap in syms(x) for x in flat(s.args[1:])):
                return True
        return kap in syms(t) or any(x.op == "new" and any(kap in syms(y) for y in flat(x.args)) for x in subterms(t))

    def resolve_phis(self, f, b, head, kap):
        """Replace head symbols of the next iteration by their back-edge values."""
        nxt = add(kap, ONE)
        m = {}
        for k, v in head.items():
            if v.op == "phi":
                m[subst(v, {kap: nxt})] = b.env.get(k, v)
            elif v.op == "vec":
                bv = b.env.get(k)
                if bv is None:
                    continue
                if v.args[0].op == "phi":
                    m[subst(v.args[0], {kap: nxt})] = vsize(bv)
            elif v.op in ("vit", "rit", "dit") and v.args[1].op == "phi":
                bv = b.env.get(k)
                if bv is not None and bv.op == v.op:
                    m[subst(v.args[1], {kap: nxt})] = bv.args[1]
            elif v.op == "hst":
                bv = b.env.get(k)
                while v.op == "hst" and bv is not None:
                    if v.args[2].op == "phi":
                        m[subst(v.args[2], {kap: nxt})] = hsel(bv, v.args[1])
                    v = v.args[0]
        return subst(f, m) if m else f

    def phi_candidates(self, st0, head, kap):
        out = []

        def pair(ph, e):
            if e is None or not (self.isint(e) or isinstance(ph.ty, tuple)):
                if e in (TRUE, FALSE):
                    out.append(ph if e is TRUE else not_(ph))
                elif e is not None:
                    for f in list(st0.facts):
                        if f.op in ("same", "not") and e in set(subterms(f)) and e.op not in ("true", "false", "num", "null"):
                            out.append(replace(f, e, ph))
                return
            out.append(le(e, ph))
            out.append(le(ph, e))
            if e.op not in ("num",):
                for f in list(st0.facts)[:400]:
                    if f.op in ("le", "eq") and e.op != "lin" and e in dec(f.args[0])[1]:
                        out.append(replace(f, e, ph))
        lists = []      # (value on entry, value at the head) of lists that change
        for k, v in head.items():
            e = st0.env.get(k)
            if e is None:
                continue
            if v.op == "vec" and e.op == "vec":
                lists.append((e, v))
            elif k[0] == "h":
                objs = set()
                for h in (e, v):
                    while h.op == "hst":
                        if h.args[2].op == "vec":
                            objs.add(h.args[1])
                        h = h.args[0]
                lists += [(hsel(e, o), hsel(v, o)) for o in sorted(objs)]
        for k, v in head.items():
            e = st0.env.get(k)
            if v.op == "phi" and e is not None and e.op in ("new", "rd", "hsel"):
                for a, b in lists:
                    if rd(varr(a), sub(vsize(a), ONE), 1, st0.holds) is e:
                        out.append(same(v, rd(varr(b), sub(vsize(b), ONE), 1)))
        for k, v in head.items():
            e = st0.env.get(k)
            if e is None:
                continue
            if v.op == "phi":
                pair(v, e)
            elif v.op == "vec" and v.args[0].op == "phi":
                pair(v.args[0], vsize(e))
            elif v.op in ("vit", "rit", "dit") and v.args[1].op == "phi" and e.op == v.op:
                pair(v.args[1], e.args[1])
                lvv = v.args[0]
            elif v.op == "hst":
                while v.op == "hst":
                    if v.args[2].op == "phi":
                        pair(v.args[2], hsel(e, v.args[1]))
                    v = v.args[0]
        return [f for f in out if f not in (TRUE, FALSE)]

    def back_facts(self, st0, h, back, kap, head, old_, shift, rnd):
        """Facts at the head implied by facts common to all back edges: the previous iteration's (shifted),
        where they also hold on entry, and quantified over all previous iterations."""
        out = {}
        for g in old_:
            if g.op == "all" and g.args[0] is kap:
                sg = subst(g.args[2], {mk("bv", g.args[1]): kap})
            else:
                sg = subst(g, shift)
            if all(b.holds(sg) for b in back):
                out[g] = None
        if rnd > 8:
            return out
        common = None
        for b in back:
            f = {x for x in b.facts if x not in h.facts and self.mentions(x, kap)}
            common = f if common is None else common & f
        prev = {kap: sub(kap, ONE)}
        ent = {kap: ZERO}
        for f in sorted(common or (), key=lambda x: x.id):
            if f.op == "all":
                g = subst(f, prev)
                if st0.holds(subst(g, ent)):
                    out[g] = None
                continue
            if f.op in ("or", "iff", "ite"):
                d = max([x.args[0] for x in subterms(f) if x.op == "bv"], default=0) + 1
                out[forall(kap, d, subst(f, {kap: mk("bv", d)}))] = None
                continue
            g = subst(f, prev)
            e = subst(g, ent)
            if e is TRUE or (e is not FALSE and st0.holds(e)):
                out[g] = None
            d = bvdepth(f) + 1
            q = forall(kap, d, subst(f, {kap: mk("bv", d)}))
            out[q] = None
        return out

    def bound_candidates(self, st0, back, kap):
        """A loop that runs while k != n (k growing by one) stays at or below n if it starts there."""
        common = None
        for b in back:
            f = {x for x in b.facts if x.op == "not" and x.args[0].op == "eq" and kap in dec(x.args[0].args[0])[1]}
            common = f if common is None else common & f
        out = []
        for f in sorted(common or ()):
            t = f.args[0].args[0]
            if dec(t)[1][kap] not in (1, -1):
                continue
            if dec(t)[1][kap] == -1:
                t = scale(t, -1)
            g = le0(t)
            if g not in (TRUE, FALSE) and st0.holds(subst(g, {kap: ZERO})):
                out.append(g)
        return out

    def mentions(self, t, kap):
        return kap in syms(t) or any(x.op in ("new",) and any(kap in syms(y) for y in flat(x.args)) for x in subterms(t))

    def solve(self, s, kap):
        """At a normal exit, express the number of iterations through the other values if they determine it."""
        for f in list(s.facts):
            if f.op not in ("le", "eq"):
                continue
            c, d = dec(f.args[0])
            k = d.get(kap)
            if k not in (1, -1):
                continue
            d.pop(kap)
            e = lin(c, d)
            e = scale(e, -1) if k == 1 else e
            if kap in syms(e) or any(x.op in ("phi",) and kap in syms(x) for x in subterms(e)):
                continue
            t = sub(kap, e)
            if s.prove_le(t) and s.prove_le(scale(t, -1)):
                s.subst({kap: e})
                return

    # ------------------------------------------------------------ running a function
    def run(self, f, this=True, args=None, assume=()):
        """Analyse one function from an arbitrary entry state: [(state, value)]"""
        fr = Frame()
        fr.id = self.fids.setdefault(("root", f["key"]), len(self.fids) + 1)
        fr.fn = f
        fr.tu = f["tu"]
        fr.up = None
        fr.node = None
        cls = f.get("cls")
        fr.this = mk("lv", OBJ, (("at", THIS),)) if cls else None
        st = State()
        st.env.update(self.ghost)
        self.fr = fr
        self.kap = ()
        self.pending = []
        self.stack = [f["key"]]
        for p in f["params"]:
            k = ("v", fr.id, p["d"])
            self.ktype[k] = p["t"]
            t = p["t"]
            a = (args or {}).get(p["n"])
            if a is None:
                if t.k == "ref":
                    a = LV(("a", p["n"]))
                    self.ktype[("a", p["n"])] = t.to
                    if t.to.is_int:
                        sym("in:" + p["n"]).ty = self.ity(t.to)
                elif t.k == "ptr" and t.to is not None and t.to.k == "int":
                    a = mk("bp", LV(("a", "*" + p["n"])), "p", ZERO)
                else:
                    a = sym("in:" + p["n"], self.ity(t))
            st.env[k] = a
        for x in assume:
            st.assume(x)
        states = [st]
        if f.get("ctor"):
            states = self.ctor_inits(st, f, fr.this)
        out = []
        for s in states:
            for k, s2, v in self.ex(f["body"], s):
                if k in ("n", "r"):
                    if v is not None and v.op == "lv" and (f.get("ret") is None or f["ret"].k != "ref"):
                        v = self.read(s2, v)
                    out.append((s2, v))
                elif k == "x":
                    self.hook("escape", s2, f["body"], f=f)
        return out


def replace(t, a, b):
    """Replace an arbitrary subterm."""
    memo = {}

    def go(x):
        if x is a:
            return b
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go) if any(True for _ in flat(x.args)) else x
            memo[x] = r
        return r
    return go(t)
