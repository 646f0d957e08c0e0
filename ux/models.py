"""Models of the standard library operations the repository uses (and close relatives a maintainer might use)."""
from .effects import short
from .terms import *

VECS = ("std::vector", "std::deque", "std::basic_string", "std::__cxx11::basic_string")
MAPS = ("std::unordered_map", "std::map")
SETS = ("std::unordered_set", "std::set")
ITERS = ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::reverse_iterator", "std::__detail::_Node_iterator",
         "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")
PTRS = ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr")
STREAMS = ("std::basic_fstream", "std::basic_istream", "std::basic_ostream", "std::basic_ios", "std::ios_base", "std::basic_iostream",
           "std::basic_ifstream", "std::basic_ofstream")


def objs(I, st, n):
    """lvalues of the object a member call applies to"""
    if n.get("arrow"):
        out = []
        for s, p in I.ev(st, n["obj"]):
            I.hook("deref", s, n, p=p, how="call")
            out.append((s, I.deref(s, p, n)))
        return out
    return [(s, I.canon(s, lv)) for s, lv in I.lv(st, n["obj"])]


def objval(I, st, n):
    if n.get("arrow"):
        return [(s, I.read(s, lv)) for s, lv in objs(I, st, n)]
    return I.ev(st, n["obj"])


def V(I, st, a):
    """value of an argument that may have been passed as an lvalue"""
    return I.read(st, a) if a.op == "lv" else a


def withargs(I, n, outs):
    """[(state, obj, [argument values])]"""
    r = []
    for s, o in outs:
        for s2, vs in I.evs(s, n["args"]):
            r.append((s2, o, vs))
    return r


def vlv(lv, i):
    return mk("lv", lv.args[0], lv.args[1] + (("vi", i),))


def elemtype(t):
    t = t.strip_ref() if t is not None else None
    return t.targs[0] if t is not None and t.targs and hasattr(t.targs[0], "s") else None


# ------------------------------------------------------------------ dispatch

def call(I, st, n, want_lv):
    fn = n["fn"]
    if fn.get("root"):
        if fn["n"].endswith("::operator()") and "(anonymous class)" in fn["n"]:
            return call_lambda(I, st, n)
        if short(fn["n"]) == "MakeNodePtr":
            return make_shared(I, st, n)
        if short(fn["n"]).startswith("bswap_"):
            return free(I, st, n, short(fn["n"]), want_lv)
        return None
    cls = fn.get("cls") or ""
    m = short(fn["n"])
    opc = n.get("opc")
    if cls == "" or n.get("obj") is None:
        if opc in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and len(n["args"]) == 2:
            return binop(I, st, n, n["args"][0], n["args"][1], opc)
        return free(I, st, n, m, want_lv)
    if cls in ITERS:
        return iterator(I, st, n, cls, m, opc, want_lv)
    if opc in ("==", "!=", "<", ">", "<=", ">="):
        return binop(I, st, n, n["obj"], n["args"][0], opc)
    if cls in VECS:
        return vector(I, st, n, m, opc, want_lv)
    if cls in MAPS or cls in SETS:
        return umap(I, st, n, m, opc, want_lv, cls in SETS)
    if cls in PTRS:
        return sptr(I, st, n, m, opc, want_lv)
    if cls == "std::array":
        return array(I, st, n, m, opc, want_lv)
    if cls == "std::optional" or cls.startswith("std::_Optional"):
        return optional(I, st, n, m, opc, want_lv)
    if cls in ("std::tuple", "std::pair"):
        return tup(I, st, n, m, opc, want_lv)
    if cls in STREAMS:
        return stream(I, st, n, m, opc, want_lv)
    if cls == "std::bitset" and m == "count":
        return [(s, mk("call", "popcount", v, ty=(False, 7))) for s, v in objval(I, st, n)]
    return None


def call_lambda(I, st, n):
    out = []
    for s, v in I.ev(st, n["obj"]):
        if v.op != "lam":
            out.append((s, I.unk(n, "call of an unknown function object", n.get("t"))))
            continue
        out += apply_lambda(I, s, n, v, n["args"], n["fn"].get("pt", []))
    return out


def apply_lambda(I, s, n, v, args, pts):
    f = I.prog.functions.get(v.args[0])
    if f is None or f.get("body") is None:
        return [(s, I.unk(n, "lambda body", n.get("t")))]
    out = []
    for s2, vals in I.evargs(s, args, pts):
        out += I.inline(s2, n, f, None, vals, caps=v.args[1])
    return out


def lambda_on(I, s, n, v, lvs):
    """Apply a lambda value to element lvalues."""
    f = I.prog.functions.get(v.args[0]) if v.op == "lam" else None
    if f is None or f.get("body") is None or len(f["params"]) != len(lvs):
        return [(s, I.unk(n, "predicate"))]
    vals = []
    for p, lv in zip(f["params"], lvs):
        vals.append(lv if p["t"].k == "ref" else I.read(s, lv))
    return I.inline(s, n, f, None, vals, caps=v.args[1])


# ------------------------------------------------------------------ operators on values

def iter_pos(v):
    return v.args[1]


def binop(I, st, n, x, y, op):
    out = []
    for s, a in I.ev(st, x):
        for s2, b in I.ev(s, y):
            out.append((s2, val_op(I, s2, n, op, a, b)))
    return out


def val_op(I, st, n, op, a, b):
    if a.op in ("vit", "rit") and b.op == a.op and a.args[0] is b.args[0]:
        i, j = a.args[1], b.args[1]
        if a.op == "rit":
            i, j = j, i
        if op == "-":
            return sub(i, j)
        return I.cmp(st, op, i, j, n)
    if a.op in ("vit", "rit") and op in ("+", "-") and I.isint(b):
        d = b if (op == "+") == (a.op == "vit") else scale(b, -1)
        return mk(a.op, a.args[0], add(a.args[1], d))
    if b.op in ("vit", "rit") and op == "+" and I.isint(a):
        d = a if b.op == "vit" else scale(a, -1)
        return mk(b.op, b.args[0], add(b.args[1], d))
    if op in ("==", "!="):
        for p, q in ((a, b), (b, a)):
            if p.op == "mit" and q.op == "mend":
                return not_(p.args[2]) if op == "==" else p.args[2]
            if q is NONE or q.op == "none":
                h = ohas(p)
                return not_(h) if op == "==" else h
        if a.op == "mend" and b.op == "mend" and a.args[0] is b.args[0]:
            return boolt(op == "==")
        if a.op in ("vit", "rit", "mit", "mend") or b.op in ("vit", "rit", "mit", "mend"):
            I.note(n, "comparison of unrelated iterators")
            r = I.fresh(n, "cmp")
            return r
        r = I.equal(a, b, n)
        return r if op == "==" else not_(r)
    if I.isint(a) or I.isint(b):
        if op in ("<", ">", "<=", ">="):
            return I.cmp(st, op, a, b, n)
        return I.arith(st, op, a, b, n.get("t"), n)
    return I.unk(n, "operator %s on library values" % op, n.get("t"))


# ------------------------------------------------------------------ iterators

def deref_iter(I, st, n, v, off=ZERO):
    if v.op == "vit":
        i = add(v.args[1], off)
        c = I.read(st, v.args[0])
        I.hook("index", st, n, lv=v.args[0], i=i, size=vsize(c), checked=False, it=v)
        return vlv(v.args[0], i)
    if v.op == "rit":
        i = sub(sub(v.args[1], ONE), off)
        c = I.read(st, v.args[0])
        I.hook("index", st, n, lv=v.args[0], i=i, size=vsize(c), checked=False, it=v)
        return vlv(v.args[0], i)
    if v.op == "ait":
        return mk("lv", v.args[0].args[0], v.args[0].args[1] + (("ai", add(v.args[1], off)),))
    if v.op == "mit":
        I.hook("mapit", st, n, it=v)
        return mk("lv", v.args[0].args[0], v.args[0].args[1] + (("mkv", v.args[1]),))
    if v.op == "mend":
        I.hook("mapit", st, n, it=v)
    key = ("t", I.fr.id, I.nid(n))
    st.env[key] = I.unk(n, "dereference of an unknown iterator")
    return mk("lv", key, ())


def iterator(I, st, n, cls, m, opc, want_lv):
    if opc in ("==", "!=", "<", ">", "<=", ">="):
        return binop(I, st, n, n["obj"], n["args"][0], opc)
    if opc in ("-", "+") and len(n["args"]) == 1:
        return binop(I, st, n, n["obj"], n["args"][0], opc)
    if opc == "*":
        return [(s, deref_iter(I, s, n, v)) for s, v in I.ev(st, n["obj"])]
    if opc == "->":
        return [(s, mk("addr", deref_iter(I, s, n, v))) for s, v in I.ev(st, n["obj"])]
    if opc == "[]":
        return [(s2, deref_iter(I, s2, n, v, i)) for s, v in I.ev(st, n["obj"]) for s2, i in I.ev(s, n["args"][0])]
    if opc in ("++", "--", "+=", "-="):
        out = []
        for s, lv in I.lv(st, n["obj"]):
            args = [(s, [])] if opc in ("++", "--") else I.evs(s, n["args"])
            for s2, vs in args:
                lv2 = I.canon(s2, lv)
                v = I.read(s2, lv2)
                d = ONE if not vs or opc in ("++", "--") else vs[0]
                if opc in ("--", "-="):
                    d = scale(d, -1)
                if v.op in ("vit", "ait"):
                    new = mk(v.op, v.args[0], add(v.args[1], d))
                elif v.op == "rit":
                    new = mk("rit", v.args[0], sub(v.args[1], d))
                else:
                    new = I.unk(n, "step of a hash table iterator")
                I.assign(s2, lv2, new, n)
                post = opc in ("++", "--") and len(n["args"]) == 1
                out.append((s2, v if post else (lv2 if want_lv else new)))
        return out
    if opc == "=":
        out = []
        for s2, vs in I.evs(st, n["args"]):
            for s3, lv in I.lv(s2, n["obj"]):
                I.assign(s3, I.canon(s3, lv), vs[0], n)
                out.append((s3, lv if want_lv else vs[0]))
        return out
    if m == "base":
        return [(s, mk("vit", v.args[0], v.args[1]) if v.op == "rit" else v) for s, v in I.ev(st, n["obj"])]
    return None


# ------------------------------------------------------------------ vectors

def full_range(I, st, a, b):
    """container lvalue if [a,b) is a whole container"""
    if a.op in ("vit", "rit") and b.op == a.op and a.args[0] is b.args[0]:
        lo, hi = (a.args[1], b.args[1]) if a.op == "vit" else (b.args[1], a.args[1])
        if is_num(lo, 0) and st.holds(eq0(sub(hi, vsize(I.read(st, a.args[0]))))):
            return a.args[0]
    return None


def push(v, x, st):
    return vec(add(vsize(v), ONE), store(varr(v), vsize(v), 1, x, st.holds))


def build_elem(I, et, vs, n):
    if len(vs) == 1:
        return vs[0]
    if et is not None and et.tmpl == "std::pair" and len(vs) == 2:
        return struct({"std::pair::first": vs[0], "std::pair::second": vs[1]})
    if et is not None and et.tmpl == "std::tuple":
        return struct({"#%d" % i: v for i, v in enumerate(vs)})
    return I.unk(n, "element construction")


def vector(I, st, n, m, opc, want_lv):
    ct = n["obj"].get("t")
    if ct is not None and ct.k == "ptr":
        ct = ct.to
    et = elemtype(ct)
    out = []
    if opc == "=":
        for s, vs in I.evs(st, n["args"]):
            for s2, lv in objs(I, s, n):
                v = V(I, s2, vs[0])
                I.assign(s2, lv, v, n)
                out.append((s2, lv if want_lv else v))
        return out
    for s0, lv in objs(I, st, n):
        for s, vs in I.evs(s0, n["args"]):
            v = I.read(s, lv)
            if m in ("size", "length"):
                out.append((s, vsize(v)))
            elif m == "empty":
                out.append((s, eq0(vsize(v))))
            elif m == "capacity":
                out.append((s, mk("call", "capacity", v, ty=(False, 64))))
            elif opc == "[]" or m == "at":
                i = vs[0]
                I.hook("index", s, n, lv=lv, i=i, size=vsize(v), checked=(m == "at"))
                if m == "at":
                    if not s.assume(lt(i, vsize(v))):
                        continue
                out.append((s, vlv(lv, i)))
            elif m in ("back", "front"):
                i = sub(vsize(v), ONE) if m == "back" else ZERO
                I.hook("index", s, n, lv=lv, i=i, size=vsize(v), checked=False)
                out.append((s, vlv(lv, i)))
            elif m in ("begin", "cbegin"):
                out.append((s, mk("vit", lv, ZERO)))
            elif m in ("end", "cend"):
                out.append((s, mk("vit", lv, vsize(v))))
            elif m in ("rbegin", "crbegin"):
                out.append((s, mk("rit", lv, vsize(v))))
            elif m in ("rend", "crend"):
                out.append((s, mk("rit", lv, ZERO)))
            elif m in ("push_back", "emplace_back"):
                x = build_elem(I, et, [V(I, s, a) for a in vs], n)
                I.hook("push", s, n, lv=lv, val=x)
                I.assign(s, lv, push(v, x, s), n)
                out.append((s, vlv(lv, vsize(v)) if want_lv else ZERO))
            elif m in ("push_front", "emplace_front"):
                x = build_elem(I, et, [V(I, s, a) for a in vs], n)
                I.hook("push", s, n, lv=lv, val=x)
                I.assign(s, lv, vec(add(vsize(v), ONE), mk("pfront", varr(v), vsize(v), x)), n)
                out.append((s, ZERO))
            elif m == "pop_back":
                I.hook("index", s, n, lv=lv, i=sub(vsize(v), ONE), size=vsize(v), checked=False)
                I.assign(s, lv, vec(sub(vsize(v), ONE), varr(v)), n)
                out.append((s, ZERO))
            elif m == "pop_front":
                I.hook("index", s, n, lv=lv, i=ZERO, size=vsize(v), checked=False)
                I.assign(s, lv, vec(sub(vsize(v), ONE), I.fresh(n, "popf")), n)
                out.append((s, ZERO))
            elif m == "clear":
                I.assign(s, lv, vec(ZERO, EMPTY), n)
                out.append((s, ZERO))
            elif m in ("resize", "assign") and not (vs and vs[0].op in ("vit", "rit")):
                d = V(I, s, vs[1]) if len(vs) > 1 else I.default(et, True)
                if m == "assign" or is_num(vsize(v), 0):
                    nv = vec(vs[0], mk("afill", d))
                else:
                    nv = vec(vs[0], mk("rsz", varr(v), vsize(v), d))
                I.assign(s, lv, nv, n)
                out.append((s, ZERO))
            elif m == "assign":
                c = full_range(I, s, vs[0], vs[1])
                x = I.read(s, c) if c is not None and vs[0].op == "vit" else vec(val_op(I, s, n, "-", vs[1], vs[0]), I.fresh(n, "range"))
                I.assign(s, lv, x, n)
                out.append((s, ZERO))
            elif m in ("reserve", "shrink_to_fit"):
                out.append((s, ZERO))
            elif m == "data":
                out.append((s, mk("bp", lv, "v", ZERO)))
            elif m == "insert":
                out += insert(I, s, n, lv, v, vs, et)
            elif m == "erase":
                pos = vs[0]
                if len(vs) == 1:
                    nv = vec(sub(vsize(v), ONE), mk("aerase", varr(v), pos.args[1] if pos.op == "vit" else pos))
                else:
                    d = val_op(I, s, n, "-", vs[1], vs[0])
                    nv = vec(sub(vsize(v), d), mk("aerase", varr(v), vs[0], vs[1]))
                I.assign(s, lv, nv, n)
                out.append((s, mk("vit", lv, pos.args[1] if pos.op == "vit" else pos)))
            elif m == "swap":
                out += swap(I, s, n, lv, None, n["args"][0])
            elif opc == "+=":
                I.assign(s, lv, I.fresh(n, "str"), n)
                out.append((s, lv if want_lv else ZERO))
            else:
                return None
    return out


def insert(I, s, n, lv, v, vs, et):
    pos = vs[0]
    atend = pos.op == "vit" and pos.args[0] is lv and s.holds(eq0(sub(pos.args[1], vsize(v))))
    if len(vs) == 2 and n["args"][1]["k"] == "init" or len(vs) == 2 and vs[1].op == "ilist":
        els = vs[1].args if vs[1].op == "ilist" else None
        given = n["args"][1].get("els", n["args"][1].get("args")) if els is None else None
        if given is not None and vs[1].op in ("st", "afill"):
            els = [rd(vs[1], num(i), 1) for i in range(len(given))]
        if els is not None and atend:
            nv = v
            for x in els:
                nv = push(nv, x, s)
            for x in els:
                I.hook("push", s, n, lv=lv, val=x)
            I.assign(s, lv, nv, n)
            return [(s, pos)]
    elif len(vs) == 2:
        x = V(I, s, vs[1])
        I.hook("push", s, n, lv=lv, val=x)
        if atend:
            I.assign(s, lv, push(v, x, s), n)
        else:
            I.assign(s, lv, vec(add(vsize(v), ONE), (ins_front(varr(v), x) if pos.op == "vit" and is_num(pos.args[1], 0) else None) or mk("ains", varr(v), pos, x)), n)
        return [(s, pos)]
    elif len(vs) == 3 and vs[1].op in ("vit", "rit") and vs[2].op == vs[1].op:
        cnt = val_op(I, s, n, "-", vs[2], vs[1])
        c = full_range(I, s, vs[1], vs[2])
        if c is not None and vs[1].op == "vit" and s.holds(eq0(vsize(v))):
            nv = I.read(s, c)
        else:
            src = I.read(s, vs[1].args[0])
            nv = vec(add(vsize(v), cnt), mk("arange", varr(v), pos.args[1] if pos.op == "vit" else pos, src, vs[1].args[1], vs[2].args[1], vs[1].op))
        I.assign(s, lv, nv, n)
        return [(s, pos)]
    I.note(n, "insertion")
    I.assign(s, lv, vec(I.fresh(n, "sz"), I.fresh(n, "arr")), n)
    return [(s, pos)]


def array(I, st, n, m, opc, want_lv):
    ct = n["obj"].get("t")
    if ct is not None and ct.k == "ptr":
        ct = ct.to
    N = None
    if ct is not None and len(ct.targs) > 1:
        N = int(ct.targs[1])
    out = []
    if opc == "=":
        for s, vs in I.evs(st, n["args"]):
            for s2, lv in objs(I, s, n):
                v = V(I, s2, vs[0])
                I.assign(s2, lv, v, n)
                out.append((s2, lv if want_lv else v))
        return out
    for s0, lv in objs(I, st, n):
        for s, vs in I.evs(s0, n["args"]):
            if m == "data":
                out.append((s, mk("bp", lv, N, ZERO)))
            elif m == "size":
                out.append((s, num(N)))
            elif opc == "[]" or m == "at":
                I.hook("index", s, n, lv=lv, i=vs[0], size=num(N), checked=(m == "at"))
                out.append((s, mk("lv", lv.args[0], lv.args[1] + (("ai", vs[0]),))))
            elif m == "fill":
                I.assign(s, lv, mk("afill", vs[0]), n)
                out.append((s, ZERO))
            elif m in ("begin", "cbegin"):
                out.append((s, mk("bp", lv, N, ZERO)))
            elif m in ("end", "cend"):
                out.append((s, mk("bp", lv, N, num(N))))
            else:
                return None
    return out


# ------------------------------------------------------------------ maps and sets

def umap(I, st, n, m, opc, want_lv, isset):
    ct = n["obj"].get("t")
    if ct is not None and ct.k == "ptr":
        ct = ct.to
    out = []
    if opc == "=":
        for s, vs in I.evs(st, n["args"]):
            for s2, lv in objs(I, s, n):
                I.assign(s2, lv, V(I, s2, vs[0]), n)
                out.append((s2, lv if want_lv else vs[0]))
        return out
    # the right operand of an assignment is evaluated first, so evaluate the key with the object
    for s0, lv in objs(I, st, n):
        for s, vs in I.evs(s0, n["args"]):
            v = I.read(s, lv)
            if m == "find":
                k = V(I, s, vs[0])
                I.hook("lookup", s, n, lv=lv, key=k)
                h = mhas(v, k, s.holds)
                if s.holds(h):
                    h = TRUE
                elif s.refuted(h):
                    h = FALSE
                out.append((s, mk("mit", lv, k, h)))
            elif m in ("count", "contains"):
                k = V(I, s, vs[0])
                h = mhas(v, k, s.holds)
                out.append((s, b2i(h) if m == "count" else h))
            elif m in ("end", "cend"):
                out.append((s, mk("mend", lv)))
            elif m in ("begin", "cbegin"):
                out.append((s, mk("mbegin", lv)))
            elif m == "size":
                out.append((s, ZERO if v is MEMPTY else mk("msz", v)))
            elif m == "empty":
                out.append((s, TRUE if v is MEMPTY else eq0(mk("msz", v))))
            elif opc == "[]" or m == "at":
                k = V(I, s, vs[0])
                h = mhas(v, k, s.holds)
                I.hook("mapsub", s, n, lv=lv, key=k, has=h, checked=(m == "at"))
                if m == "at":
                    if not s.assume(h):
                        continue
                elif not s.holds(h):
                    d = I.default(ct.targs[1], True) if ct is not None and len(ct.targs) > 1 and hasattr(ct.targs[1], "s") else ZERO
                    x = d if s.refuted(h) else ite(h, mget(v, k, s.holds), d)
                    I.write(s, lv, mput(v, k, x))
                out.append((s, mk("lv", lv.args[0], lv.args[1] + (("k", k),))))
            elif m == "erase" and (len(vs) == 2 or vs[0].op in ("mbegin", "mend")):
                if len(vs) == 2 and vs[0].op == "mbegin" and vs[1].op == "mend" and vs[0].args[0] is lv and vs[1].args[0] is lv:
                    I.hook("mapclear", s, n, lv=lv)
                    I.assign(s, lv, MEMPTY, n)
                else:
                    I.note(n, "erasing a range of a map")
                    I.assign(s, lv, I.fresh(n, "map"), n)
                out.append((s, I.fresh(n, "it")))
            elif m == "erase":
                k = vs[0]
                if k.op == "mit":
                    k = k.args[1]
                k = V(I, s, k)
                h = mhas(v, k, s.holds)
                I.hook("maperase", s, n, lv=lv, key=k, has=h)
                if not s.refuted(h):
                    I.assign(s, lv, merase(v, k), n)
                out.append((s, b2i(h)))
            elif m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                vs = [V(I, s, x) for x in vs]
                if isset:
                    k, x = vs[0], TRUE
                elif len(vs) == 2:
                    k, x = vs
                else:
                    k, x = fld(vs[0], "std::pair::first"), fld(vs[0], "std::pair::second")
                h = mhas(v, k, s.holds)
                I.hook("mapinsert", s, n, lv=lv, key=k, val=x, has=h)
                for s2, b in I.split(s, h, n):
                    if not b or m == "insert_or_assign":
                        I.assign(s2, lv, mput(v, k, x), n)
                    out.append((s2, struct({"std::pair::first": mk("mit", lv, k, TRUE), "std::pair::second": boolt(not b)})))
            elif m == "clear":
                I.hook("mapclear", s, n, lv=lv)
                I.assign(s, lv, MEMPTY, n)
                out.append((s, ZERO))
            elif m in ("reserve", "rehash"):
                out.append((s, ZERO))
            elif m == "swap":
                out += swap(I, s, n, lv, None, n["args"][0])
            else:
                return None
    return out


# ------------------------------------------------------------------ smart pointers, optionals, tuples

def sptr(I, st, n, m, opc, want_lv):
    if opc == "=":
        out = []
        for s, vs in I.evs(st, n["args"]):
            for s2, lv in objs(I, s, n):
                v = V(I, s2, vs[0])
                I.assign(s2, lv, v, n)
                out.append((s2, lv if want_lv else v))
        return out
    if m == "reset":
        out = []
        for s, lv in objs(I, st, n):
            I.assign(s, lv, NULL, n)
            out.append((s, ZERO))
        return out
    if m == "use_count":
        return [(s, mk("call", "use_count", I.fresh(n, "uc"), ty=(True, 63))) for s, v in objval(I, st, n)]
    if m in ("get",) or opc == "->":
        return objval(I, st, n)
    if opc == "*":
        out = []
        for s, v in objval(I, st, n):
            I.hook("deref", s, n, p=v, how="*")
            out.append((s, I.deref(s, v, n)))
        return out
    if m == "operator bool":
        return [(s, not_(I.equal(v, NULL, n))) for s, v in objval(I, st, n)]
    if m == "swap":
        return [r for s, lv in objs(I, st, n) for r in swap(I, s, n, lv, None, n["args"][0])]
    return None


def optional(I, st, n, m, opc, want_lv):
    out = []
    if opc == "=":
        for s, vs in I.evs(st, n["args"]):
            for s2, lv in objs(I, s, n):
                v = V(I, s2, vs[0])
                at = n["args"][0].get("t")
                at = at.strip_ref() if at is not None else None
                if v is not NONE and not (at is not None and at.tmpl == "std::optional"):
                    v = some(v)
                I.assign(s2, lv, v, n)
                out.append((s2, lv if want_lv else v))
        return out
    if m in ("has_value", "operator bool"):
        return [(s, ohas(v)) for s, v in objval(I, st, n)]
    if m in ("value",) or opc in ("*", "->"):
        for s, lv in objs(I, st, n):
            v = I.read(s, lv)
            I.hook("optval", s, n, o=v, checked=(m == "value"), lv=lv)
            if m == "value":
                if not s.assume(ohas(v)):
                    continue
            e = mk("lv", lv.args[0], lv.args[1] + (("opt",),))
            out.append((s, mk("addr", e) if opc == "->" else e))
        return out
    if m == "reset":
        for s, lv in objs(I, st, n):
            I.assign(s, lv, NONE, n)
            out.append((s, ZERO))
        return out
    if m == "value_or":
        for s, v in objval(I, st, n):
            for s2, vs in I.evs(s, n["args"]):
                out.append((s2, ite(ohas(v), oval(v), V(I, s2, vs[0]))))
        return out
    if m == "emplace":
        for s, lv in objs(I, st, n):
            for s2, vs in I.evs(s, n["args"]):
                I.assign(s2, lv, some(vs[0] if vs else I.fresh(n, "em")), n)
                out.append((s2, mk("lv", lv.args[0], lv.args[1] + (("opt",),))))
        return out
    return None


def tup(I, st, n, m, opc, want_lv):
    if opc != "=":
        return None
    out = []
    for s, vs in I.evs(st, n["args"]):
        for s2, o in I.ev(s, n["obj"]) if not n["obj"].get("lv") else I.lv(s, n["obj"]):
            v = V(I, s2, vs[0])
            if o.op == "tie":
                fs = ("std::pair::first", "std::pair::second") if v.op == "struct" and any(k == "std::pair::first" for k, _ in v.args[1]) else ["#%d" % i for i in range(len(o.args))]
                at = n["args"][0].get("t")
                at = at.strip_ref() if at is not None else None
                if at is not None and at.tmpl == "std::pair":
                    fs = ("std::pair::first", "std::pair::second")
                for lv, f in zip(o.args, fs):
                    if lv.op == "lv" and lv.args[0] != ("G", "std::ignore"):
                        I.assign(s2, lv, I.typed(fld(v, f), None), n)
                out.append((s2, v))
            elif o.op == "lv":
                I.assign(s2, I.canon(s2, o), v, n)
                out.append((s2, o if want_lv else v))
            else:
                out.append((s2, v))
    return out


def swap(I, s, n, lv1, lv2, arg=None):
    out = []
    for s2, l2 in ([(s, lv2)] if lv2 is not None else I.lv(s, arg)):
        l2 = I.canon(s2, l2)
        a, b = I.read(s2, lv1), I.read(s2, l2)
        I.hook("swap", s2, n, a=lv1, b=l2, av=a, bv=b)
        I.assign(s2, lv1, b, n)
        I.assign(s2, l2, a, n)
        out.append((s2, ZERO))
    return out


# ------------------------------------------------------------------ streams: a position-indexed content model

def stream(I, st, n, m, opc, want_lv):
    return I.stream(st, n, m, opc, want_lv) if hasattr(I, "stream") else stream_default(I, st, n, m, opc, want_lv)


def stream_default(I, st, n, m, opc, want_lv):
    ostr = n["obj"].get("t")
    out = []
    for s, lv in I.lv(st, n["obj"]) if not n.get("arrow") else objs(I, st, n):
        for s2, vs in I.evs(s, n["args"]):
            if opc in ("<<", ">>"):
                out.append((s2, lv if want_lv else I.fresh(n, "strm")))
                continue
            for a in vs:
                if a.op == "bp" and m == "read":
                    write_bytes(I, s2, n, a, None, I.fresh(n, "rd"))
            out.append((s2, lv if want_lv and n.get("lv") else I.fresh(n, "strm")))
    return out


# ------------------------------------------------------------------ bytes

def whole(p, cnt):
    size = p.args[1]
    return isinstance(size, int) and is_num(p.args[2], 0) and is_num(cnt, size)


def read_bytes(I, st, n, p, cnt):
    """chunk of cnt bytes at p"""
    if p.op != "bp":
        return I.unk(n, "bytes of an unknown buffer")
    lv, size, off = p.args
    I.hook("mem", st, n, p=p, cnt=cnt, w=False)
    v = I.read(st, lv)
    if isinstance(size, str) and size.startswith("i"):
        k = int(size[1:])
        if is_num(off, 0) and is_num(cnt, k):
            return wrle(k, v)
        return I.unk(n, "part of an integer")
    if cnt.op != "num":
        return mk("chunk", varr(v) if size == "v" else v, off, cnt)
    w = cnt.args[0]
    if size == "v":
        return rd(varr(v), off, w, st.holds)
    r = rd(v, off, w, st.holds)
    if whole(p, cnt) and r.op == "rd" and r.args[0] is v:
        return v
    return r


def write_bytes(I, st, n, p, cnt, chunk):
    if p.op != "bp":
        I.note(n, "write to an unknown buffer")
        return
    lv, size, off = p.args
    if cnt is not None:
        I.hook("mem", st, n, p=p, cnt=cnt, w=True)
    if cnt is None or cnt.op != "num":
        v = I.read(st, lv)
        if size == "v":
            v = vec(vsize(v), mk("copyin", varr(v), off, cnt or ZERO, chunk))
        elif isinstance(size, str) and size.startswith("i"):
            v = I.fresh(n, "int")
        else:
            v = mk("copyin", v, off, cnt or ZERO, chunk)
        I.assign(st, lv, v, n)
        return
    w = cnt.args[0]
    if isinstance(size, str) and size.startswith("i"):
        k = int(size[1:])
        if is_num(off, 0) and w == k:
            x = rdle(k, chunk)
            t = I.ktype.get(lv.args[0])
            if t is not None and t.k == "int" and t.bits != 8 * k:
                x = I.fresh(n, "int")
            I.assign(st, lv, x, n)
        else:
            I.note(n, "write to part of an integer")
            I.assign(st, lv, I.fresh(n, "int"), n)
        return
    v = I.read(st, lv)
    if size == "v":
        I.assign(st, lv, vec(vsize(v), store(varr(v), off, w, chunk, st.holds)), n)
    elif whole(p, cnt):
        I.assign(st, lv, chunk, n)
    else:
        I.assign(st, lv, store(v, off, w, chunk, st.holds), n)


# ------------------------------------------------------------------ free functions

def make_shared(I, st, n):
    t = n.get("t")
    el = None
    for a in n["fn"].get("targs") or []:
        if hasattr(a, "s") and a.k == "rec":
            el = a
            break
    if el is None:
        el = elemtype(t)
    out = []
    for s, vs in I.evargs(st, n["args"], n["fn"].get("pt", [])):
        vs = [I.read(s, a) if a.op == "lv" else a for a in vs]
        if el is not None and el.rec in I.prog.records:
            out += I.new_object(s, n, el.rec, vs)
        else:
            out.append((s, I.unk(n, "allocation")))
    return out


def rng_loop(I, st, n, lv, lo, hi, body):
    """run body(state, index) for lo <= index < hi; flows other than n/c are passed on"""
    ikey = ("v", I.fr.id, ("al", I.nid(n)))
    st.env[ikey] = lo

    def cond(x):
        return I.split(x, lt(x.env[ikey], hi), n)

    def inc(x):
        x.env[ikey] = add(x.env[ikey], ONE)
        return [x]
    return I.loop(st, n, cond, lambda x: body(x, x.env[ikey]), inc)


def algo(I, st, n, m):
    """searching and testing algorithms over a vector range"""
    out = []
    for s, vs in I.evs(st, n["args"]):
        a, b = vs[0], vs[1]
        if not (a.op == "vit" and b.op == "vit" and a.args[0] is b.args[0]):
            out.append((s, I.unk(n, "algorithm " + m, n.get("t"))))
            continue
        lv = a.args[0]
        lo, hi = a.args[1], b.args[1]
        pair = m in ("adjacent_find", "is_sorted")
        if pair:
            # nothing to do for an empty range
            hi2 = sub(hi, ONE)
        else:
            hi2 = hi

        def test(x, i):
            e = vlv(lv, i)
            if m in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each", "count_if"):
                return lambda_on(I, x, n, vs[2], [e])
            if m == "find":
                return [(x, I.equal(I.read(x, e), V(I, x, vs[2]), n))]
            e2 = vlv(lv, add(i, ONE))
            if m == "is_sorted":
                if len(vs) > 2:
                    return lambda_on(I, x, n, vs[2], [e2, e])
                return [(x, lt(I.read(x, e2), I.read(x, e)))]
            if len(vs) > 2:
                return lambda_on(I, x, n, vs[2], [e, e2])
            return [(x, I.equal(I.read(x, e), I.read(x, e2), n))]
        neg = m in ("all_of", "find_if_not")

        def body(x, i):
            fl = []
            for x2, v in test(x, i):
                if m == "for_each":
                    fl.append(("n", x2, None))
                    continue
                for x3, bb in I.split(x2, I.tobool(v), n):
                    fl.append(("hit", x3, mk("vit", lv, i)) if bb != neg else ("n", x3, None))
            return fl
        if m == "count_if":
            out.append((s, I.unk(n, "algorithm count_if", n.get("t"))))
            continue
        for k, s2, v in rng_loop(I, s, n, lv, lo, hi2, body):
            hit = k == "hit"
            if k not in ("n", "hit"):
                continue
            if m in ("any_of", "all_of", "none_of", "is_sorted"):
                out.append((s2, boolt(hit == (m == "any_of"))))
            elif m == "for_each":
                out.append((s2, ZERO))
            else:
                out.append((s2, v if hit else b))
    return out


def free(I, st, n, m, want_lv):
    fn = n["fn"]
    args = n["args"]
    full = fn["n"]
    if m in ("move", "forward", "as_const", "move_if_noexcept"):
        if len(args) == 1:
            if args[0].get("lv"):
                return [(s, I.canon(s, lv)) for s, lv in I.lv(st, args[0])]
            return I.ev(st, args[0])
    if m == "addressof" and len(args) == 1:
        return [(s, mk("addr", I.canon(s, lv))) for s, lv in I.lv(st, args[0])]
    if m == "__assert_fail" or m in ("abort", "exit", "terminate", "_Exit", "quick_exit", "__throw_bad_optional_access"):
        I.hook("abort", st, n)
        return []
    if m in ("memcpy", "memmove", "__builtin_memcpy"):
        out = []
        for s, vs in I.evs(st, args):
            c = read_bytes(I, s, n, vs[1], vs[2])
            write_bytes(I, s, n, vs[0], vs[2], c)
            out.append((s, vs[0]))
        return out
    if m in ("memset",):
        out = []
        for s, vs in I.evs(st, args):
            c = mk("rep", vs[1], vs[2].args[0]) if vs[2].op == "num" else mk("reps", vs[1], vs[2])
            write_bytes(I, s, n, vs[0], vs[2], c)
            out.append((s, vs[0]))
        return out
    if m == "memcmp":
        out = []
        for s, vs in I.evs(st, args):
            a = read_bytes(I, s, n, vs[0], vs[2])
            b = read_bytes(I, s, n, vs[1], vs[2])
            e = same(a, b)
            out.append((s, ZERO if e is TRUE else mk("b2i", not_(e))))
        return out
    if m in ("__bswap_32", "bswap_32", "__builtin_bswap32", "__bswap_64", "bswap_64", "__builtin_bswap64", "__bswap_16", "bswap_16", "__builtin_bswap16"):
        k = 8 if "64" in m else 4 if "32" in m else 2
        return [(s, bswap(k, vs[0])) for s, vs in I.evs(st, args)]
    if m in ("__uint16_identity", "__uint32_identity", "__uint64_identity"):
        return I.ev(st, args[0])
    if m in ("make_shared", "allocate_shared"):
        return make_shared(I, st, n)
    if m in ("dynamic_pointer_cast", "static_pointer_cast", "reinterpret_pointer_cast", "const_pointer_cast"):
        return I.ev(st, args[0])
    if m == "make_pair":
        return [(s, struct({"std::pair::first": vs[0], "std::pair::second": vs[1]})) for s, vs in I.evs(st, args)]
    if m in ("make_tuple", "forward_as_tuple"):
        return [(s, struct({"#%d" % i: v for i, v in enumerate(vs)})) for s, vs in I.evs(st, args)]
    if m == "make_optional" and len(args) == 1:
        return [(s, some(vs[0])) for s, vs in I.evs(st, args)]
    if m == "tie":
        out = [(st, [])]
        for a in args:
            out = [(s2, ls + [I.canon(s2, lv)]) for s, ls in out for s2, lv in I.lv(s, a)]
        return [(s, mk("tie", *ls)) for s, ls in out]
    if m == "get" and len(args) == 1:
        t = args[0].get("t")
        t = t.strip_ref() if t is not None else None
        i = None
        for a in fn.get("targs") or []:
            if isinstance(a, dict) and "v" in a:
                i = int(a["v"])
                break
            if isinstance(a, int):
                i = a
                break
        if i is not None:
            f = ("std::pair::first", "std::pair::second")[i] if t is not None and t.tmpl == "std::pair" else "#%d" % i
            if args[0].get("lv"):
                return [(s, mk("lv", l2.args[0], l2.args[1] + (("f", f),))) for s, lv in I.lv(st, args[0]) for l2 in [I.canon(s, lv)]]
            return [(s, fld(v, f)) for s, v in I.ev(st, args[0])]
    if m in ("swap", "iter_swap") and len(args) == 2:
        if m == "iter_swap":
            out = []
            for s, vs in I.evs(st, args):
                out += swap(I, s, n, deref_iter(I, s, n, vs[0]), deref_iter(I, s, n, vs[1]))
            return out
        return [r for s, lv in I.lv(st, args[0]) for r in swap(I, s, n, I.canon(s, lv), None, args[1])]
    if m == "exchange" and len(args) == 2:
        out = []
        for s, lv in I.lv(st, args[0]):
            for s2, v in I.ev(s, args[1]):
                lv2 = I.canon(s2, lv)
                old_ = I.read(s2, lv2)
                I.assign(s2, lv2, v, n)
                out.append((s2, old_))
        return out
    if m in ("sort", "stable_sort"):
        out = []
        for s, vs in I.evs(st, args):
            c = full_range(I, s, vs[0], vs[1])
            if c is None or len(vs) > 2:
                if vs[0].op == "vit":
                    v = I.read(s, vs[0].args[0])
                    I.assign(s, vs[0].args[0], vec(vsize(v), I.unk(n, "partial sort")), n)
            else:
                v = I.read(s, c)
                if v.op != "sorted":
                    I.assign(s, c, mk("sorted", v), n)
            out.append((s, ZERO))
        return out
    if m == "reverse":
        out = []
        for s, vs in I.evs(st, args):
            if vs[0].op == "vit":
                v = I.read(s, vs[0].args[0])
                c = full_range(I, s, vs[0], vs[1])
                I.assign(s, vs[0].args[0], vec(vsize(v), mk("areverse", varr(v), vsize(v)) if c is not None else I.unk(n, "partial reverse")), n)
            out.append((s, ZERO))
        return out
    if m in ("inserter", "back_inserter", "front_inserter"):
        out = []
        for s, lv in I.lv(st, args[0]):
            for s2, vs in I.evs(s, args[1:]):
                lv = I.canon(s2, lv)
                pos = vs[0] if vs else mk("vit", lv, vsize(I.read(s2, lv)))
                out.append((s2, mk("insr", lv, pos, m)))
        return out
    if m in ("copy", "copy_n"):
        out = []
        for s, vs in I.evs(st, args):
            if m == "copy_n":
                a = vs[0]
                if a.op == "bp":
                    b = mk("bp", a.args[0], a.args[1], add(a.args[2], vs[1]))
                else:
                    b = mk(a.op, a.args[0], add(a.args[1], vs[1])) if a.op == "vit" else a
                vs = [a, b, vs[2]]
            a, b, d = vs
            if a.op == "vit" and d.op == "bp":
                a = mk("bp", a.args[0], "v", a.args[1])
                b = mk("bp", b.args[0], "v", b.args[1]) if b.op == "vit" else b
            if a.op == "bp" and d.op == "vit":
                d2 = mk("bp", d.args[0], "v", d.args[1])
            else:
                d2 = d
            if a.op == "bp" and b.op == "bp" and d2.op == "bp" and a.args[0] is b.args[0]:
                cnt = sub(b.args[2], a.args[2])
                c = read_bytes(I, s, n, a, cnt)
                write_bytes(I, s, n, d2, cnt, c)
                out.append((s, mk("bp", d2.args[0], d2.args[1], add(d2.args[2], cnt)) if d is d2 else mk("vit", d.args[0], add(d.args[1], cnt))))
                continue
            if d.op == "insr":
                dv = I.read(s, d.args[0])
                c = full_range(I, s, a, b)
                if c is not None and a.op == "vit" and s.holds(eq0(vsize(dv))):
                    I.assign(s, d.args[0], I.read(s, c), n)
                elif a.op in ("vit", "rit") and b.op == a.op:
                    cnt = val_op(I, s, n, "-", b, a)
                    I.assign(s, d.args[0], vec(add(vsize(dv), cnt), mk("arange", varr(dv), d.args[1], I.read(s, a.args[0]), a.args[1], b.args[1], a.op)), n)
                else:
                    I.note(n, "copy")
                    I.assign(s, d.args[0], vec(I.fresh(n, "sz"), I.fresh(n, "arr")), n)
                out.append((s, d))
                continue
            if a.op == "vit" and b.op == "vit" and d.op == "vit":
                src, dst = I.read(s, a.args[0]), I.read(s, d.args[0])
                cnt = sub(b.args[1], a.args[1])
                I.hook("mem", s, n, p=mk("bp", d.args[0], "v", d.args[1]), cnt=cnt, w=True)
                I.assign(s, d.args[0], vec(vsize(dst), mk("acopy", varr(dst), d.args[1], varr(src), a.args[1], cnt)), n)
                out.append((s, mk("vit", d.args[0], add(d.args[1], cnt))))
                continue
            I.note(n, "copy")
            if d.op in ("vit", "bp"):
                I.assign(s, d.args[0], I.fresh(n, "cp"), n)
            out.append((s, d))
        return out
    if m in ("min", "max") and len(args) == 2:
        out = []
        for s, vs in I.evs(st, args):
            a, b = V(I, s, vs[0]), V(I, s, vs[1])
            for s2, c in I.split(s, le(a, b), n):
                out.append((s2, (a if c else b) if m == "min" else (b if c else a)))
        return out
    if m in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each", "find", "adjacent_find", "is_sorted", "count_if"):
        return algo(I, st, n, m)
    if m == "equal" and len(args) in (3, 4):
        out = []
        for s, vs in I.evs(st, args):
            a, b, c = vs[:3]
            if all(x.op == "bp" for x in vs):
                cnt = sub(b.args[2], a.args[2])
                out.append((s, same(read_bytes(I, s, n, a, cnt), read_bytes(I, s, n, c, cnt))))
                continue
            l1 = full_range(I, s, a, b)
            l2 = full_range(I, s, c, vs[3]) if len(vs) > 3 else None
            if l1 is not None and l2 is not None:
                out.append((s, same(I.read(s, l1), I.read(s, l2))))
            else:
                out.append((s, I.unk(n, "algorithm equal")))
        return out
    if m in ("distance",) and len(args) == 2:
        return [(s, val_op(I, s, n, "-", vs[1], vs[0])) for s, vs in I.evs(st, args)]
    if m in ("next", "prev") and len(args) >= 1:
        return [(s, val_op(I, s, n, "+" if m == "next" else "-", vs[0], vs[1] if len(vs) > 1 else ONE)) for s, vs in I.evs(st, args)]
    if m in ("begin", "end", "cbegin", "cend", "size", "data", "empty") and len(args) == 1 and full.startswith("std::"):
        fake = dict(n)
        fake["obj"], fake["args"], fake["arrow"], fake["opc"] = args[0], [], False, None
        t = args[0].get("t")
        t = t.strip_ref() if t is not None else None
        if t is not None and t.tmpl in VECS:
            return vector(I, st, fake, m, None, want_lv)
        if t is not None and t.tmpl == "std::array":
            return array(I, st, fake, m, None, want_lv)
        return None
    if m.startswith("operator<<") or n.get("opc") == "<<":
        out = []
        for s, lv in I.lv(st, args[0]):
            for s2, _ in I.evs(s, args[1:]):
                out.append((s2, lv if want_lv else I.fresh(n, "strm")))
        return out
    if n.get("opc") in ("|", "&", "^") and len(args) == 2:
        return [(s, bor(vs[0], vs[1])) for s, vs in I.evs(st, args)]
    if m in ("fprintf", "printf", "puts", "fputs"):
        return [(s, ZERO) for s, _ in I.evs(st, args)]
    return None


# ------------------------------------------------------------------ constructors of library classes

def ctor(I, st, n):
    fn = n["fn"]
    cls = fn.get("cls") or ""
    t = n.get("t")
    args = n["args"]
    if fn.get("root") or not (cls.startswith("std::") or cls.startswith("__gnu_cxx::")):
        return None
    if fn.get("ctor") in ("copy", "move") and len(args) == 1:
        return I.ev(st, args[0])
    if cls in VECS:
        et = elemtype(t)
        if not args:
            return [(st, vec(ZERO, EMPTY))]
        out = []
        if args[0]["k"] == "init" or (args[0]["k"] == "cast" and args[0]["x"]["k"] == "init") or (args[0].get("t") is not None and "initializer_list" in args[0]["t"].s):
            x = args[0]
            while x["k"] in ("cast", "stdinit", "ctor") and "x" in x:
                x = x["x"]
            els = x.get("args", [])
            while len(els) == 1 and els[0]["k"] == "init":
                els = els[0]["args"]
            for s, vs in I.evs(st, els):
                v = vec(ZERO, EMPTY)
                for y in vs:
                    v = push(v, y, s)
                out.append((s, v))
            return out
        for s, vs in I.evs(st, args):
            a0 = vs[0]
            if len(vs) >= 2 and a0.op in ("vit", "rit"):
                c = full_range(I, s, a0, vs[1])
                if c is not None and a0.op == "vit":
                    out.append((s, I.read(s, c)))
                elif vs[1].op == a0.op:
                    out.append((s, vec(val_op(I, s, n, "-", vs[1], a0), mk("arange", EMPTY, ZERO, I.read(s, a0.args[0]), a0.args[1], vs[1].args[1], a0.op))))
                else:
                    out.append((s, vec(I.fresh(n, "sz", None), I.fresh(n, "arr"))))
            elif len(vs) >= 2 and a0.op in ("mbegin", "mit"):
                src = I.read(s, a0.args[0])
                out.append((s, vec(mk("msz", src), mk("mlist", src))))
            elif len(vs) >= 2 and a0.op == "bp" and vs[1].op == "bp":
                c = read_bytes(I, s, n, a0, sub(vs[1].args[2], a0.args[2]))
                out.append((s, mk("call", "bytesvec", c)))
            elif I.isint(a0) or (args[0].get("t") is not None and args[0]["t"].strip_ref().k == "int"):
                d = V(I, s, vs[1]) if len(vs) > 1 and vs[1].op not in ("uninit",) and args[1].get("t") is not None and args[1]["t"].strip_ref().tmpl != "std::allocator" else I.default(et, True)
                out.append((s, vec(a0, mk("afill", d))))
            else:
                out.append((s, a0 if cls not in ("std::basic_string", "std::__cxx11::basic_string") else mk("call", "string", a0)))
        return out
    if cls in MAPS or cls in SETS:
        if not args:
            return [(st, MEMPTY)]
        return [(s, I.unk(n, "container construction")) for s, _ in I.evs(st, args)]
    if cls in ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr"):
        if not args:
            return [(st, NULL)]
        return [(s, vs[0]) for s, vs in I.evs(st, args)]
    if cls == "std::optional":
        if not args:
            return [(st, NONE)]
        out = []
        for s, vs in I.evs(st, args):
            v = V(I, s, vs[0])
            at = args[0].get("t")
            at = at.strip_ref() if at is not None else None
            if v is NONE or at is not None and at.tmpl == "std::optional":
                out.append((s, v))
            elif at is not None and at.s.endswith("nullopt_t"):
                out.append((s, NONE))
            else:
                out.append((s, some(v)))
        return out
    if cls == "std::nullopt_t":
        return [(st, NONE)]
    if cls == "std::pair":
        if not args:
            return [(st, I.default(t, True))]
        if len(args) == 2:
            return [(s, struct({"std::pair::first": V(I, s, vs[0]), "std::pair::second": V(I, s, vs[1])})) for s, vs in I.evs(st, args)]
        return I.ev(st, args[0])
    if cls == "std::tuple":
        if not args:
            return [(st, I.default(t, True))]
        at = args[0].get("t")
        if len(args) == 1 and at is not None and at.strip_ref().tmpl in ("std::tuple", "std::pair"):
            return I.ev(st, args[0])
        return [(s, struct({"#%d" % i: V(I, s, v) for i, v in enumerate(vs)})) for s, vs in I.evs(st, args)]
    if cls == "std::array":
        if not args:
            return [(st, I.default(t))]
        return I.ev(st, args[0])
    if cls in ITERS:
        if len(args) == 1:
            return I.ev(st, args[0])
        return [(st, mk("uninit", "it"))]
    if cls == "std::bitset":
        return [(s, vs[0] if vs else ZERO) for s, vs in I.evs(st, args)]
    if cls == "std::runtime_error" or cls.endswith("error") or cls.startswith("std::allocator") or cls == "std::fpos" or cls == "std::function":
        if len(args) == 1 and cls in ("std::fpos", "std::function"):
            return I.ev(st, args[0])
        return [(s, mk("call", cls, *[v for v in vs])) for s, vs in I.evs(st, args)]
    if cls in STREAMS and hasattr(I, "stream_ctor"):
        return I.stream_ctor(st, n)
    return None
