"""C11: 64-bit positions and leaf counts never pass through something narrower (type-directed width analysis)."""
from ..effects import short
from ..facts import Program, fn_nodes, loc, children, walk, AnalysisError
from ..report import Report
from ..show import txt

OWN = ("utreexo::ForestState", "utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest")
INTC = ("std::vector", "std::deque", "std::unordered_map", "std::map", "std::unordered_set", "std::set", "std::pair",
        "std::tuple", "std::optional", "std::array", "std::list")


def strip(n):
    while n["k"] == "cast" and n.get("t") is not None and n["x"].get("t") is not None and n["t"].is_int and n["x"]["t"].is_int \
            and n["t"].bits >= n["x"]["t"].bits:
        n = n["x"]
    return n


def in_scope(f):
    n = f["n"]
    if n.startswith("utreexo::CSHA512") or f["file"].startswith("src/compat"):
        return False
    if f["file"] in ("src/crypto/common.h",):
        return n == "CountBits"
    if f["file"].startswith("src/crypto"):
        return False
    if n.endswith("Serialize") or n.endswith("Unserialize"):
        return False   # the byte format is 32 bits wide by definition (C07)
    if "HexStr" in n or "LeafHasher" in n or n.endswith("::ParentHash"):
        return False
    return True


def const_of(n):
    n0 = n
    while n["k"] == "cast":
        n = n["x"]
    if n["k"] == "int":
        return int(n["v"])
    if n["k"] == "ref" and n.get("cv") is not None:
        return int(n["cv"])
    return None


class Width:
    def __init__(self, p, f):
        self.p = p
        self.f = f
        self.memo = {}

    def small(self, n, depth=0):
        """Provably a row number, bit, flag, tree index or other quantity that does not grow with positions."""
        if depth > 20:
            return False
        t = n.get("t")
        if t is not None and t.is_int and t.bits <= 16:
            return True
        if const_of(n) is not None:
            return abs(const_of(n)) < 1 << 16
        k = n["k"]
        if k == "cast":
            return self.small(n["x"], depth + 1)
        if k == "bin":
            op = n["op"]
            a, b = n["x"], n["y"]
            if op == "&":
                return any(const_of(x) is not None and 0 <= const_of(x) < 1 << 16 for x in (a, b)) or \
                    self.small(a, depth + 1) or self.small(b, depth + 1)
            if op == "%":
                return self.small(b, depth + 1)
            if op in ("+", "-", "^", "|", "*", "/"):
                return self.small(a, depth + 1) and self.small(b, depth + 1)
            if op == ">>":
                c = const_of(b)
                return self.small(a, depth + 1) or (c is not None and c >= 48)
            if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return True
            return False
        if k == "un":
            if n["op"] == "!":
                return True
            if n["op"] in ("-", "+"):
                return self.small(n["x"], depth + 1)
            return False
        if k == "cond":
            return self.small(n["a"], depth + 1) and self.small(n["b"], depth + 1)
        if k == "call":
            nm = short(n["fn"]["n"])
            if nm in ("size", "length", "max_size") and n.get("obj") is not None:
                return self.small_container(n["obj"])
            if nm in ("count",) and n.get("obj") is not None and (n["fn"].get("cls") or "").startswith("std::bitset"):
                return True
            if nm in ("CountBits", "popcount", "countr_one", "countr_zero", "countl_zero", "bit_width", "use_count",
                      "__builtin_popcountll", "__builtin_clzll", "__builtin_ctzll", "__builtin_clzl", "__builtin_popcountl"):
                return True
            if nm in ("Sibling", "RightSibling", "Cousin", "min", "max", "abs", "move", "forward"):
                xs = n["args"]
                return all(self.small(x, depth + 1) for x in xs) and bool(xs)
            if nm in ("distance",):
                return False
            return False
        if k == "ref":
            return self.small_var(n["d"], depth + 1)
        return False

    def small_var(self, d, depth):
        """A local whose every definition is small and which is never counted up."""
        key = d
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        init, ok, found = None, True, False
        for n in fn_nodes(self.f):
            if n["k"] == "var" and n["d"] == d:
                found = True
                if n.get("static") or n["t"].k == "ref" or not n.get("init"):
                    ok = ok and not n.get("static") and n["t"].k != "ref"
                elif not self.small(n["init"], depth):
                    ok = False
            elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = n["x"]
                if x["k"] == "ref" and x["d"] == d and not (n["op"] in ("=", "-=", ">>=", "/=", "&=") and self.small(n["y"], depth)):
                    ok = False
            elif n["k"] == "un" and n["op"] in ("++", "post++", "&") and n["x"]["k"] == "ref" and n["x"]["d"] == d:
                ok = False
        self.memo[key] = found and ok
        return self.memo[key]

    def small_container(self, o):
        """Holds one entry per row, root or tree (never more than 64 or so)."""
        t = o.get("t")
        if t is None:
            return False
        t = t.strip_ref()
        while t.k == "ptr":
            t = t.to
        if not t.targs:
            return False
        e = t.targs[0]
        if not hasattr(e, "k"):
            return False
        if e.k == "rec" and (e.tmpl or "") in ("std::vector", "std::shared_ptr", "std::unique_ptr", "std::deque"):
            return True
        if e.k == "rec" and e.rec in ("utreexo::ForestState::Swap",):
            return True
        return False

    def wide(self, n):
        t = n.get("t")
        return t is not None and t.k == "int" and t.bits == 64 and not self.small(n)


def positionish(n):
    """Plainly a position, count or size (used where the narrow type is 8 bits, i.e. normally a row)."""
    n = strip(n)
    if n["k"] in ("ref", "member"):
        return n.get("cv") is None
    if n["k"] == "call" and short(n["fn"]["n"]) in ("size", "NumLeaves", "Parent", "Child", "LeftChild", "LeftDescendant", "Ancestor",
                                                   "RootPosition", "MaxNodes", "RowOffset"):
        return True
    if n["k"] == "bin" and n["op"] in ("+", "-"):
        return positionish(n["x"]) or positionish(n["y"])
    return False


def only_reserve(f, d):
    uses = []

    def rec(n, ctx):
        if n["k"] == "ref" and n.get("d") == d:
            uses.append(ctx)
        for c in children(n):
            rec(c, n if n["k"] != "cast" else ctx)
    rec(f["body"], None)
    return all(u is not None and u["k"] == "call" and short(u["fn"]["n"]) == "reserve" for u in uses)


def check(tier):
    r = Report("C11", tier,
               "Type-directed width analysis over the resolved syntax trees of the position arithmetic and the accumulators: every "
               "conversion of a 64-bit position/count expression to a narrower integer or floating type, every variable shift of a "
               "narrower operand, every narrower loop counter compared with a position or leaf count, every narrow container element "
               "or std::bitset receiving one, and every mask or limit constant that cuts below 64 bits is an obligation; quantities "
               "that are provably row numbers, bits, tree indexes or numbers of roots/rows are exempt.",
               ["at most 64 rows and 64 roots exist", "serialised positions are 32 bits wide by the format (C07)"])
    configs = ("release", "verify")
    nfun = 0
    for cfg in configs:
        p = Program(cfg)
        for f in sorted(p.functions.values(), key=lambda f: (f["n"], f["key"])):
            if not in_scope(f):
                continue
            nfun += 1
            r.analysed(f)
            w = Width(p, f)
            returns = set()
            for n in fn_nodes(f):
                if n["k"] == "return" and n.get("x"):
                    x = n["x"]
                    returns.add(id(x))
            vars_init = {id(v["init"]): v for v in fn_nodes(f) if v["k"] == "var" and v.get("init")}
            parent = {}
            for n in fn_nodes(f):
                for c in children(n):
                    parent[id(c)] = n
            for n in fn_nodes(f):
                k = n["k"]
                if k == "cast" and n.get("t") is not None and n["x"].get("t") is not None:
                    src, dst = n["x"]["t"], n["t"]
                    if src.k == "int" and src.bits == 64 and dst.k in ("int", "enum") and dst.bits < 64:
                        if const_of(n["x"]) is not None:
                            continue
                        if dst.bits <= 8:
                            bad = positionish(n["x"]) and not w.small(n["x"]) and not (id(n) in returns and f["ret"].bits <= 8
                                                                                       and not f.get("cls"))
                        else:
                            bad = w.wide(n["x"])
                        if bad and id(n) in vars_init and only_reserve(f, vars_init[id(n)]["d"]):
                            bad = False
                        if bad:
                            # a value immediately masked to a bit is fine
                            r.violation("narrow:%s:%s" % (f["n"], txt(n["x"])), loc(f, n),
                                        "%s: the 64-bit value %s is converted to %d bits" % (f["n"], txt(n["x"]), dst.bits))
                        else:
                            r.ob("narrowing conversion (%s)" % cfg, loc(f, n), "%s: %s is small" % (f["n"], txt(n["x"])))
                    if src.k == "int" and src.bits == 64 and dst.k == "float" and not w.small(n["x"]):
                        r.violation("float:%s:%s" % (f["n"], txt(n["x"])), loc(f, n),
                                    "%s: the 64-bit value %s goes through floating point" % (f["n"], txt(n["x"])))
                    if src.k == "int" and src.bits == 32 and dst.k == "int" and dst.bits == 64 and not n.get("m"):
                        # 32-bit arithmetic widened too late
                        x = n["x"]
                        if x["k"] == "bin" and x["op"] in ("<<", "*") and const_of(x) is None:
                            if not (const_of(x["x"]) is not None and const_of(x["y"]) is not None):
                                r.violation("late:%s:%s" % (f["n"], txt(x)), loc(f, x),
                                            "%s: %s is computed in 32 bits and widened afterwards" % (f["n"], txt(x)))
                elif k == "bin" and n["op"] in ("<<", "<<="):
                    t = n.get("ct") or n.get("t")
                    if t is not None and t.k == "int":
                        lc, rc = const_of(n["x"]), const_of(n["y"])
                        if t.bits < 64 and rc is None:
                            q = parent.get(id(n))
                            while q is not None and q["k"] == "cast" and q.get("t") is not None and q["t"].is_int and q["t"].bits < 64:
                                q = parent.get(id(q))
                            r.violation("shift:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                        "%s: %s shifts a %d-bit operand by a row-dependent amount" % (f["n"], txt(n), t.bits))
                        elif lc is not None and rc is None and lc > 0xffff and (lc & (lc + 1)) == 0 and lc != (1 << 64) - 1:
                            r.violation("mask:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                        "%s: the mask %s starts from fewer than 64 bits" % (f["n"], txt(n)))
                        else:
                            r.ob("shift (%s)" % cfg, loc(f, n), "%s: %s" % (f["n"], txt(n)))
                elif k == "bin" and n["op"] in ("&", "%", "&="):
                    for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                        c = const_of(b)
                        if c is not None and 0xffff < (c & ((1 << 64) - 1)) <= 1 << 33 and w.wide(a):
                            q = parent.get(id(n))
                            while q is not None and q["k"] == "cast":
                                q = parent.get(id(q))
                            if q is not None and q["k"] == "bin" and q["op"] in ("+", "|") and any(
                                    x["k"] == "bin" and x["op"] == ">>" for x in walk(q)):
                                r.ob("mask (%s)" % cfg, loc(f, n), "both halves of %s are used" % txt(a))
                                continue
                            if q is not None and q["k"] == "bin" and q["op"] in ("+", "|"):
                                continue
                            r.violation("mask:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                        "%s: %s keeps only the low bits of a 64-bit value" % (f["n"], txt(n)))
                elif k == "bin" and n["op"] in ("<", "<=", ">", ">=", "!=", "=="):
                    for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                        sa, sb = strip(a), strip(b)
                        c = const_of(b)
                        if c is not None and n["op"] not in ("==", "!="):
                            if w.wide(a) and 0xffff <= c < 1 << 63:
                                r.violation("limit:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                            "%s: positions or counts are limited by the constant %d" % (f["n"], c))
                            elif sa["k"] == "ref" and sa.get("t") is not None and sa["t"].k == "int" and sa["t"].bits == 8 and 15 < c < 63 \
                                    and is_row_loop(f, n, parent):
                                r.violation("limit:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                            "%s: rows are limited by the constant %d" % (f["n"], c))
                        # counter narrower than its bound
                        if sa["k"] in ("ref", "member") and sa.get("t") is not None and sa["t"].k == "int" and sa["t"].bits <= 32 \
                                and c is None and sb.get("t") is not None and sb["t"].bits == 64 and w.wide(sb) \
                                and stepped(f, sa):
                            if sb["k"] == "call" and short(sb["fn"]["n"]) == "size" and hash_vector(sb.get("obj")):
                                r.ob("counter (%s)" % cfg, loc(f, n), "%s: %s" % (f["n"], txt(n)))
                                continue
                            if sb["k"] == "call" and short(sb["fn"]["n"]) == "size" and row_vector(sb.get("obj")):
                                pass
                            r.violation("counter:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                        "%s: the %d-bit counter %s runs up to the 64-bit quantity %s"
                                        % (f["n"], sa["t"].bits, txt(sa), txt(sb)))
                elif k in ("call", "ctor"):
                    fn = n["fn"]
                    cls = fn.get("cls", "")
                    obj = n.get("obj")
                    if k == "call" and obj is not None and cls in INTC and short(fn["n"]) in (
                            "emplace_back", "emplace", "emplace_front", "insert", "try_emplace", "insert_or_assign", "assign"):
                        t = obj.get("t").strip_ref() if obj.get("t") is not None else None
                        ints = int_targs(t)
                        for a in n["args"]:
                            if ints and max(ints) < 64 and a["k"] in ("call", "ctor") and wide_range(w, a):
                                r.violation("element:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                            "%s: a range of 64-bit values is stored in a container of narrower integers" % f["n"])
                                break
                            if w.wide(a) and ints and max(ints) < 64:
                                r.violation("element:%s:%s" % (f["n"], txt(n)), loc(f, n),
                                            "%s: the 64-bit value %s is stored in a container of narrower integers" % (f["n"], txt(a)))
                    if k == "ctor" and cls == "std::bitset" and n["args"] and w.wide(n["args"][0]):
                        t = n.get("t")
                        nb = [a for a in (t.targs if t is not None else []) if isinstance(a, int)]
                        if nb and nb[0] < 64:
                            r.violation("bitset:%s" % f["n"], loc(f, n), "%s: a 64-bit value is put into std::bitset<%d>" % (f["n"], nb[0]))
                        else:
                            r.ob("bitset (%s)" % cfg, loc(f, n), f["n"])
                    if (k == "ctor" and cls in ("std::pair", "std::tuple", "std::optional", "std::vector")
                            or k == "call" and (fn.get("op") == "=") and cls in ("std::pair", "std::tuple")):
                        dst = n.get("t").strip_ref() if n.get("t") is not None else None
                        for a in n["args"]:
                            src = a.get("t").strip_ref() if a.get("t") is not None else None
                            if src is not None and dst is not None and src.targs and dst.targs and len(src.targs) == len(dst.targs) \
                                    and (src.tmpl == dst.tmpl):
                                for i, (s, d) in enumerate(zip(src.targs, dst.targs)):
                                    s, d = elem(s), elem(d)
                                    if s is None or d is None:
                                        continue
                                    if s.k == "int" and s.bits == 64 and d.k == "int" and d.bits < 64:
                                        r.violation("tuple:%s:%d" % (f["n"], i), loc(f, n),
                                                    "%s: element %d of a pair/tuple is narrowed from 64 to %d bits" % (f["n"], i, d.bits))
                                    elif s.k == "int" and s.bits == 64:
                                        r.ob("pair/tuple element (%s)" % cfg, loc(f, n), f["n"])
                            elif w.wide(a) and dst is not None and cls in ("std::pair", "std::tuple"):
                                ix = n["args"].index(a)
                                if len(dst.targs) == len(n["args"]):
                                    d = elem(dst.targs[ix])
                                    if d is not None and d.k == "int" and d.bits < 64:
                                        r.violation("tuple:%s:%d" % (f["n"], ix), loc(f, n),
                                                    "%s: a 64-bit value is stored in a %d-bit tuple element" % (f["n"], d.bits))
    r.count("functions x configurations", nfun)
    if nfun < 60:
        raise AnalysisError("only %d functions in scope" % nfun)
    return r


def wide_range(w, a):
    """An iterator into a container of 64-bit integers that are not known to be small."""
    a = strip(a)
    while a["k"] == "ctor" and len(a["args"]) == 1:
        a = strip(a["args"][0])
    if a["k"] != "call" or short(a["fn"]["n"]) not in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data") or a.get("obj") is None:
        return False
    o = a["obj"]
    t = o.get("t").strip_ref() if o.get("t") is not None else None
    ints = int_targs(t) if t is not None else None
    return bool(ints) and max(ints) == 64 and not w.small_container(o)


def elem(t):
    if not hasattr(t, "k"):
        return None
    if t.k == "ref":
        t = t.to
    if t.k == "rec" and (t.tmpl or "") in ("std::vector", "std::optional", "std::deque") and t.targs and hasattr(t.targs[0], "k"):
        return elem(t.targs[0])
    return t


def int_targs(t):
    out = []
    if t is None:
        return out
    for a in t.targs[:2]:
        if hasattr(a, "k"):
            if a.k == "int":
                out.append(a.bits)
            elif a.k == "rec" and (a.tmpl or "") in INTC:
                out += int_targs(a)
    return out


def hash_vector(o):
    """A vector of hashes that is a plain variable (lists of roots, proof or target hashes)."""
    if o is None or o.get("t") is None:
        return False
    t = o["t"].strip_ref()
    if o["k"] == "ref" and t.targs and hasattr(t.targs[0], "k") and (t.targs[0].tmpl or "") == "std::array":
        return True
    return False


def row_vector(o):
    return True


def stepped(f, ref):
    """Is this variable counted up or down somewhere in the function?"""
    for n in fn_nodes(f):
        if n["k"] == "un" and n["op"] in ("++", "--", "post++", "post--") or n["k"] == "bin" and n["op"] in ("+=", "-="):
            x = n["x"]
            if x["k"] == ref["k"] and (x.get("d") == ref.get("d") if ref["k"] == "ref" else x.get("fld") == ref.get("fld")):
                return True
    return False


def is_row_loop(f, n, parent):
    q = parent.get(id(n))
    while q is not None and q["k"] in ("bin", "cast", "un"):
        q = parent.get(id(q))
    return q is not None and q["k"] in ("for", "while", "do")
