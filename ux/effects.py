"""Flow-insensitive interprocedural effect analysis.

For every function: which storage it may write, named by root: "local" (storage of the call itself),
"fresh" (objects allocated during the call), ("this",), ("param", i), ("global", name), "io".
Pointer-like values carry the roots of the object they point to (D) and of everything reachable from it (R).
"""
from .facts import children, walk

OWNERS = ("std::vector", "std::array", "std::unordered_map", "std::unordered_set", "std::map", "std::set", "std::deque",
          "std::basic_string", "std::pair", "std::tuple", "std::optional", "std::list", "std::bitset", "std::initializer_list",
          "std::unordered_multimap", "std::multimap", "std::stack", "std::queue", "std::priority_queue", "std::function",
          "std::basic_string_view", "std::span")
SMART = ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr", "std::__shared_ptr_access", "std::weak_ptr",
         "std::__uniq_ptr_impl")
ACCESSORS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "data", "at", "back", "front", "find",
             "operator[]", "operator*", "operator->", "get", "value", "size", "empty", "count", "c_str", "first", "second",
             "has_value", "operator bool", "use_count", "capacity", "base", "lower_bound", "upper_bound", "equal_range",
             "good", "fail", "bad", "eof", "is_open", "top", "length", "max_size", "value_or", "contains", "test", "any", "none",
             "all", "to_ullong", "to_ulong", "hash_function", "operator!", "rdstate", "str", "operator()", "rdbuf"}
MAPS = ("std::unordered_map", "std::map")
PURE_FREE = {"equal", "find", "find_if", "find_if_not", "all_of", "any_of", "none_of", "is_sorted", "adjacent_find", "min", "max",
             "count", "count_if", "accumulate", "distance", "next", "prev", "make_pair", "make_tuple", "make_shared", "get",
             "tie", "to_string", "lexicographical_compare", "lower_bound", "upper_bound", "binary_search", "abs", "memcmp",
             "move", "forward", "begin", "end", "cbegin", "cend", "size", "empty", "make_reverse_iterator", "inserter",
             "back_inserter", "dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast", "as_const", "addressof",
             "clamp", "minmax", "mismatch", "strlen", "rbegin", "rend", "crbegin", "crend", "data", "is_permutation",
             "is_partitioned", "includes", "popcount", "countr_one", "countr_zero", "isalnum", "ignore", "partial_sort_copy_",
             "make_optional", "make_unique", "ref", "cref", "bind", "hash", "is_sorted_until", "max_element", "min_element"}
WRITES_FREE = {"sort": [0], "stable_sort": [0], "swap": [0, 1], "iter_swap": [0, 1], "reverse": [0], "fill": [0], "fill_n": [0],
               "iota": [0], "unique": [0], "remove": [0], "remove_if": [0], "copy": [2], "copy_n": [2], "copy_if": [2],
               "transform": [-2, -1], "memcpy": [0], "memmove": [0], "memset": [0], "exchange": [0], "advance": [0],
               "set_difference": [4], "merge": [4], "set_union": [4], "set_intersection": [4], "swap_ranges": [0, 2],
               "rotate": [0], "shuffle": [0], "nth_element": [0], "partial_sort": [0], "generate": [0], "copy_backward": [2],
               "move_backward": [2], "getline": [0, 1], "replace": [0]}
IOGLOBALS = ("std::cout", "std::cerr", "std::clog", "stderr", "stdout")
IOFUN = {"fprintf", "printf", "fputs", "puts", "fflush", "abort", "__assert_fail", "exit", "fwrite"}


class V:
    """Value (pointer-like): D roots of the pointee, R roots reachable further on."""
    __slots__ = ("D", "R")

    def __init__(self, D=(), R=()):
        self.D = frozenset(D)
        self.R = frozenset(R)

    def __or__(self, o):
        return V(self.D | o.D, self.R | o.R)

    def __eq__(self, o):
        return self.D == o.D and self.R == o.R

    def __hash__(self):
        return hash((self.D, self.R))


EMPTY = V()


def deep(v):
    """Roots of pointers stored in the storage described by lvalue v."""
    out = set(v.R)
    for d in v.D:
        if d not in ("local", "fresh"):
            out.add(d)
    return V(out, out)


def short(name):
    depth = 0
    out = []
    cut = 0
    for i, ch in enumerate(name):
        if ch == "<":
            depth += 1
        elif ch == ">" and not name[max(0, i - 1)] == "-":
            depth -= 1
        elif ch == ":" and depth == 0:
            cut = i + 1
    s = name[cut:]
    if s.startswith("operator"):
        return s
    return s.split("<")[0]


def tmpl_of(t):
    t = t.strip_ref() if t is not None else None
    if t is None:
        return None
    return t.tmpl or t.rec


NOPTR = ("std::basic_string", "std::bitset", "std::integral_constant", "std::equal_to", "std::less", "std::allocator", "std::hash",
         "std::char_traits", "std::default_delete", "std::nullopt_t", "std::greater")


def hasptr(p, t, seen=()):
    """Can a value of this type hold a pointer to other storage?"""
    if t is None:
        return True
    if t.k in ("int", "bool", "enum", "float", "void", "nullptr"):
        return False
    if t.k == "array":
        return hasptr(p, t.to, seen)
    if t.k != "rec":
        return True
    tm = t.tmpl or t.rec
    if tm in NOPTR:
        return False
    if tm in OWNERS:
        return any(hasptr(p, a, seen) for a in t.targs if not isinstance(a, int))
    if t.rec in seen:
        return False
    rec = p.records.get(t.rec)
    if rec is None:
        return True
    fs = p.all_fields(t.rec)
    return fs is None or any(hasptr(p, f["t"], seen + (t.rec,)) for f in fs)


class Summary:
    def __init__(self):
        self.writes = {}   # root -> (fn, node, text)
        self.ret = EMPTY
        self.calls = []

    def sig(self):
        return (frozenset(self.writes), self.ret)


class Effects:
    def __init__(self, prog, exact_dispatch=True):
        self.p = prog
        self.sum = {k: Summary() for k in prog.functions}
        self.hp = {}
        self._solve()

    def _solve(self):
        todo = [f for f in self.p.functions.values() if not f.get("lambda")]
        for _ in range(12):
            changed = False
            for f in todo:
                s = FnEffects(self, f).run()
                if s.sig() != self.sum[f["key"]].sig():
                    changed = True
                self.sum[f["key"]] = s
            if not changed:
                break

    def fields(self, f):
        """Members a call of f may write in existing objects (None: any)."""
        if getattr(self, "fw", None) is None:
            self.fw = FieldWrites(self)
        return self.fw.of(f)

    def targets(self, call, tu):
        """Repo functions a call may reach."""
        fn = call["fn"]
        out = []
        f = self.p.lookup(fn, tu)
        if f:
            out.append(f)
        if fn.get("virt") and not call.get("qual"):
            seen = set()
            stack = [fn["usr"]]
            while stack:
                u = stack.pop()
                for o in self.p.overriders.get(u, []):
                    if o["key"] not in seen:
                        seen.add(o["key"])
                        out.append(o)
                        stack.append(o["usr"])
        return out


class FnEffects:
    def __init__(self, eff, fn):
        self.e = eff
        self.p = eff.p
        self.f = fn
        self.vars = {}     # decl -> V: pointers held (by value), or storage (reference)
        self.isref = set()
        self.s = Summary()
        self.lambdas = {}

    def run(self):
        for i, prm in enumerate(self.f["params"]):
            t = prm["t"]
            root = ("param", i)
            self.vars[prm["d"]] = V([root], [root]) if t.k == "ref" or self.hp(t) else EMPTY
            if t.k == "ref":
                self.isref.add(prm["d"])
        for _ in range(6):
            before = dict(self.vars)
            for i in self.f.get("inits", []):
                if i.get("x"):
                    self.val(i["x"])
            if self.f.get("body"):
                self.stmt(self.f["body"])
            if before == self.vars:
                break
        return self.s

    def hp(self, t):
        c = self.e.hp
        k = id(t)
        if k not in c:
            c[k] = hasptr(self.p, t)
        return c[k]

    # -- statements
    def stmt(self, n):
        k = n["k"]
        if k == "decl":
            for v in n["vars"]:
                self.decl(v)
        elif k == "return":
            if n.get("x"):
                t = self.f.get("ret")
                if t is not None and t.k == "ref":
                    self.s.ret = self.s.ret | self.lval(n["x"])
                else:
                    self.s.ret = self.s.ret | self.val(n["x"])
        elif k == "expr":
            self.val(n["x"])
        elif k == "rangefor":
            if n.get("init"):
                self.stmt(n["init"])
            cont = self.lval(n["range"]) if n["range"].get("lv") else self.tmp(n["range"])
            self.bind(n["var"], cont)
            self.stmt(n["body"])
        else:
            for key in ("init", "cvar", "cond", "inc", "then", "else", "body", "x"):
                c = n.get(key)
                if isinstance(c, dict) and "k" in c:
                    self.any(c)
            for c in n.get("s", []) if isinstance(n.get("s"), list) else ([n["s"]] if isinstance(n.get("s"), dict) else []):
                if c:
                    self.any(c)
            for h in n.get("handlers", []) or []:
                if h.get("body"):
                    self.stmt(h["body"])

    STMTS = {"block", "decl", "if", "while", "do", "for", "rangefor", "return", "break", "continue", "switch", "case", "default",
             "try", "label", "null", "expr"}

    def any(self, c):
        if c["k"] in self.STMTS:
            self.stmt(c)
        elif c["k"] == "var":
            self.decl(c)
        else:
            self.val(c)

    def decl(self, v):
        t = v["t"]
        if v.get("static") or v.get("tls"):
            self.vars[v["d"]] = V([("global", v["n"])], [("global", v["n"])])
            self.isref.add(v["d"])
            if v.get("init"):
                self.val(v["init"])
            return
        if not v.get("init"):
            self.vars.setdefault(v["d"], EMPTY)
            return
        if v.get("bindings"):
            src = self.lval(v["init"]) if t.k == "ref" else None
            val = self.val(v["init"]) if src is None else EMPTY
            for b in v["bindings"]:
                if src is not None:
                    self.isref.add(b["d"])
                    self.add(b["d"], src)
                else:
                    # pieces of a by-value temporary
                    self.add(b["d"], val)
                    if b["t"] is not None and b["t"].k == "ref":
                        self.isref.add(b["d"])
            if src is not None:
                self.isref.add(v["d"])
            self.add(v["d"], src if src is not None else val)
            return
        if t.k == "ref":
            self.isref.add(v["d"])
            self.add(v["d"], self.lval(v["init"]))
        else:
            self.add(v["d"], self.val(v["init"]))

    def bind(self, v, cont):
        """Loop variable over a container with lvalue description cont."""
        if v["t"].k == "ref":
            for b in [v] + v.get("bindings", []):
                self.isref.add(b["d"])
                self.add(b["d"], cont)
        else:
            for b in [v] + v.get("bindings", []):
                self.add(b["d"], deep(cont))

    def add(self, d, v):
        self.vars[d] = self.vars.get(d, EMPTY) | v

    # -- expressions
    def write(self, lv, node, what):
        for r in lv.D:
            if r == ("global", "std::ignore"):
                continue
            if r not in self.s.writes:
                self.s.writes[r] = (self.f, node, what)

    def tmp(self, n):
        """Lvalue description of a temporary holding the value of n."""
        v = self.val(n)
        return V(["local"], v.D | v.R)

    def lval(self, n):
        k = n["k"]
        if k == "ref":
            dk = n.get("dk")
            if dk == "global":
                if n.get("qn", "") in IOGLOBALS or n["n"] in ("cout", "cerr", "clog"):
                    return V(["io"], ["io"])
                return V([("global", n.get("qn", n["n"]))], [("global", n.get("qn", n["n"]))])
            v = self.vars.get(n["d"], EMPTY)
            if n["d"] in self.isref:
                return v
            if dk in ("staticlocal",):
                return V([("global", n["n"])], [("global", n["n"])])
            return V(["local"], v.D | v.R)
        if k == "member":
            if n["arrow"]:
                v = self.val(n["b"])
                return V(v.D, v.R)
            ft = n.get("ft")
            lv = self.lval(n["b"]) if n["b"].get("lv") or n["b"]["k"] in ("ref", "member", "idx", "call", "this") else self.tmp(n["b"])
            if ft is not None and ft.k == "ref":
                return deep(lv)
            return lv
        if k == "this":
            return V([("this",)], [("this",)])
        if k == "un" and n["op"] == "*":
            return self.val(n["x"])
        if k == "un" and n["op"] in ("++", "--"):
            self.val(n)
            return self.lval(n["x"])
        if k == "idx":
            self.val(n["i"])
            b = n["b"]
            if b["k"] == "cast" and b.get("ck") == "ArrayToPointerDecay":
                return self.lval(b["x"])
            return self.val(b)
        if k == "cast":
            return self.lval(n["x"]) if n.get("lv") else self.tmp(n["x"])
        if k == "bin":
            self.val(n)
            if n["op"] == ",":
                return self.lval(n["y"])
            if n["op"].endswith("="):
                return self.lval(n["x"])
            return V(["local"], [])
        if k == "cond":
            self.val(n["x"])
            return self.lval(n["a"]) | self.lval(n["b"])
        if k == "call":
            return self.call(n, want_lv=True)
        if k in ("ctor", "init", "zero", "int", "null", "str", "lambda", "stmtexpr", "new"):
            return self.tmp(n)
        v = self.tmp(n)
        return v

    def val(self, n):
        v = self.val0(n)
        t = n.get("t")
        if t is not None and t.k != "ref" and not self.hp(t):
            return EMPTY
        return v

    def val0(self, n):
        k = n["k"]
        if k in ("int", "null", "str", "float", "fnref", "zero", "sizeof"):
            return EMPTY
        if k in ("ref", "member", "idx"):
            lv = self.lval(n)
            t = n.get("t")
            if k == "ref" and n["d"] not in self.isref and n.get("dk") not in ("global", "staticlocal"):
                return self.vars.get(n["d"], EMPTY)
            if t is not None and t.k == "array":
                return V(lv.D, lv.R)
            return deep(lv)
        if k == "this":
            return V([("this",)], [("this",)])
        if k == "un":
            op = n["op"]
            if op == "&":
                lv = self.lval(n["x"])
                return lv
            if op == "*":
                return deep(self.val(n["x"]))
            if op in ("++", "--", "post++", "post--"):
                self.write(self.lval(n["x"]), n, "modifies")
                return self.val(n["x"])
            return self.val(n["x"])
        if k == "bin":
            op = n["op"]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                lv = self.lval(n["x"])
                v = self.val(n["y"])
                self.write(lv, n, "assigns")
                self.flow(n["x"], v)
                return v
            a = self.val(n["x"])
            b = self.val(n["y"])
            return b if op == "," else (a | b)
        if k == "cond":
            self.val(n["x"])
            return self.val(n["a"]) | self.val(n["b"])
        if k == "cast":
            if n.get("ck") == "ArrayToPointerDecay":
                return self.lval(n["x"])
            if n["x"].get("k") == "lambda":
                return self.val(n["x"])
            return self.val(n["x"])
        if k == "call":
            return self.call(n)
        if k == "pcall":
            v = self.val(n["callee"])
            for a in n["args"]:
                v = v | self.val(a)
            return v
        if k == "ctor":
            fn = n["fn"]
            out = EMPTY
            f = self.p.lookup(fn, self.f["tu"])
            vals = []
            for a, pt in zip(n["args"], fn["pt"] + [None] * len(n["args"])):
                v = self.arg(a, pt)
                vals.append(v)
                # value semantics for owning classes: contents are copied
                if pt is not None and pt.k == "ref" and a.get("lv"):
                    out = out | deep(v)
                else:
                    out = out | v
                if fn.get("ctor") == "move" and a.get("lv"):
                    self.write(self.lval(a), n, "moves from")
            if f:
                self.apply(f, n, None, vals)
                return V(out.D, out.R)
            t = n.get("t")
            return V(out.D, out.R)
        if k in ("init", "arraycopy"):
            out = EMPTY
            for c in children(n):
                out = out | self.val(c)
            return out
        if k == "lambda":
            out = EMPTY
            for c in n["caps"]:
                if c.get("this"):
                    out = out | V([("this",)], [("this",)])
                elif c.get("d"):
                    if c["byref"]:
                        pass
                    if c.get("init"):
                        if c["byref"]:
                            out = out | self.lval(c["init"])
                        else:
                            out = out | self.val(c["init"])
            key = "lambda:%d:%d" % n["did"]
            self.run_lambda(key, None)
            return out
        if k == "new":
            out = EMPTY
            if n.get("init"):
                out = self.val(n["init"])
            return V(["fresh"], out.D | out.R)
        if k == "delete":
            self.write(self.val(n["x"]), n, "deletes")
            return EMPTY
        if k == "throw":
            if n.get("x"):
                self.val(n["x"])
            return EMPTY
        if k == "stmtexpr":
            self.stmt(n["s"])
            return EMPTY
        out = EMPTY
        for c in children(n):
            if c["k"] in self.STMTS:
                self.stmt(c)
            else:
                out = out | self.val(c)
        return out

    def flow(self, target, v):
        """Assignment of value v into lvalue expression target: track pointers held by local variables."""
        t = target
        while t["k"] in ("member", "idx", "cast", "call"):
            if t["k"] == "member":
                if t["arrow"]:
                    return
                t = t["b"]
            elif t["k"] == "idx":
                t = t["b"]
            elif t["k"] == "cast":
                t = t["x"]
            else:
                if t.get("obj") is None:
                    if short(t["fn"]["n"]) == "tie":
                        for a in t["args"]:
                            self.flow(a, v)
                            self.write(self.lval(a), t, "assigns")
                    return
                t = t["obj"]
        if t["k"] == "ref" and t["d"] not in self.isref and t.get("dk") not in ("global", "staticlocal") \
                and (t.get("dt") is None or self.hp(t["dt"])):
            self.add(t["d"], v)

    def arg(self, a, pt):
        if pt is not None and pt.k == "ref":
            return self.lval(a) if a.get("lv") or a["k"] == "call" else self.tmp(a)
        return self.val(a)

    def run_lambda(self, key, argvals):
        f = self.p.functions.get(key)
        if f is None:
            return EMPTY
        st = self.lambdas.setdefault(key, {"busy": False, "ret": EMPTY})
        for i, prm in enumerate(f["params"]):
            if prm["t"].k == "ref":
                self.isref.add(prm["d"])
            if argvals is not None and i < len(argvals):
                self.add(prm["d"], argvals[i])
            else:
                self.vars.setdefault(prm["d"], EMPTY)
        if st["busy"]:
            return st["ret"]
        st["busy"] = True
        outer_ret, outer_f = self.s.ret, self.f
        self.s.ret = EMPTY
        self.f = dict(self.f)
        self.f["ret"] = f["ret"]
        self.stmt(f["body"])
        st["ret"] = st["ret"] | self.s.ret
        self.s.ret = outer_ret
        self.f = outer_f
        st["busy"] = False
        return st["ret"]

    def apply(self, f, node, objv, argv):
        s = self.e.sum.get(f["key"])
        if s is None:
            return EMPTY

        def sub(roots):
            out = set()
            for r in roots:
                if r == ("this",):
                    out |= set(objv.D if objv else ["fresh"])
                elif isinstance(r, tuple) and r[0] == "param":
                    if r[1] < len(argv):
                        pt = f["params"][r[1]]["t"]
                        out |= set(argv[r[1]].D)
                elif r == "local":
                    pass
                else:
                    out.add(r)
            return out
        for r, w in s.writes.items():
            if r in ("local", "fresh"):
                continue
            for q in sub([r]):
                if q not in self.s.writes:
                    self.s.writes[q] = (self.f, node, "calls %s, which %s" % (f["n"], w[2]))
        D = sub(s.ret.D)
        R = sub(s.ret.R)
        for r in list(s.ret.D) + list(s.ret.R):
            if r == ("this",) and objv:
                R |= set(objv.R)
            elif isinstance(r, tuple) and r[0] == "param" and r[1] < len(argv):
                R |= set(argv[r[1]].R)
        return V(D, R)

    def call(self, n, want_lv=False):
        fn = n["fn"]
        name = short(fn["n"])
        obj = n.get("obj")
        objv = None
        cls = fn.get("cls", "")
        if obj is not None:
            objv = self.val(obj) if n.get("arrow") else (self.lval(obj) if obj.get("lv") or obj["k"] in ("ref", "member", "call", "idx", "this") else self.tmp(obj))
        # lambda call
        if fn.get("lambda"):
            argv = [self.arg(a, pt) for a, pt in zip(n["args"], fn["pt"])]
            t = obj.get("t")
            key = None
            for x in walk(obj):
                if x["k"] == "lambda":
                    key = "lambda:%d:%d" % x["did"]
            if key is None:
                for k2, f2 in self.p.functions.items():
                    if f2.get("lambda") and f2["usr"] == fn["usr"] and f2["tu"] == self.f["tu"]:
                        key = k2
            self.val(obj) if obj["k"] != "ref" else None
            if key:
                return self.run_lambda(key, argv)
            return EMPTY
        argv = [self.arg(a, pt) for a, pt in zip(n["args"], list(fn["pt"]) + [None] * len(n["args"]))]
        targets = self.e.targets(n, self.f["tu"])
        if targets:
            out = EMPTY
            for f in targets:
                self.s.calls.append((f, n))
                out = out | self.apply(f, n, objv, argv)
            return out
        if fn.get("root") and fn.get("implicit"):
            # implicit copy/move assignment and the like
            if fn.get("op") == "=" and objv is not None:
                self.write(objv, n, "assigns")
                for v in argv:
                    self.flow(obj, deep(v))
            return objv or EMPTY
        tm = cls
        allv = EMPTY
        for v in argv:
            allv = allv | v
        if obj is not None:
            if name == "operator=" or (fn.get("op") or "").endswith("=") and fn.get("op") not in ("==", "!=", "<=", ">="):
                self.write(objv, n, "assigns")
                self.flow(obj, deep(allv) if any(a.get("lv") for a in n["args"]) else allv)
                if obj["k"] == "call" and short(obj["fn"]["n"]) == "tie":
                    for a in obj["args"]:
                        self.write(self.lval(a), n, "assigns")
                        self.flow(a, deep(allv) | allv)
                return objv
            pointerlike = tm in SMART or "iterator" in tm
            if pointerlike:
                hv = self.val(obj) if not n.get("arrow") else objv
                if name in ("operator*", "operator->", "get", "operator[]", "base"):
                    if name in ("get", "base", "operator->"):
                        return hv
                    return hv if want_lv else (hv if n.get("lv") else hv)
                if name in ("operator++", "operator--", "reset", "swap", "operator+=", "operator-="):
                    self.write(objv, n, "modifies")
                    self.flow(obj, allv)
                    return hv
                return hv | allv
            if name in ("operator<<", "operator>>") and (objv.D & {"io"} or tm.startswith("std::basic_")):
                self.write(objv, n, "streams")
                return objv
            if name.startswith("operator ") or name in ACCESSORS:
                if name == "operator[]" and tm in MAPS and not fn.get("const"):
                    self.write(objv, n, "may insert into (operator[])")
                if n.get("lv") or want_lv:
                    return objv
                if name in ("size", "empty", "count", "has_value", "operator bool", "use_count", "contains"):
                    return EMPTY
                return V(objv.D, objv.R)
            if not fn.get("const") and not fn.get("static"):
                self.write(objv, n, "%s() modifies" % name)
                self.flow(obj, deep(allv) | allv)
            return (objv | allv)
        # free functions
        if name == "operator<<" or name == "operator>>":
            for i, (a, v) in enumerate(zip(n["args"], argv)):
                t = a.get("t")
                if i == 0 or name == "operator>>":
                    self.write(v, n, "streams into")
            return argv[0] if argv else EMPTY
        if name in IOFUN:
            self.write(V(["io"]), n, "output")
            return EMPTY
        if name in WRITES_FREE:
            for i in WRITES_FREE[name]:
                if -len(argv) <= i < len(argv):
                    self.write(argv[i], n, "%s() writes" % name)
                    for j, v in enumerate(argv):
                        self.flow(n["args"][i], deep(v))
            return allv
        if name == "make_shared" or name == "make_unique":
            c = EMPTY
            for a, v in zip(n["args"], argv):
                c = c | (deep(v) if a.get("lv") else v)
            t = n.get("t")
            ct = t.targs[0] if t is not None and t.targs else None
            return V(["fresh"], c.D | c.R)
        if name in ("make_pair", "make_tuple", "dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
            c = EMPTY
            for a, v in zip(n["args"], argv):
                c = c | (deep(v) if a.get("lv") else v)
            if name.endswith("_cast") and n["args"] and n["args"][0]["k"] == "ref":
                return self.val(n["args"][0])
            return c
        if name in PURE_FREE or name.startswith("operator") or fn.get("pure") or fn.get("builtin"):
            return allv
        # unknown external function: may write whatever it can reach through non-const references
        for a, v, pt in zip(n["args"], argv, list(fn["pt"])):
            q = pt.strip_ref() if pt is not None and pt.k == "ref" else (pt.to if pt is not None and pt.k == "ptr" else None)
            if q is not None and not q.const:
                self.write(v, n, "passes to %s" % name)
        return allv


class FieldWrites:
    """Which members a function may write in objects that exist before it is called: a flow-insensitive
    over-approximation. A member counts as written where it is named in any context that is not a plain read."""

    READS = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "get", "find",
             "operator*", "operator->", "size", "empty", "operator bool", "value", "has_value"}

    def __init__(self, eff):
        self.e, self.p = eff, eff.p
        self.own, self.calls, self.memo = {}, {}, {}

    def of(self, f):
        """Fields, or None if anything may be written."""
        k = f["key"]
        if k in self.memo:
            return self.memo[k]
        seen, todo, out = {k}, [f], set()
        while todo:
            g = todo.pop()
            self.collect(g)
            if self.own[g["key"]] is None:
                out = None
                break
            out |= self.own[g["key"]]
            for h in self.calls[g["key"]]:
                if h["key"] not in seen:
                    seen.add(h["key"])
                    todo.append(h)
        self.memo[k] = out
        return out

    def record(self, t):
        t = t.strip_ref() if t is not None else None
        while t is not None and t.k in ("ref", "ptr"):
            t = t.to
        n = getattr(t, "rec", None) or getattr(t, "s", None)
        n = str(n).replace("const ", "") if n is not None else None
        return n if n in self.p.records else None

    def collect(self, f):
        k = f["key"]
        if k in self.own:
            return
        self.own[k], self.calls[k] = set(), []
        self.f = f
        self.ctor = bool(f.get("ctor")) or "~" in f["n"]
        if f.get("body") is None:
            return
        ret = f.get("ret")
        self.ret_mut = ret is not None and ret.k == "ref" and not ret.to.const
        out, calls = self.own[k], self.calls[k]
        tu = f["tu"]

        def whole(t):
            r = self.record(t)
            if r is not None:
                for fd in self.p.all_fields(r) or []:
                    out.add(fd["q"])

        def visit(n, ro):
            kd = n["k"]
            ro = ro or bool(n.get("rv"))
            if kd == "member":
                t = n.get("t")
                if not ro and not (t is not None and t.const) and not (self.ctor and n["b"]["k"] == "this"):
                    out.add(n["fld"])
                visit(n["b"], True if n["arrow"] else ro)
            elif kd == "idx":
                visit(n["b"], ro)
                visit(n["i"], True)
            elif kd == "un":
                if n["op"] == "*":
                    if not ro:
                        whole(n.get("t"))
                    visit(n["x"], True)
                elif n["op"] == "&":
                    t = n.get("t")
                    visit(n["x"], ro or (t is not None and t.k == "ptr" and t.to.const))
                elif n["op"] in ("++", "--"):
                    visit(n["x"], False)
                else:
                    visit(n["x"], True)
            elif kd == "cast":
                visit(n["x"], ro)
            elif kd == "cond":
                visit(n["x"], True)
                visit(n["a"], ro)
                visit(n["b"], ro)
            elif kd == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                visit(n["x"], False)
                visit(n["y"], True)
            elif kd == "bin":
                visit(n["x"], ro if n["op"] == "," else True)
                visit(n["y"], ro if n["op"] == "," else True)
            elif kd == "call" or kd == "ctor":
                fn = n.get("fn") or {}
                ts = self.e.targets(n, tu) if fn else []
                for g in ts:
                    calls.append(g)
                short_ = short(fn.get("n", ""))
                obj = n.get("obj")
                if obj is not None:
                    const = fn.get("const") or ro and n.get("lv") and short_ in self.READS and not (short_ == "operator[]" and fn.get("cls") in MAPS)
                    if n.get("arrow"):
                        visit(obj, True)
                    else:
                        visit(obj, bool(const))
                    if fn.get("op") == "=" and (fn.get("implicit") or not ts):
                        whole(obj.get("t"))
                    if short_ == "operator*" and not ro:
                        whole(n.get("t"))
                if fn.get("lambda"):
                    for x in walk(obj) if obj is not None else ():
                        if x["k"] == "lambda":
                            lam(x)
                pts = list(fn.get("pt") or []) + [None] * len(n.get("args", []))
                for a, pt in zip(n.get("args", []), pts):
                    mut = pt is None and kd == "call" and not ts and not fn.get("pure") or pt is not None and pt.k == "ref" and not pt.to.const
                    visit(a, not mut)
                    if mut and not ts:
                        whole(a.get("t"))
            elif kd == "var":
                t = n["t"]
                if n.get("init") is not None:
                    visit(n["init"], not (t.k == "ref" and not t.to.const))
            elif kd == "rangefor":
                rest = [c for c in children(n)]
                v = n.get("var") or {}
                t = v.get("t") if isinstance(v, dict) else None
                mut = t is None or t.k == "ref" and not t.to.const
                for c in rest:
                    visit(c, not mut if c is n.get("range") else False)
            elif kd == "return":
                for c in children(n):
                    visit(c, not self.ret_mut)
            elif kd == "lambda":
                lam(n)
                for c in children(n):
                    visit(c, True)
            elif kd in ("if", "while", "do", "for", "switch"):
                for c in children(n):
                    visit(c, False)
            else:
                if kd == "unknown":
                    ro = False
                for c in children(n):
                    visit(c, ro)

        def lam(x):
            g = self.p.functions.get("lambda:%d:%d" % x["did"])
            if g is not None:
                calls.append(g)
        visit(f["body"], False)
