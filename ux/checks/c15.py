"""C15: results depend only on the operations performed on the object (shared state, ambient inputs, hash order, addresses)."""
import os
import re

from ..effects import short, tmpl_of
from ..facts import Program, loc, walk, fn_nodes, children
from ..report import Report
from ..show import txt

PUBLIC = ("utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest", "utreexo::BatchProof", "utreexo::UndoBatch",
          "utreexo::ForestState", "utreexo::ForestState::Swap")
# library functions whose result does not depend on their arguments and the program's own state alone
AMBIENT = {
    "rand": "random numbers", "random": "random numbers", "srand": "random numbers", "rand_r": "random numbers",
    "drand48": "random numbers", "lrand48": "random numbers", "mrand48": "random numbers", "arc4random": "random numbers",
    "getrandom": "random numbers", "getentropy": "random numbers",
    "time": "the time", "clock": "the time", "gettimeofday": "the time", "clock_gettime": "the time", "localtime": "the time",
    "gmtime": "the time", "ftime": "the time", "times": "the time", "timespec_get": "the time", "__builtin_readcyclecounter": "the time",
    "__builtin_ia32_rdtsc": "the time", "_mm_pause": None,
    "getenv": "the environment", "secure_getenv": "the environment", "getpid": "the process", "getppid": "the process",
    "gettid": "the thread", "pthread_self": "the thread", "sched_getcpu": "the processor", "gethostname": "the machine",
    "sysconf": "the machine", "setlocale": "the locale", "localeconv": "the locale", "nl_langinfo": "the locale",
    "get_id": "the thread", "hardware_concurrency": "the machine", "get_nprocs": "the machine",
    "getuid": "the user", "getcwd": "the working directory", "__builtin_frame_address": "addresses",
    "__builtin_return_address": "addresses", "sbrk": "addresses", "mallinfo": "the allocator",
}
AMBIENT_CLS = {"std::random_device": "random numbers", "std::locale": "the locale",
               "std::chrono::_V2::system_clock": "the time", "std::chrono::_V2::steady_clock": "the time",
               "std::chrono::system_clock": "the time", "std::chrono::steady_clock": "the time"}
HASH_LAYOUT = {"bucket", "bucket_count", "bucket_size", "max_bucket_count", "load_factor", "capacity_of"}
UNORDERED = ("std::unordered_map", "std::unordered_set", "std::unordered_multimap", "std::unordered_multiset")
ORDERED = ("std::map", "std::set", "std::multimap", "std::multiset", "std::priority_queue")
BEGIN = {"begin", "cbegin"}
# algorithms whose result does not depend on the order of the range
ORDER_FREE_ALGS = {"all_of", "any_of", "none_of", "count", "count_if", "min", "max", "is_permutation", "distance"}


def strip(n):
    while n is not None and (n["k"] == "cast" and (n.get("impl") or n.get("ck") in ("NoOp", "LValueToRValue", "ConstructorConversion"))
                             or n["k"] == "ctor" and len(n["args"]) == 1 and n["fn"].get("ctor") in ("copy", "move")):
        n = n["x"] if n["k"] == "cast" else n["args"][0]
    return n


def ctype(n):
    t = n.get("t") if n is not None else None
    return tmpl_of(t.strip_ref()) if t is not None else None


def is_ptr(t):
    t = t.strip_ref()
    return t.k == "ptr" or tmpl_of(t) in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")


def rec_ptr(t):
    """pointer to an object of the library (not a pointer into a byte buffer)"""
    t = t.strip_ref()
    if tmpl_of(t) in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr"):
        return True
    return t.k == "ptr" and t.to is not None and (t.to.rec is not None or t.to.k in ("rec", "record"))


class Fn:
    def __init__(self, p, f, rep):
        self.p, self.f, self.r = p, f, rep
        self.parent = {}
        self.order = {}
        for top in ([f["body"]] if f.get("body") else []) + [i["x"] for i in f.get("inits", []) if i.get("x")]:
            for n in walk(top):
                self.order[id(n)] = len(self.order)
                for c in children(n):
                    self.parent[id(c)] = n

    def uses(self, d):
        return [n for n in fn_nodes(self.f) if n["k"] == "ref" and n.get("d") == d]

    def up(self, n):
        x = self.parent.get(id(n))
        while x is not None and (x["k"] == "cast" or x["k"] == "ctor" and len(x["args"]) == 1 and x["fn"].get("ctor") in ("copy", "move")):
            x = self.parent.get(id(x))
        return x

    def sorted_first(self, d, after):
        """The first use of local d after node `after` (outside it) is as the range of a full std::sort."""
        inside = {id(x) for x in walk(after)}
        us = sorted((u for u in self.uses(d) if id(u) not in inside and self.order.get(id(u), 0) > self.order.get(id(after), 0)),
                    key=lambda u: self.order[id(u)])
        for u in us:
            x = self.up(u)
            if x is not None and x["k"] == "call" and short(x["fn"]["n"]) in ("reserve", "shrink_to_fit"):
                continue
            if x is not None and x["k"] == "return":
                return self.callers_sort()
            if x is None or x["k"] != "call" or short(x["fn"]["n"]) not in BEGIN | {"rbegin"}:
                return False
            y = self.up(x)
            if y is None or y["k"] != "call" or short(y["fn"]["n"]) not in ("sort", "stable_sort") or len(y["args"]) != 2:
                return False
            a, b = strip(y["args"][0]), strip(y["args"][1])
            ok = (a is not None and b is not None and a["k"] == "call" and b["k"] == "call"
                  and short(a["fn"]["n"]) in BEGIN | {"rbegin"} and short(b["fn"]["n"]) in ("end", "cend", "rend")
                  and (strip(b.get("obj")) or {}).get("d") == d)
            return bool(ok)
        return True   # never used again

    def callers_sort(self):
        """A vector in hash-table order is returned: every caller keeps it in a variable and sorts that first."""
        found = False
        for g in self.p.functions.values():
            for n in fn_nodes(g):
                if n["k"] == "decl":
                    for v in n["vars"]:
                        i = strip(v.get("init")) if v.get("init") else None
                        if i is not None and i["k"] == "call" and (self.p.lookup(i["fn"], g["tu"]) is self.f or i["fn"]["usr"] == self.f["usr"]):
                            found = True
                            if not Fn(self.p, g, self.r).sorted_first(v["d"], n):
                                return False
        return True if found else None

    def local_target(self, n):
        n = strip(n)
        if n is not None and n["k"] == "ref" and n.get("dk") in ("local", "var", "param"):
            return n["d"]
        return None

    def order_free_body(self, body, loopvars, loop):
        """None if the effect of the loop does not depend on the order of its iterations, else (node, why);
        ('?', node) when this cannot be told."""
        inside = {id(x) for x in walk(body)}
        local = {v["d"] for x in walk(body) if x["k"] == "decl" for v in x["vars"]} | set(loopvars)
        rets = []
        for x in walk(body):
            k = x["k"]
            if k == "return":
                v = strip(x.get("x"))
                if v is None:
                    rets.append("void")
                elif v["k"] in ("int", "null"):
                    rets.append(v.get("v", "null"))
                else:
                    if any(y["k"] == "ref" and y.get("d") in local for y in walk(v)):
                        return x, "it returns a value taken from the element that happens to come first"
                    rets.append("expr:" + txt(v))
            elif k in ("break", "throw"):
                q = self.parent.get(id(x))
                while q is not None and q["k"] not in ("for", "while", "do", "rangefor", "switch"):
                    q = self.parent.get(id(q))
                if k == "throw" or q is loop:
                    rets.append(k)
            elif k == "bin" and (x["op"] == "=" or x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")):
                t = strip(x["x"])
                base = self.base(t)
                if base is not None and base.get("d") in local and base.get("dk") != "param":
                    bt = base.get("dt")
                    if bt is None or bt.k != "ref":
                        continue
                    continue   # reference to the element itself
                if x["op"] in ("+=", "^=", "|=", "&=", "*="):
                    ty = x["x"].get("t")
                    if ty is not None and ty.strip_ref().is_int:
                        if any(y["k"] == "ref" and base is not None and y.get("d") == base.get("d") for y in walk(x["y"])):
                            return ("?", x)
                        continue
                    return ("?", x)
                if x["op"] == "=":
                    v = strip(x["y"])
                    if v is not None and v["k"] in ("int", "null"):
                        continue
                    if v is not None and v["k"] == "cond":
                        return ("?", x)
                    if any(y["k"] == "ref" and y.get("d") in local for y in walk(x["y"])):
                        # x = f(element): the last element wins, unless guarded by a min/max comparison
                        g = self.parent.get(id(x))
                        while g is not None and g is not body and g["k"] != "if":
                            g = self.parent.get(id(g))
                        if g is not None and g["k"] == "if" and base is not None and any(
                                y["k"] == "ref" and y.get("d") == base.get("d") for y in walk(g["cond"])):
                            return ("?", x)
                        if t is not None and t["k"] == "call" and t.get("opc") == "[]":
                            continue
                        return x, "the element that happens to come last decides the value of %s" % txt(x["x"])
                    continue
                return ("?", x)
            elif k == "call":
                nm = short(x["fn"]["n"])
                o = strip(x.get("obj"))
                ot = ctype(x.get("obj")) if x.get("obj") else None
                if x.get("opc") in ("<<",):
                    continue
                if ot in ("std::vector", "std::deque", "std::list", "std::basic_string") and nm in (
                        "push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "append"):
                    base = self.base(o)
                    if base is not None and base.get("d") in local:
                        continue
                    d = self.local_target(o)
                    if d is not None and not self.is_ref_param(d):
                        ok = self.sorted_first(d, loop)
                        if ok is None:
                            return ("?", x)
                        if ok:
                            continue
                        return x, "elements are appended to %s in hash-table order and it is not sorted before it is used" % txt(o)
                    return x, "elements are appended to %s in hash-table order" % txt(o)
                if ot in UNORDERED + ORDERED:
                    continue
                if x["fn"].get("const") or x.get("opc") or not x["fn"].get("root"):
                    if not x["fn"].get("root") and o is None and nm in ("swap", "copy", "move", "memcpy"):
                        return ("?", x)
                    continue
                g = self.p.lookup(x["fn"], self.f["tu"])
                if g is not None and not any(q["t"].k == "ref" and not q["t"].to.const for q in g["params"]) and (
                        not g.get("cls") or g.get("static")):
                    continue
                return ("?", x)
        if len(set(rets)) > 1 and not set(rets) <= {"expr"}:
            return body, "it leaves the loop in more than one way (%s)" % ", ".join(sorted(set(rets)))
        if "break" in rets:
            # leaving early is fine when nothing was accumulated, i.e. the only effect is a constant flag
            for x in walk(body):
                if x["k"] == "bin" and x["op"] in ("+=", "^=", "*=") or x["k"] == "un" and x["op"] in ("++", "--", "post++", "post--"):
                    return x, "it stops early while accumulating"
        return None

    def base(self, n):
        n = strip(n)
        while n is not None and n["k"] in ("member", "idx", "call", "cast", "un"):
            if n["k"] == "member" or n["k"] == "idx":
                n = strip(n["b"])
            elif n["k"] == "call" and (n.get("opc") in ("[]", "->", "*") or short(n["fn"]["n"]) in ("at", "back", "front", "value", "data")):
                n = strip(n.get("obj") or (n["args"][0] if n["args"] else None))
            elif n["k"] == "un" and n["op"] == "*":
                n = strip(n["x"])
            else:
                break
        return n if n is not None and n["k"] == "ref" else None

    def is_ref_param(self, d):
        return any(q["d"] == d and q["t"].k == "ref" for q in self.f["params"])


def check(tier):
    r = Report("C15", tier,
               "Syntax-tree rules over every function of the library: no variable with static or thread storage duration that can "
               "change or is initialised from a call's arguments; no call whose result comes from outside the program (time, "
               "random numbers, environment, process, locale, addresses); iteration over a hash table must be insensitive to its "
               "order or its result sorted before use; no ordering of, or arithmetic on, addresses of objects; every scalar member "
               "initialised by every constructor; objects that own mutable nodes through shared pointers are not copyable member "
               "by member.", assumptions=["user-supplied files are inputs of the operation that opens them"])
    cfgs = ("release", "verify") + (("ndebug", "release20") if tier == "thorough" else ())
    for config in cfgs:
        p = Program(config)
        run(p, r, config)
    return r


def run(p, r, config):
    fns = [f for f in p.functions.values() if f.get("body") or f.get("inits")]
    nfn = 0
    # --- shared state
    gref = {}
    for f in fns:
        for n in fn_nodes(f):
            if n["k"] == "ref" and n.get("dk") in ("global", "staticlocal", "static", "staticmember"):
                gref.setdefault((n["n"], n.get("d")), []).append((f, n))
    gs = list(p.globals)
    for g in gs:
        t = g["t"]
        where = "%s:%s" % (g.get("f"), g.get("l"))
        name = g["qn"]
        if g.get("constexpr") or t.const or (t.k == "arr" and t.to is not None and t.to.const):
            bad = None
            if shares(p, t) or t.k == "ptr" and t.to is not None and not t.to.const and t.to.k != "func":
                r.violation("static-target:" + name, where,
                            "static constant '%s' points to an object that can change and is shared by all" % name)
                continue
            if g.get("init") is not None and g.get("static"):
                for x in walk(g["init"]):
                    if x["k"] == "this" or x["k"] == "ref" and x.get("dk") in ("param", "local", "var"):
                        bad = x
            if bad is not None:
                r.violation("static-init:" + name, where,
                            "static constant '%s' is initialised from the arguments or object of the first call and then shared by all" % name)
            else:
                r.ob("static storage", where, "%s is constant" % name)
            if t.rec and any(m for m in (p.all_fields(t.rec) or []) if m.get("mutable")):
                r.violation("static-mutable:" + name, where, "static '%s' has mutable members" % name)
            continue
        users = [(f, n) for (nm, d), us in gref.items() if d == (g["tu"], g["d"][1]) or nm == g.get("n") for f, n in us]
        if not g.get("static") and not users:
            continue
        r.violation("static:" + name, where, "'%s' has %s storage duration and can change: it is shared between %s" % (
            name, "thread" if g.get("tls") else "static", "all objects of a thread" if g.get("tls") else "all objects and threads"),
            ["used in %s at %s" % (f["n"], loc(f, n)) for f, n in users[:5]])
    # --- copyability (F15)
    for cn in PUBLIC:
        rec = p.records.get(cn)
        if rec is None:
            continue
        bad = [q for q in (p.all_fields(cn) or []) if shares(p, q["t"])]
        abstract = any(m.get("pure") for m in rec["methods"])
        if bad and not rec.get("copyDeleted") and not rec.get("userCopy") and not abstract:
            r.violation("copy:" + cn, "%s:%s" % (rec["f"], rec["l"]),
                        "copies of %s share the objects behind %s: modifying the copy changes the original" % (
                            cn, ", ".join(q["n"] for q in bad)))
        else:
            r.ob("copies are independent", cn, "not copyable" if rec.get("copyDeleted") else "no shared members" if not bad else "own copy constructor or abstract")
        for q in rec["fields"]:
            t = q["t"]
            if t.k == "ref" or t.k == "ptr" and t.to is not None and not (t.to.k in ("func", "function")):
                r.violation("alias:%s::%s" % (cn, q["n"]), "%s:%s" % (rec["f"], q["l"]),
                            "member %s refers to an object outside %s" % (q["n"], cn))
            else:
                r.ob("own members", "%s::%s" % (cn, q["n"]))
    # --- scalar members initialised
    made = {}
    for f in fns:
        for n in fn_nodes(f):
            if n["k"] == "ctor" and n["fn"].get("cls") in p.records:
                made.setdefault(n["fn"]["cls"], set()).add(len(n["args"]))
            if n["k"] == "call" and short(n["fn"]["n"]) in ("MakeNodePtr", "make_shared", "make_unique"):
                t = n["t"].strip_ref()
                if t.targs and getattr(t.targs[0], "rec", None):
                    made.setdefault(t.targs[0].rec, set()).add(len(n["args"]))

    def delegates(f):
        return any(i.get("deleg") or i.get("delegating") or getattr(i.get("base"), "rec", None) == f["cls"] for i in f.get("inits", []))

    def scalar_fields(cn):
        out = []
        rec = p.records[cn]
        for b in rec["bases"]:
            br = p.records.get(b)
            if br and not any(g.get("ctor") and g.get("cls") == b and g.get("ctor") not in ("copy", "move") for g in p.functions.values()):
                out += scalar_fields(b)
        return out + [(cn, q) for q in rec["fields"] if q["t"].is_int or q["t"].k in ("ptr", "float")]

    def assigned(f, name):
        """yes / maybe / no: is this->name assigned in the constructor's body?"""
        got = "no"
        top = f["body"].get("s", []) if f.get("body") else []
        for s in top:
            for n in walk(s):
                hit = n["k"] == "bin" and n["op"] == "=" and any(
                    x["k"] == "member" and x["n"] == name for x in (strip(n["x"]),))
                if n["k"] == "bin" and n["op"] == "=" and not hit:
                    y = strip(n["y"])
                    hit = y is not None and y["k"] == "bin" and y["op"] == "=" and (strip(y["x"]) or {}).get("n") == name
                if hit:
                    if s["k"] in ("expr", "bin", "block"):
                        return "yes"
                    got = "maybe"
                if n["k"] == "call" and n["fn"].get("root") and strip(n.get("obj") or {"k": "this"})["k"] == "this":
                    got = "maybe"
        return got

    for f in fns:
        if f.get("ctor") and f.get("cls") in p.records and f["ctor"] not in ("copy", "move"):
            if f["cls"] not in PUBLIC and len(f["params"]) not in made.get(f["cls"], set()):
                continue
            if delegates(f) or f["cls"].endswith("CSHA512") and False:
                continue
            for cn, q in scalar_fields(f["cls"]):
                ok = q.get("init") is not None or any(i.get("fld") and short(i["fld"]) == q["n"] for i in f.get("inits", []))
                st = "yes" if ok else assigned(f, q["n"])
                if st == "yes":
                    r.ob("member initialised", "%s in %s" % (q["n"], f["n"]))
                elif st == "maybe":
                    r.undecided("%s::%s" % (cn, q["n"]), "initialisation inside a helper or branch of " + f["n"])
                else:
                    r.violation("uninit:%s::%s" % (cn, q["n"]), "%s:%s" % (f.get("file"), f.get("l")),
                                "a constructor of %s leaves %s::%s uninitialised" % (f["cls"], cn, q["n"]))
    # --- per function rules
    for f in fns:
        if f.get("tmpl_pattern"):
            continue
        nfn += 1
        r.analysed(f)
        fx = Fn(p, f, r)
        nm = short(f["n"])
        printer = nm.startswith("Print") or nm.startswith("print_")
        for n in fn_nodes(f):
            k = n["k"]
            if k in ("call", "ctor"):
                cal = n["fn"]
                s = short(cal["n"])
                cls = cal.get("cls") or ""
                why = None
                if not cal.get("root"):
                    if s in AMBIENT and (not cls or s in ("get_id", "hardware_concurrency")) and (not cls or "thread" in cls or cls.startswith("std::this")):
                        why = AMBIENT[s]
                    for c, w in AMBIENT_CLS.items():
                        if cls == c or cal["n"].startswith(c + "::"):
                            why = w
                    if s == "imbue":
                        why = "the locale"
                    if cls in UNORDERED and s in HASH_LAYOUT:
                        why = "the layout of a hash table"
                    if cls.startswith("std::hash") and n["args"] and is_ptr(n["args"][0].get("t") or n["t"]):
                        why = "addresses"
                    if s == "id" and "thread" in cls:
                        why = "the thread"
                if why:
                    r.violation("ambient:%s:%s" % (f["n"], s), loc(f, n), "%s depends on %s (call of %s)" % (f["n"], why, s))
                else:
                    r.count("calls")
            # --- addresses
            if k == "cast" and n.get("ck") in ("PointerToIntegral",) or k == "cast" and n.get("ck") == "BitCast" and False:
                r.violation("address:%s" % f["n"], loc(f, n), "%s turns an address into a number: %s" % (f["n"], txt(n)))
            cmpargs = None
            if k == "bin" and n["op"] in ("<", ">", "<=", ">=", "<=>"):
                cmpargs = [n["x"], n["y"]]
            elif k == "call" and n.get("opc") in ("<", ">", "<=", ">=", "<=>"):
                cmpargs = ([n["obj"]] if n.get("obj") else []) + n["args"]
            if cmpargs and len(cmpargs) == 2 and all(x.get("t") is not None and rec_ptr(x["t"]) for x in cmpargs):
                r.violation("address-order:%s" % f["n"], loc(f, n), "%s orders objects by address: %s" % (f["n"], txt(n)))
            if k == "decl":
                for v in n["vars"]:
                    t = v.get("t")
                    if t is not None and tmpl_of(t.strip_ref()) in ORDERED and t.strip_ref().targs and t.strip_ref().targs[0] is not None \
                            and hasattr(t.strip_ref().targs[0], "k") and rec_ptr(t.strip_ref().targs[0]):
                        r.violation("address-order:%s:%s" % (f["n"], v["n"]), loc(f, n),
                                    "'%s' is a tree ordered by the addresses of its keys" % v["n"])
            if k == "call" and not n["fn"].get("root") and short(n["fn"]["n"]) in ("sort", "stable_sort", "make_heap", "min_element", "max_element") \
                    and len(n["args"]) == 2:
                a = strip(n["args"][0])
                if a is not None and a["k"] == "call" and a.get("obj") is not None:
                    ct = a["obj"]["t"].strip_ref()
                    if ct.targs and hasattr(ct.targs[0], "k") and rec_ptr(ct.targs[0]):
                        r.violation("address-order:%s" % f["n"], loc(f, n), "%s sorts objects by address" % f["n"])
            # --- hash order
            if k == "rangefor" and ctype(n["range"]) in UNORDERED:
                lv = [n["var"]["d"]] if n["var"].get("d") else []
                lv += [h["d"] for h in n["var"].get("binds", []) if isinstance(h, dict) and h.get("d")]
                lv += [h["d"] for h in n["var"].get("bindings", []) if isinstance(h, dict) and h.get("d")]
                if printer:
                    r.ob("hash order", loc(f, n), "printing only")
                    continue
                res = fx.order_free_body(n["body"], lv, n)
                verdict(r, f, n, res, "iterates over a hash table")
            if k == "call" and n.get("obj") is not None and ctype(n["obj"]) in UNORDERED and short(n["fn"]["n"]) in BEGIN:
                if printer:
                    continue
                begin_use(fx, f, n, r)
    r.count("functions", nfn)
    uninitialised_locals(p, r, config)


def uninitialised_locals(p, r, config):
    """The compiler's flow analysis: a local scalar that is read before any assignment on every way through some branch."""
    from ..facts import CONFIGS, COMMON, REPO, lib_sources, sh
    from concurrent.futures import ThreadPoolExecutor
    flags = CONFIGS[config] + COMMON + ["-fsyntax-only", "-Wuninitialized", "-Wsometimes-uninitialized", "-fno-color-diagnostics",
                                        "-fno-caret-diagnostics", "-ferror-limit=0"]
    srcs = lib_sources()
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: sh(["clang++-18"] + flags + [s]), srcs))
    hits = {}
    for src, o in zip(srcs, outs):
        if o.returncode:
            r.undecided(os.path.relpath(src, REPO), "the flow analysis of locals could not be run")
            continue
        for m in re.finditer(r"^(\S+?):(\d+):\d+: warning: (variable '(\w+)' is (?:used )?uninitialized.*?) \[-W", o.stdout, re.M):
            f = os.path.relpath(m.group(1), REPO)
            if not f.startswith(".."):
                hits["uninit-local:%s:%s" % (f, m.group(4))] = ("%s:%s" % (f, m.group(2)), m.group(3))
        r.ob("locals assigned before use", os.path.relpath(src, REPO), "flow analysis of every local scalar")
    for k, (w, text) in sorted(hits.items()):
        r.violation(k, w, text)


def verdict(r, f, n, res, what):
    if res is None:
        r.ob("hash order", loc(f, n), "%s: order-insensitive" % what)
    elif res[0] == "?":
        r.undecided(loc(f, res[1]), "%s %s; cannot tell whether its order matters: %s" % (f["n"], what, txt(res[1])))
    else:
        r.violation("hash-order:%s" % f["n"], loc(f, res[0]), "%s %s and the order matters: %s" % (f["n"], what, res[1]))


def begin_use(fx, f, n, r):
    u = fx.up(n)
    if u is None:
        return
    if u["k"] == "un" and u["op"] == "*" or u["k"] == "call" and u.get("opc") in ("*", "->"):
        r.violation("hash-order:%s" % f["n"], loc(f, n), "%s uses whichever element a hash table yields first" % f["n"])
        return
    if u["k"] == "ctor":
        ct = tmpl_of(u["t"].strip_ref())
        if ct in UNORDERED or ct in ORDERED:
            r.ob("hash order", loc(f, n), "copied into another set or map")
            return
        d = fx.parent.get(id(u))
        while d is not None and d["k"] != "decl":
            if d["k"] in ("s", "block", "call", "bin"):
                break
            d = fx.parent.get(id(d))
        # find declared variable whose init contains u
        if d is not None and d["k"] == "decl":
            for v in d["vars"]:
                if v.get("init") is not None and any(x is u for x in walk(v["init"])) and strip(v["init"]) is u:
                    ok = fx.sorted_first(v["d"], d)
                    if ok is None:
                        r.undecided(loc(f, n), "hash-table elements returned to callers the analysis cannot follow")
                        return
                    if ok:
                        r.ob("hash order", loc(f, n), "'%s' is sorted before it is used" % v["n"])
                        return
                    r.violation("hash-order:%s" % f["n"], loc(f, n),
                                "'%s' is filled in hash-table order and not sorted before it is used" % v["n"])
                    return
        r.undecided(loc(f, n), "hash-table elements copied into a temporary")
        return
    if u["k"] == "call":
        s = short(u["fn"]["n"])
        ot = ctype(u["obj"]) if u.get("obj") is not None else None
        if s in ORDER_FREE_ALGS or u.get("opc") in ("==", "!="):
            r.ob("hash order", loc(f, n), s)
            return
        if s in ("insert",) and ot in UNORDERED + ORDERED or s in ("insert", "merge") and ot in UNORDERED:
            r.ob("hash order", loc(f, n), "inserted into another set or map")
            return
        if s in ("insert", "assign", "append", "append_range") and ot in ("std::vector", "std::deque"):
            d = fx.local_target(u["obj"])
            if d is not None and not fx.is_ref_param(d) and fx.sorted_first(d, u):
                r.ob("hash order", loc(f, n), "sorted before use")
                return
            r.violation("hash-order:%s" % f["n"], loc(f, n), "%s is filled in hash-table order and not sorted before it is used" % txt(u["obj"]))
            return
        if s in ("copy", "transform") and len(u["args"]) >= 3:
            ins = strip(u["args"][2])
            if ins is not None and ins["k"] == "call" and short(ins["fn"]["n"]) in ("back_inserter", "inserter", "begin") and (ins["args"] or ins.get("obj")):
                tgt = strip(ins["args"][0] if ins["args"] else ins["obj"])
                if ctype(tgt) in UNORDERED + ORDERED:
                    r.ob("hash order", loc(f, n), "inserted into another set or map")
                    return
                d = fx.local_target(tgt)
                if d is not None and not fx.is_ref_param(d):
                    if fx.sorted_first(d, u):
                        r.ob("hash order", loc(f, n), "sorted before use")
                    else:
                        r.violation("hash-order:%s" % f["n"], loc(f, n), "%s is filled in hash-table order and not sorted before it is used" % txt(tgt))
                    return
        if s == "erase" and ot in UNORDERED:
            r.violation("hash-order:%s" % f["n"], loc(f, n), "%s erases whichever element a hash table yields first" % f["n"])
            return
        r.undecided(loc(f, n), "iterator over a hash table handed to %s" % s)
        return
    # a variable: explicit iterator loop
    d = fx.parent.get(id(n))
    while d is not None and d["k"] != "decl":
        d = fx.parent.get(id(d))
    if d is not None:
        loop = fx.parent.get(id(d))
        if loop is not None and loop["k"] == "for" and loop.get("init") is d:
            res = fx.order_free_body(loop["body"], [v["d"] for v in d["vars"]], loop)
            verdict(r, f, n, res, "iterates over a hash table")
            return
        it = [v["d"] for v in d["vars"]]
        adv = [x for x in fn_nodes(f) if (x["k"] == "call" and x.get("opc") in ("++",) or x["k"] == "un" and x["op"].endswith("++"))
               and any(y["k"] == "ref" and y.get("d") in it for y in walk(x))]
        deref = [x for x in fn_nodes(f) if (x["k"] == "call" and x.get("opc") in ("*", "->")) and any(y["k"] == "ref" and y.get("d") in it for y in walk(x))]
        if not adv and deref:
            r.violation("hash-order:%s" % f["n"], loc(f, n), "%s uses whichever element a hash table yields first" % f["n"])
            return
    r.undecided(loc(f, n), "iterator over a hash table kept in a variable")


def shares(p, t, seen=()):
    t = t.strip_ref()
    if tmpl_of(t) in ("std::shared_ptr",):
        to = t.targs[0] if t.targs else None
        return not (to is not None and hasattr(to, "const") and to.const)
    if t.k in ("arr", "array") and t.to is not None:
        return shares(p, t.to, seen)
    if t.tmpl and t.targs:
        return any(hasattr(a, "k") and shares(p, a, seen) for a in t.targs)
    if t.rec and t.rec not in seen and t.rec in p.records:
        return any(shares(p, q["t"], seen + (t.rec,)) for q in p.all_fields(t.rec) or [])
    return False
