"""C09: every inner hash is the hash of its left child followed by its right child."""
from ..report import Report
from ..facts import walk
from .serial import *

PH = "utreexo::Accumulator::ParentHash"
HASHER = "utreexo::CSHA512"
ROOTS = "utreexo::Accumulator::m_roots"
NULLT = mk("null")
WORLDS = ("utreexo::Pollard", "utreexo::RamForest")


def last(n):
    return n.split("::")[-1]


# ------------------------------------------------------------ the parent hash itself
def hasher_models():
    """The hasher as the sequence of bytes written to it."""
    from .. import models

    def ctor(I, s, n, f, o, args):
        v = I.read(s, args[0]) if args and args[0].op == "lv" else args[0] if args else num(64)
        I.assign(s, o, struct({"#kind": v, "#n": ZERO, "#b": mk("aempty")}), n)
        return [(s, ZERO)]

    def state(I, s, o):
        v = I.read(s, o)
        return v if v.op == "struct" and v.args[0] is None or v.op == "struct" else None

    def write(I, s, n, f, o, args):
        v = state(I, s, o)
        a, cnt = args
        if v is None or cnt.op != "num" or a.op != "bp":
            I.note(n, "hasher input of unknown form")
            I.assign(s, o, I.fresh(n, "hasher"), n)
            return [(s, o)]
        c = models.read_bytes(I, s, n, a, cnt)
        k, b = fld(v, "#n"), fld(v, "#b")
        for i in range(cnt.args[0]):
            b = store(b, add(k, num(i)), 1, rdk(s, c, i) if cnt.args[0] > 1 else c, s.holds)
        I.assign(s, o, struct({"#kind": fld(v, "#kind"), "#n": add(k, cnt), "#b": b}), n)
        return [(s, o)]

    def reset(I, s, n, f, o, args):
        I.assign(s, o, struct({"#kind": num(64), "#n": ZERO, "#b": mk("aempty")}), n)
        return [(s, o)]

    def final(size):
        def go(I, s, n, f, o, args):
            v = state(I, s, o)
            x = mk("digest", size, v) if v is not None else I.fresh(n, "digest")
            models.write_bytes(I, s, n, args[0], num(size), x)
            return [(s, ZERO)]
        return go
    return {HASHER + "::CSHA512": ctor, HASHER + "::Write": write, HASHER + "::Finalize256": final(32), HASHER + "::Finalize": final(64),
            HASHER + "::Reset": reset}


def parent_hash(r, prog, eff):
    f = prog.fn(PH)
    r.analysed(f)
    I = Interp(prog, effects=eff)
    I.custom = hasher_models()
    where = "%s:%d %s" % (f["f"], f["l"], f["n"])
    ps = f["params"]
    ex = I.run(f)
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    for s, v in ex:
        if len(ps) == 3:
            out, (l, rt) = s.env.get(("a", ps[0]["n"])), [sym("in:" + p["n"]) for p in ps[1:]]
        else:
            out, (l, rt) = v, [sym("in:" + p["n"]) for p in ps[:2]]
        if out is None:
            out = sym("in:" + ps[0]["n"])
        d = out
        if d.op == "st" and is_num(d.args[1], 0) and d.args[2] == 32:
            d = d.args[3]
        if d.op != "digest":
            verdict(r, "no" if exact(d) and not I.notes and not has_op(d, {"ite"}) else None, "digest", where, "the parent is a digest", " (on a path with facts %s it is %s)" % (short_facts(s), d))
            continue
        size, h = d.args
        verdict(r, "yes" if size == 32 else "no", "digest", where, "the parent is a 256-bit digest")
        verdict(r, eqint(s, fld(h, "#kind"), num(32)), "variant", where, "the hasher is set up for SHA-512/256")
        n = fld(h, "#n")
        j = eqint(s, n, num(64))
        if verdict(r, j, "length", where, "64 bytes are hashed", " (%s)" % n) != "yes":
            continue
        j = "yes"
        bad = ""
        for i in range(64):
            x = rd(fld(h, "#b"), num(i), 1, s.holds)
            y = rdk(s, l if i < 32 else rt, i % 32)
            if x is y:
                continue
            k = eqint(s, x, y) if exact(x) else None
            if k != "yes":
                j, bad = ("no" if k == "no" or exact(x) and resolved(x) else None), " (byte %d is %s)" % (i, x)
                break
        verdict(r, j, "order", where, "the bytes hashed are the left hash followed by the right hash", bad)


# ------------------------------------------------------------ its uses
def untrunc(t):
    """Root lists are far shorter than 2^31."""
    for x in list(subterms(t)):
        if x.op == "trunc" and x.args[0] >= 16:
            t = replace(t, x, x.args[2])
    return t


def field_of(h):
    while h.op == "hst":
        h = h.args[0]
    return h.args[0] if h.op == "hb" else None


class Uses:
    def __init__(self, r, prog, eff):
        self.r = r
        self.prog = prog
        self.eff = eff
        self.hashf = set()
        self.ptrf = set()
        self.wrap = set()
        for rec in prog.records.values():
            for fl in rec["fields"]:
                t = fl["t"].strip_ref()
                if t.tmpl == "std::array" and "32" in str(t.s):
                    self.hashf.add(fl["q"])

    def opaque(self, f):
        return f.get("cls") == "utreexo::ForestState" and not f.get("ctor") or last(f["n"]) in ("Read", "ReadSiblings", "ReadLeafRange", "RestoreRoots")

    def holder(self, s, v):
        """Pointer to the object a hash value is read from."""
        return v.args[1] if v.op == "hsel" else None

    def samep(self, s, p, q):
        return p is q or s.holds(same(p, q))

    def niece(self, s, v):
        """(node whose niece's hash this is, index)"""
        p = self.holder(s, v)
        if p is None or p.op not in ("rd",):
            return None
        a, i = p.args[0], p.args[1]
        if a.op != "hsel" or i.op != "num":
            return None
        return a.args[1], i.args[0]

    def child(self, s, v):
        """(position, which child) of a hash read at a child position"""
        if v.op != "oval" or v.args[0].op != "call" or last(v.args[0].args[0]) != "Read":
            return None
        for a in v.args[0].args[1:]:
            if isinstance(a, T) and a.op == "call":
                m = last(a.args[0])
                if m == "Child" and len(a.args) >= 4 and a.args[3].op == "num":
                    return a.args[2], a.args[3].args[0]
                if m in ("LeftChild", "RightChild"):
                    return a.args[2], int(m == "RightChild")
        return None

    def root(self, I, s, k):
        """Hash value of the root k places from the end, in the current state."""
        R = hsel(I.heap(s, ROOTS), THISV, s.holds)
        p = s.norm(untrunc(rd(varr(R), sub(vsize(R), num(k)), 1, s.holds)))
        out = [p]
        return R, out

    def is_root(self, I, s, v, k):
        R, (p,) = self.root(I, s, k)
        v = untrunc(v)
        q = self.holder(s, v)
        if q is None:
            return False
        for c in (q, q.args[1] if q.op == "hsel" else None):
            if c is None:
                continue
            c = s.norm(c)
            if self.samep(s, c, p):
                return True
        return False

    def pair(self, I, s, l, r):
        a, b = self.niece(s, l), self.niece(s, r)
        if a and b:
            if not self.samep(s, a[0], b[0]):
                return ("no" if exact(l) and exact(r) and resolved(l) and resolved(r) else None), "they are children of different nodes"
            if (a[1], b[1]) == (0, 1):
                return "yes", ("node", a[0])
            return "no", "they are children %d and %d" % (a[1], b[1])
        a, b = self.child(s, l), self.child(s, r)
        if a and b:
            j = eqint(s, a[0], b[0])
            if j != "yes":
                return j, "they are children of different positions"
            if (a[1], b[1]) == (0, 1):
                return "yes", ("pos", a[0])
            return "no", "they are children %d and %d" % (a[1], b[1])
        if self.is_root(I, s, l, 2) and self.is_root(I, s, r, 1):
            return "yes", ("roots", None)
        for x in (1, 2, 3):
            for y in (1, 2, 3):
                if (x, y) != (2, 1) and self.is_root(I, s, l, x) and self.is_root(I, s, r, y):
                    return "no", "they are the roots %d and %d places from the end" % (x, y)
        return None, "%s, %s" % (l, r)

    def run(self, f, world):
        where0 = "%s:%d %s (%s)" % (f["f"], f["l"], f["n"], last(world))
        good = {}
        seen = []

        def ph(I, s, n, g, o, args):
            vs = [I.read(s, a) if a.op == "lv" else a for a in args]
            v = mk("call", PH, vs[-2], vs[-1])
            if I.rec:
                w = loc(I.fr.fn, n)
                j, why = self.pair(I, s, vs[-2], vs[-1])
                seen.append(w)
                if j == "yes":
                    good[v] = why
                    self.r.ob("children", w, "the two hashes are the left and the right child (%s)" % why[0])
                elif all(x.op == "sym" for x in vs[-2:]) and I.fr.fn is f:
                    self.wrap.add(f["n"])
                elif j == "no":
                    self.r.violation("children:%s" % I.fr.fn["n"], w, "not so: the hashes combined are those of the left and the right child in this order (%s)" % why)
                else:
                    self.r.undecided(w, "the hashes combined are those of the left and the right child (%s)" % (str(why)[:200]))
            if len(args) == 3:
                I.assign(s, args[0], v, n)
                return [(s, ZERO)]
            return [(s, v)]

        def hook(I, kind, s, n, kw):
            if kind == "call" and last(kw["f"]["n"]) == "MergeRoot":
                a = kw["args"][1]
                v = I.read(s, a) if a.op == "lv" else a
                w = loc(I.fr.fn, n)
                if v in good and good[v][0] == "roots":
                    self.r.ob("merge", w, "the new root's hash is that of the two roots merged")
                elif v.op == "call" and v.args[0] == PH:
                    pass
                elif exact(v) and not I.notes and not has_op(v, {"ite"}) or any(self.is_root(I, s, v, k) for k in (1, 2)):
                    self.r.violation("merge:%s" % I.fr.fn["n"], w, "the hash of a merged root is not computed from the two roots on a path with facts %s (it is %s)" % (short_facts(s), str(v)[:200]))
                else:
                    self.r.undecided(w, "the new root's hash is that of the two roots merged")
        I = Interp(self.prog, world=world, effects=self.eff, opaque=self.opaque, hook=hook)
        I.custom = {PH: ph}
        ex = I.run(f)
        for x in I.notes:
            self.r.undecided(where0, "not modelled: " + x)
        return I, ex, good, where0

    def rehash(self, f, world):
        """An operation that recomputes a node's own hash."""
        I, ex, good, where = self.run(f, world)
        for s, v in ex:
            wrote = False
            for q in sorted(self.hashf):
                h = s.env.get(("h", q))
                if h is None or h is hb(q):
                    continue
                while h.op == "hst":
                    p, x = h.args[1], h.args[2]
                    h = h.args[0]
                    wrote = True
                    why = good.get(x)
                    if why is None:
                        j = "no" if exact(x) and not (x.op == "call" and x.args[0] == PH) and not I.notes and not has_op(x, {"ite"}) else None
                        verdict(self.r, j, "value", where, "the hash stored is the parent hash of the children", " (path: %s; it is %s)" % (short_facts(s), str(x)[:200]))
                        continue
                    own = THISV
                    if why[0] == "node":
                        # own node and the sibling holding its children belong to the same object
                        ok = p.op == "hsel" and why[1].op == "hsel" and self.samep(s, p.args[1], why[1].args[1]) and field_of(p.args[0]) != field_of(why[1].args[0])
                        verdict(self.r, "yes" if ok else "no" if exact(p) and exact(why[1]) else None, "target", where, "the hash is stored in the node whose children were combined", " (%s, children of %s)" % (p, why[1]))
                    elif why[0] == "pos":
                        verdict(self.r, "yes" if p is own else None, "target", where, "the hash is stored in the node whose children were combined")
                        self.row(s, x, why[1], where)
                if h.op != "hb":
                    self.r.undecided(where, "which hashes are written")
                    wrote = True
            if not wrote:
                absent = any(x.op == "same" and NULLT in x.args or x.op == "not" and x.args[0].op == "ohas" for x in s.facts)
                j = "yes" if absent else "no" if all(exact(x) for x in s.facts) and not I.notes else None
                verdict(self.r, j, "skipped", where, "the hash is recomputed unless a child is missing", " (path: %s)" % short_facts(s))

    def row(self, s, x, pos, where):
        """The full forest's table holds the hash at the node's own position."""
        hs = [h for k, h in s.env.items() if k[0] == "h" and h.op == "hst" and h.args[2].op == "vec"]
        for h in hs:
            a = varr(h.args[2])
            if a.op == "st" and a.args[3].op == "vec":
                row, inner = a.args[1], varr(a.args[3])
                if inner.op == "st" and inner.args[3] is x:
                    ok = row.op == "call" and last(row.args[0]) == "DetectRow" and row.args[2] is pos
                    off = sub(pos, inner.args[1])
                    ok = ok and off.op == "call" and last(off.args[0]) == "RowOffset" and off.args[2] is pos
                    verdict(self.r, "yes" if ok else None, "row", where, "the table is updated at the node's own row and offset")
                    return
        if not hs:
            verdict(self.r, "no", "row", where, "the table is updated at the node's own row and offset")
        else:
            self.r.undecided(where, "the table is updated at the node's own row and offset")

    def merge(self, f, world):
        """An operation that replaces the last two roots by their parent."""
        where = "%s:%d %s" % (f["f"], f["l"], f["n"])
        I = Interp(self.prog, world=world, effects=self.eff, opaque=self.opaque)
        ex = I.run(f)
        for x in I.notes:
            self.r.undecided(where, "not modelled: " + x)
        hp = [p for p in f["params"] if "array" in str(p["t"].s) or "Hash" in str(p["t"].s)]
        want = sym("in:" + hp[0]["n"])
        old = hsel(hb(ROOTS), THISV)
        n = vsize(old)
        for s, v in ex:
            R = hsel(I.heap(s, ROOTS), THISV, s.holds)
            verdict(self.r, eqint(s, vsize(R), sub(n, ONE)), "merged", where, "two roots become one")
            p = s.norm(rd(varr(R), sub(vsize(R), ONE), 1, s.holds))
            q = p
            # the object holding the hash: the node itself or what it points to
            hs = []
            for fq in sorted(self.hashf):
                h = s.env.get(("h", fq))
                while h is not None and h.op == "hst":
                    hs.append((fq, h.args[1], h.args[2]))
                    h = h.args[0]
            ptr = [x for x in [p] + [hsel(h, p, s.holds) for k, h in s.env.items() if k[0] == "h"] if any(x is o for _, o, _ in hs)]
            vals = [x for _, o, x in hs if o in ptr]
            if not vals:
                self.r.undecided(where, "the hash of the merged root")
                continue
            for x in vals:
                verdict(self.r, "yes" if x is want else "no" if exact(x) and not I.notes and not has_op(x, {"ite"}) else None, "stored", where, "the merged root holds the hash computed for it", " (it is %s)" % (x,))
            # children hang in order, where they are kept
            for k, h in s.env.items():
                if k[0] != "h":
                    continue
                for o in ptr:
                    a = hsel(h, o, s.holds)
                    if a.op != "st" and not (a.op == "arrval"):
                        continue
                    for i in (0, 1):
                        x = rd(a, num(i), 1, s.holds)
                        if x is NULLT or not x.op == "hsel" and x.op != "rd":
                            continue
                        side = self.side(x, old, n)
                        if side is not None:
                            verdict(self.r, "yes" if side == i else "no", "hung", where, "the %s child hangs on the %s" % ((("left", "right")[i],) * 2))

    def side(self, x, old, n):
        """0/1 if x is (the node of) the left/right of the last two roots."""
        for c in (x, x.args[1] if x.op == "hsel" else None):
            if c is not None and c.op == "rd" and c.args[0] is varr(old):
                d = sub(n, c.args[1])
                if is_num(d, 1) or is_num(d, 2):
                    return 2 - d.args[0]
        return None


def callers(prog, names):
    out = []
    for f in prog.functions.values():
        if f.get("body") is None or f.get("lambda"):
            continue
        for x in walk(f["body"]):
            if x["k"] == "call" and x["fn"]["n"] in names:
                out.append(f)
                break
    return out


def check(tier):
    r = Report("C09", tier,
               "Abstract interpretation over value terms. The parent hash is, on every path, the 256-bit digest of exactly the 32 bytes "
               "of the left hash followed by the 32 bytes of the right one. At every place where it is used, the two hashes are proved to "
               "be those of child 0 and child 1 of one node (or of the last but one and the last root), and every operation that "
               "recomputes a hash stores exactly that value in that node unless a child is missing.",
               ["the hasher digests the bytes written to it (C10)", "there are fewer than 2^15 roots"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        parent_hash(r, prog, eff)
        u = Uses(r, prog, eff)
        names = {PH}
        done = set()
        over = {g["key"] for g in prog.functions.values() if last(g["n"]) == "ReHash" and g.get("cls", "").endswith("::Node")}
        todo = callers(prog, names) + [prog.functions[k] for k in over]
        while todo:
            f = todo.pop()
            if f["key"] in done or f["n"] == PH:
                continue
            done.add(f["key"])
            r.analysed(f)
            cls = f.get("cls") or ""
            ws = [w for w in WORLDS if cls.startswith(w)] or WORLDS
            ret = f.get("ret")
            for w in ws:
                if cls.endswith("::Node") and ret is not None and ret.k == "void" and (f["key"] in over or not f["params"]):
                    u.rehash(f, w)
                else:
                    u.run(f, w)
            if f["n"] in u.wrap:
                names.add(f["n"])
                todo += callers(prog, names)
        for f in prog.functions.values():
            if last(f["n"]) == "MergeRoot" and f.get("body") is not None:
                r.analysed(f)
                u.merge(f, [w for w in WORLDS if (f.get("cls") or "").startswith(w)][0])
    return r
