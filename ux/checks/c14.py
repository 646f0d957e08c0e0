"""C14: the forest file is read back as written, and no I/O failure is silent."""
from ..facts import AnalysisError
from ..report import Report
from ..interp import *
from ..models import read_bytes, write_bytes, objs, STREAMS
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .c04 import N, THISV, last

ROWS = "utreexo::RamForest::m_data"
LOG, PEND, DIRT = ("G", "$log"), ("G", "$pend"), ("G", "$dirt")
CLEAN, OPEN, LOST = mk("clean"), mk("open"), mk("lost")
TRUNC = 0x20
OPAQUE = ("RestoreRoots", "Read", "ParentHash", "MergeRoot", "Add", "Remove", "Modify", "SwapRange", "UpdatePositionMapForRange")


def io(log):
    return mk("io", log)


class Streams(Interp):
    """Adds to the interpreter what was done to a member stream: the sequence of operations, whether one is still unchecked, and
    whether something written has not been flushed."""

    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.ghost = {LOG: mk("lnil"), PEND: CLEAN, DIRT: CLEAN}

    def settled(self, s):
        if s.env[PEND] is not OPEN:
            return s.env[PEND] is CLEAN
        log = s.env[LOG]
        if s.holds(io(log)):
            return True
        e = log.args[1] if log.op == "lapp" else log
        if e.op == "lrep":
            e = e.args[2][-1]
        return e.op == "ev" and e.args[0] == "read" and s.holds(eq0(sub(mk("call", "gcount", log, ty=(False, 62)), e.args[1])))

    def event(self, s, e, pend=True):
        if self.settled(s):
            s.env[PEND] = CLEAN
        s.env[LOG] = lapp(s.env[LOG], e)
        if pend and s.env[PEND] is CLEAN:
            s.env[PEND] = OPEN

    def tracked(self, s, lv):
        return lv.op == "lv" and lv.args[0] == OBJ

    def stream(self, st, n, m, opc, want_lv):
        out = []
        for s, lv in self.lv(st, n["obj"]) if not n.get("arrow") else objs(self, st, n):
            if lv.op == "lv":
                lv = self.canon(s, lv)
            for s2, vs in self.evs(s, n["args"]):
                v = self.op(s2, n, m, opc, lv, vs)
                if v is None:
                    v = lv if want_lv and n.get("lv") else self.fresh(n, "strm")
                out.append((s2, v))
        return out

    def op(self, s, n, m, opc, lv, vs):
        t = self.tracked(s, lv)
        if opc == "=" or m in ("open", "swap"):
            fl = [v for v in vs if v.op == "strm"] if opc == "=" else [mk("strm", *vs)] if m == "open" else []
            if t:
                s.env[LOG] = lapp(mk("lnil"), mk("ev", "open", fl[0] if fl else self.fresh(n, "strm")))
                s.env[PEND] = OPEN
                s.env[DIRT] = CLEAN
            return None
        if m in ("operator bool", "operator!", "good", "fail") or m.startswith("operator bool"):
            v = io(s.env[LOG]) if t else mk("io", mk("strmof", self.fresh(n, "strm")))
            return not_(v) if m in ("operator!", "fail") else v
        if m == "bad":
            ws = [x for x in subterms(s.env[LOG]) if x.op == "ev" and x.args[0] == "read"] if t else [1]
            return self.fresh(n, "bad") if ws else not_(io(s.env[LOG]))
        if m in ("eof", "is_open", "tellg", "tellp", "rdstate"):
            return self.fresh(n, m, n.get("t"))
        if m == "gcount":
            return mk("call", "gcount", s.env[LOG], ty=(False, 62)) if t else self.fresh(n, m, n.get("t"))
        if not t:
            for a in vs:
                if a.op == "bp" and m == "read":
                    write_bytes(self, s, n, a, None, self.fresh(n, "rd"))
            return None
        if m in ("seekg", "seekp"):
            start = vs and vs[0] is ZERO and (len(vs) == 1 or vs[1] is ZERO)
            self.event(s, mk("ev", "seek", ZERO if start else self.fresh(n, "pos")), pend=False)
        elif m == "read" and len(vs) == 2:
            chunk = mk("inp", (self.fr.id, self.nid(n)), self.kap)
            write_bytes(self, s, n, vs[0], vs[1], chunk)
            self.event(s, mk("ev", "read", vs[1], chunk))
        elif m == "write" and len(vs) == 2:
            self.event(s, mk("ev", "write", vs[1], read_bytes(self, s, n, vs[0], vs[1])))
            s.env[DIRT] = OPEN
        elif m in ("flush", "sync", "close") or opc == "<<" and "flush" in str(n["args"])[:2000]:
            self.event(s, mk("ev", "flush"))
            s.env[DIRT] = CLEAN
        elif m == "clear" and all(v is ZERO for v in vs):
            if not self.settled(s):
                s.env[PEND] = LOST
            s.env[LOG] = lapp(s.env[LOG], mk("ev", "clear"))
        else:
            self.note(n, "stream operation " + m)
            self.event(s, mk("ev", "other", self.fresh(n, "op")))
        return None

    def stream_ctor(self, st, n):
        return [(s, mk("strm", *vs)) for s, vs in self.evs(st, n["args"])]

    # ---- loops
    def loop_rest(self, st0, n, cond, body, inc, pre=None):
        if self.settled(st0) and st0.env[PEND] is not CLEAN:
            st0 = st0.copy()
            st0.env[PEND] = CLEAN
        return Interp.loop_rest(self, st0, n, cond, body, inc, pre)

    def generalise(self, st0, h, back, head, kap, uid, forced, rnd):
        for b in back:
            if b.env[PEND] is OPEN and self.settled(b):
                b.env[PEND] = CLEAN
        self.backs = back
        return Interp.generalise(self, st0, h, back, head, kap, uid, forced, rnd)

    def subseq(self, y, x, b):
        """Is y the sequence x in state b, where some repetitions happen zero times?"""
        y = list(y)
        for e in x:
            if y and y[0] is e:
                y.pop(0)
            elif not (e.op == "lrep" and b.holds(le0(e.args[0]))):
                return False
        return not y

    def gen(self, k, path, e, cur, bs, kap, uid, forced, shift):
        if k == LOG:
            want = subst(cur, shift)
            if all(b is want for b in bs):
                return cur
            els = [strip_to(b, cur) for b in bs]
            items = folded(want, kap)
            if items is not None and all(b is want or y is not None and self.subseq(y, items, x) for b, y, x in zip(bs, els, self.backs)):
                return cur
            x = max((y for y in els if y is not None), key=len, default=None)
            if x is not None and all(y is not None and self.subseq(y, x, b) for y, b in zip(els, self.backs)):
                return lapp(e, lrep(kap, kap, x)) if x else e
            return self.phi_of(k, e, uid, path, kap)
        if k in (PEND, DIRT):
            vs = set(bs) | {cur}
            if len(vs) == 1:
                return cur
            for v in (LOST, OPEN):
                if v in vs:
                    return v
            return self.phi_of(k, e, uid, path, kap)
        return Interp.gen(self, k, path, e, cur, bs, kap, uid, forced, shift)


def strip_to(b, cur):
    out = []
    while b is not cur:
        if b.op != "lapp":
            return None
        out.append(b.args[1])
        b = b.args[0]
    return tuple(reversed(out))


def flat_log(t):
    out = []
    while t.op == "lapp":
        out.append(t.args[1])
        t = t.args[0]
    return t, out[::-1]


def bv_of(r):
    return mk("bv", r.args[1])


class Layout:
    """Compares a sequence of operations with the layout of the file."""

    def __init__(self, s, kind):
        self.s, self.kind = s, kind
        self.bad = self.unsure = None

    def fail(self, text, sure=True):
        if sure and self.bad is None:
            self.bad = text
        elif not sure and self.unsure is None:
            self.unsure = text
        return False

    def same_num(self, a, b):
        return a is b or self.s.holds(eq0(sub(a, b)))

    def differ(self, a, b):
        d = sub(a, b)
        if d.op == "num":
            return d.args[0] != 0
        # different for some row or some hash of a row
        return all(x.op == "bv" for x in dec(d)[1])

    def check(self, log, leaves, rows):
        base, els = flat_log(log)
        if base.op != "lnil":
            return self.fail("the sequence of stream operations is not known", False)
        if self.kind == "read":
            if els and els[0].op == "ev" and els[0].args[0] == "open":
                f = els[0].args[1]
                if f.op == "strm" and len(f.args) > 1 and f.args[1].op == "num" and f.args[1].args[0] & TRUNC:
                    return self.fail("the file is truncated when it is opened for reading")
                els = els[1:]
            else:
                return self.fail("the stream read from was not opened here", False)
            if els and els[0].op == "ev" and els[0].args[0] == "seek":
                if els[0].args[1] is not ZERO:
                    return self.fail("reading starts at an unknown position", False)
                els = els[1:]
        else:
            pos = None
            while els and els[0].op == "ev" and els[0].args[0] in ("open", "clear", "seek"):
                if els[0].args[0] != "clear":
                    pos = ZERO if els[0].args[0] == "open" else els[0].args[1]
                els = els[1:]
            if pos is None:
                return self.fail("writing does not start at the beginning of the file")
            if pos is not ZERO:
                return self.fail("writing starts at an unknown position", False)
        els = [e for e in els if not (e.op == "ev" and e.args[0] in ("flush", "clear"))]
        if not els:
            return self.fail("nothing is %s" % ("written" if self.kind == "write" else "read"))
        if any(x.op == "ev" and x.args[0] in ("seek", "other", "open") for e in els for x in subterms(e)):
            return self.fail("the position is changed in between", False)
        if any(x.op == "ev" and x.args[0] not in (self.kind, "flush") for e in els for x in subterms(e)):
            return self.fail("reads and writes are mixed", False)
        # the leaf count
        e = els[0]
        if e.op != "ev":
            return self.fail("the file does not start with the leaf count", exact(e))
        if not is_num(e.args[1], 8):
            return self.fail("the leaf count takes %s bytes" % e.args[1], e.args[1].op == "num")
        if self.kind == "write":
            v = e.args[2]
            want = wrle(8, bswap(8, leaves))
            if v is not want and not (v.op == "wrbe" and v.args[0] == 8 and self.same_num(v.args[1], leaves)):
                known = v.op in ("wrle", "wrbe", "num") and exact(v)
                return self.fail("the file starts with %s instead of the big-endian leaf count" % str(v)[:100], known)
        else:
            want = rdbe(8, e.args[2])
            if leaves is not want and not self.same_num(leaves, want):
                known = exact(leaves) and e.args[2] in set(subterms(leaves))
                return self.fail("the leaf count of an opened forest is not the big-endian number at the start of its file", known)
        # the rows
        rest = els[1:]
        if not rest and is_num(leaves, 0):
            return True
        if not rest and self.s.holds(eq0(leaves)):
            return True
        if len(rest) != 1 or rest[0].op != "lrep":
            return self.fail("the rows are not one loop over rows", False)
        R = rest[0]
        cnt, _, body = R.args
        row = bv_of(R)
        if len(body) != 1:
            return self.fail("a row is not one loop over its hashes", False)
        B = body[0]
        if B.op != "lrep":
            if B.op == "ev" and is_num(B.args[1], 32):
                return self.fail("one hash is %s per row instead of all of them" % ("written" if self.kind == "write" else "read"))
            return self.fail("a row is not one loop over its hashes", False)
        n, _, inner = B.args
        j = bv_of(B)
        want = shr(leaves, row)
        if not (n is want or self.same_num(n, want)):
            if n.op == "shr" and n.args[0] is leaves and self.differ(n.args[1], row):
                return self.fail("the number of hashes of row r is leaves >> (%s)" % str(sub(n.args[1], row)) + " + r")
            d = sub(n, want)
            return self.fail("a row has %s hashes instead of leaves >> row" % str(n)[:80], d.op == "num" or n.op == "num" or n is leaves)
        if len(inner) != 1 or inner[0].op != "ev":
            return self.fail("a hash is not one operation", False)
        x = inner[0]
        if not is_num(x.args[1], 32):
            return self.fail("a hash takes %s bytes" % x.args[1], x.args[1].op == "num")
        # all rows?
        if not self.s.holds(eq0(shr(leaves, cnt))):
            nr = [y for y in subterms(cnt) if y.op == "call" and last(y.args[0]) == "NumRows" and y.args[1] is leaves]
            d = sub(cnt, nr[0]) if nr else None
            if d is not None and d.op == "num" and d.args[0] >= 1:
                pass
            elif d is not None and d.op == "num":
                return self.fail("only rows up to NumRows() - %d are in the file" % (1 - d.args[0]))
            elif any(f.op == "le" and 0 < -dec(f.args[0])[0] and dec(f.args[0])[1] == {shr(leaves, cnt): 1} for f in self.s.facts):
                return self.fail("reading and writing rows stops before the last row that has a hash")
            elif cnt.op == "num" and cnt.args[0] >= 64:
                pass
            elif cnt.op == "num":
                return self.fail("only the first %d rows are in the file" % cnt.args[0])
            else:
                return self.fail("not shown that all rows are in the file (%s)" % str(cnt)[:100], False)
        if self.kind == "write":
            want = rd(varr(rd(varr(rows), row, 1)), j, 1)
            v = x.args[2]
            if v is not want:
                if v.op == "rd" and v.args[0].op == "arr" and v.args[0].args[0].op == "rd" and v.args[0].args[0].args[0] is varr(rows):
                    r2, j2 = v.args[0].args[0].args[1], v.args[1]
                    return self.fail("hash j of row r in the file is hash %s of row %s" % (str(j2)[:60], str(r2)[:60]),
                                     self.differ(r2, row) or self.differ(j2, j))
                return self.fail("the hashes of the file are not those of the forest: %s" % str(v)[:100], False)
        return True


def opaque(f):
    if f.get("cls") == "utreexo::ForestState":
        return not f.get("ctor")
    return last(f["n"]) in OPAQUE or f["n"].startswith("utreexo::_")


def check(tier):
    r = Report("C14", tier,
               "Abstract interpretation of saving and of opening a forest with the sequence of stream operations as an additional "
               "component of the state (loops are summarised as repetitions): the sequence is compared with the file layout, every "
               "read is followed by a test of the stream before its bytes can matter to a successful exit, and saving reports success "
               "only where the stream was tested after the last write and a flush.",
               ["NumRows() is the smallest r with leaves <= 2^r", "a stream keeps its failure state until cleared"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        fs = [f for f in prog.functions.values() if f.get("cls") == "utreexo::RamForest" and f.get("body") is not None and "~" not in f["n"]]
        opens = [f for f in fs if f.get("ctor") and not f.get("implicit") and any(not p["t"].strip_ref().is_int for p in f["params"])]
        saves = [f for f in fs if last(f["n"]) == "Commit"]
        if not opens:
            r.undecided("utreexo::RamForest", "no constructor from a file name found")
        if not saves:
            r.undecided("utreexo::RamForest", "no operation that saves the forest found")
        for f in opens:
            run(r, prog, eff, f, True)
        for f in saves:
            run(r, prog, eff, f, False)
    return r


def run(r, prog, eff, f, opening):
    r.analysed(f)
    where, who = "%s:%d %s" % (f["f"], f["l"], f["n"]), f["n"]
    P = Placed(r, who)
    I = Streams(prog, world=f["cls"], effects=eff, opaque=opaque, hook=P.hook)
    try:
        ex = I.run(f)
    except (AnalysisError, Limit) as e:
        r.undecided(where, str(e))
        return
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    sure = not I.notes
    seen = set()
    for s, val in ex:
        ok = TRUE if opening else I.tobool(val)
        if s.refuted(ok):
            r.ob("failure reported", where, "this path reports failure")
            continue
        if not s.holds(ok):
            s = s.copy()
            s.assume(ok)
        log = s.env[LOG]
        evs = [x for x in subterms(log) if x.op == "ev"]
        reads = [x for x in evs if x.args[0] == "read"]
        writes = [x for x in evs if x.args[0] == "write"]
        known = sure and not has_op(log, {"phi", "unk"})
        leaves = hsel(s.env.get(("h", N), hb(N)), THISV)
        rows = hsel(hb(ROWS), THISV)
        if not opening and not writes:
            if known:
                r.violation("nothing:" + who, where, "reports success without writing anything")
            else:
                r.undecided(where, "not shown that anything is written")
            continue
        if opening and not reads and not writes:
            r.undecided(where, "a forest is opened without reading or writing its file")
            continue
        if I.settled(s):
            r.ob("tested", where, "the stream was found good after the last operation")
        elif known and s.env[PEND] in (OPEN, LOST):
            if reads and opening:
                r.violation("unchecked-read:" + who, where, "a forest is built although a read may have failed")
            else:
                r.violation("unchecked-write:" + who, where, "success is reported although a write or the flush may have failed")
        else:
            r.undecided(where, "not shown that the stream was tested")
        if writes:
            if s.env[DIRT] is CLEAN:
                r.ob("flushed", where, "everything written is flushed before success is reported")
            elif known and s.env[DIRT] is OPEN:
                r.violation("unflushed:" + who, where, "success is reported before what was written is flushed")
            else:
                r.undecided(where, "not shown that everything is flushed")
        L = Layout(s, "read" if reads else "write")
        if L.check(log, leaves, rows):
            r.ob("layout", where, "%s: leaf count, then every row's hashes" % ("reads" if reads else "writes"))
        elif L.bad and known:
            r.violation("layout:" + who, where, L.bad)
        else:
            r.undecided(where, "layout: %s" % (L.bad or L.unsure))
    P.done(where, sure)


class Placed:
    """Hashes that are read go to the end of (or to their index in) their row."""

    def __init__(self, r, who):
        self.r, self.who = r, who
        self.found = []

    def hook(self, I, kind, st, n, kw):
        if kind != "loop":
            return
        kap, head, entry = kw["kap"], kw["head"], kw["entry"]
        for b in kw["back"]:
            hl = head.get(LOG, entry.env[LOG])
            els = strip_to(b.env[LOG], hl)
            if els is None:
                # folded: the last repetition is one longer
                els = folded(b.env[LOG], kap)
            if not els or len(els) != 1 or els[0].op != "ev" or els[0].args[0] != "read" or not is_num(els[0].args[1], 32):
                continue
            chunk = els[0].args[2]
            k = ("h", ROWS)
            hv = hsel(head.get(k, entry.env.get(k, hb(ROWS))), THISV)
            nv = hsel(b.env.get(k, hb(ROWS)), THISV)
            self.found.append((placed(b, hv, nv, chunk, kap), loc(I.fr.fn, n), kap))

    def done(self, where, sure):
        for (ok, text), w, kap in self.found:
            if ok:
                self.r.ob("stored", w, text)
            elif ok is False and sure:
                self.r.violation("stored:" + self.who, w, text)
            else:
                self.r.undecided(w, text)


def folded(log, kap):
    if log.op == "lapp" and log.args[1].op == "lrep":
        n, d, items = log.args[1].args
        if sub(n, kap) is ONE:
            return tuple(subst(x, {mk("bv", d): kap}) for x in items)
    return None


def placed(s, hv, nv, chunk, kap):
    a0, a1 = varr(hv), varr(nv)
    if a1.op != "st" or a1.args[0] is not a0:
        return None, "where a hash that was read is stored is not known"
    row, v = a1.args[1], a1.args[3]
    old = rd(a0, row, 1)
    outer = kap.args[1][-1] if kap.args[1] else None
    if outer is not None:
        d = sub(row, outer)
        if d.op == "num" and d.args[0] != 0:
            return False, "the hashes of row r of the file are stored in row r + %d" % d.args[0]
        if d is not ZERO:
            return None, "the row a hash is stored in is not known"
    x = varr(v)
    if x.op == "ains" and x.args[0] is varr(old) and x.args[1] is ZERO:
        return False, "a hash that is read is put in front of those read before it"
    if x.op != "st" or x.args[0] is not varr(old):
        return None, "where in its row a hash is stored is not known"
    ix, val = x.args[1], x.args[3]
    if val is not chunk:
        return None, "what is stored is not what was read: %s" % str(val)[:80]
    if ix is vsize(old) or ix is kap:
        return True, "hash number j of row r of the file becomes hash j of row r"
    d = sub(ix, kap)
    if d.op == "num":
        return False, "hash j of a row is stored at index j + %d" % d.args[0]
    return None, "index of a stored hash: %s" % str(ix)[:80]
