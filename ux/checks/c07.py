"""C07: the byte layout of proofs and undo records, decided on the value of the written buffer and of the parsed fields."""
from ..report import Report
from .serial import *


def layout(st, arr, parts, rep, where, key):
    """Buffer contents against a list of (text, offset, count or None, width, chunk(i))."""
    for text, off, cnt, w, val in parts:
        if cnt is None:
            s, i, o = st, None, off
        else:
            s, i, ok = ivar(st, "idx", cnt)
            o = add(off, scale(i, w))
            if not ok:
                continue
        j = "yes"
        v = val(i)
        for k in range(w):
            x = rd(arr, add(o, num(k)), 1, s.holds)
            y = rdk(s, v, k)
            if x is y or s.holds(eq0(sub(x, y))) or expand(x) is expand(y):
                continue
            if not exact(x):
                j = None
                break
            if has_op(x, {"uninit"}) or resolved(x):
                j = "no"
                break
            j = None
        verdict(rep, j, "%s:%s" % (key, text), where, "%s (%d bytes at offset %s) in the specified encoding" % (text, w, off))


def check(tier):
    r = Report("C07", tier,
               "Abstract interpretation over value terms: the buffer each Serialize leaves behind is computed as a term (length and, for "
               "every offset and every element index, the byte stored there) and compared with the specified layout; the fields each "
               "Unserialize leaves behind are compared, element by element for a symbolic index, with the specified decoding; "
               "constructors and equality are compared field by field.",
               ["integers are unbounded below 2^62 for container sizes", "std containers behave as specified"])
    for config in ("release",) + (("ndebug", "verify") if tier == "thorough" else ()):
        prog, eff = program(config)
        F = fields(prog, eff)
        at = lambda f: hsel(hb(F[f]), THISV)
        # --- writing
        mem = Mem(r, "serialize")
        for name, head, lists in (
                (BP + "::Serialize", [("target count", vsize(at("targets"))), ("hash count", vsize(at("proof")))], ("targets", "proof")),
                (UB + "::Serialize", [("addition count", at("adds")), ("deletion count", vsize(at("positions")))], ("positions", "hashes"))):
            f, I, ex = analyse(r, prog, eff, name, hook=mem)
            where = "%s:%d %s" % (f["f"], f["l"], name)
            narrow_offsets(r, f)
            ints, hashes = at(lists[0]), at(lists[1])
            n, p = vsize(ints), vsize(hashes)
            for s, _ in ex:
                out = s.env.get(("a", f["params"][0]["n"]), sym("in:" + f["params"][0]["n"]))
                verdict(r, eqint(s, vsize(out), add(num(8), add(scale(n, 4), scale(p, 32)))), "length:" + name, where,
                        "the buffer has 8 + 4*%s + 32*%s bytes" % lists)
                layout(s, varr(out), [
                    (head[0][0], ZERO, None, 4, lambda i: wrbe(4, head[0][1])),
                    (head[1][0], num(4), None, 4, lambda i: wrbe(4, head[1][1])),
                    ("positions", num(8), n, 4, lambda i: wrbe(4, rd(varr(ints), i, 1))),
                    ("hashes", add(num(8), scale(n, 4)), p, 32, lambda i: rd(varr(hashes), i, 1))], r, where, "layout:" + name)
        # --- reading
        for name, first, lists in ((BP + "::Unserialize", None, ("targets", "proof")), (UB + "::Unserialize", "adds", ("positions", "hashes"))):
            f, I, ex = analyse(r, prog, eff, name)
            where = "%s:%d %s" % (f["f"], f["l"], name)
            arr = varr(sym("in:" + f["params"][0]["n"]))
            be = lambda o: mk("rdbe", 4, rd(arr, o, 4))
            n = be(num(4)) if first else be(ZERO)
            p = be(num(4))
            acc = 0
            for s, v in ex:
                if v is FALSE:
                    continue
                if v is not TRUE and v is not None:
                    s = s.copy()
                    if not s.assume(I.tobool(v)):
                        continue
                acc += 1
                if first:
                    verdict(r, eqint(s, final(s, F[first]), be(ZERO)), "decode:%s:%s" % (name, first), where, "the addition count is bytes 0..3, big-endian")
                verdict(r, eqseq(s, final(s, F[lists[0]]), n, lambda i: be(add(num(8), scale(i, 4)))), "decode:%s:%s" % (name, lists[0]), where,
                        "element i of the positions is the big-endian 32-bit value at offset 8+4i")
                verdict(r, eqseq(s, final(s, F[lists[1]]), p, lambda i: rd(arr, add(add(num(8), scale(n, 4)), scale(i, 32)), 32), 32),
                        "decode:%s:%s" % (name, lists[1]), where, "hash i is the 32 bytes behind the positions")
                if not first:
                    got = final(s, F["sorted"])
                    want = final(s, F["targets"])
                    verdict(r, sorted_of(got, want),
                            "decode:%s:sorted" % name, where, "the sorted targets are the decoded targets in ascending order")
            if not acc:
                r.undecided(where, "no accepting path found")
        # --- construction and equality
        for name, np, vals in ((BP + "::BatchProof", 2, ("targets", "proof")), (UB + "::UndoBatch", 3, ("adds", "positions", "hashes"))):
            f, I, ex = analyse(r, prog, eff, name, nparams=np)
            where = "%s:%d %s" % (f["f"], f["l"], name)
            for s, _ in ex:
                for fl, prm in zip(vals, f["params"]):
                    got, want = final(s, F[fl]), sym("in:" + prm["n"])
                    verdict(r, "yes" if got is want else "no" if exact(got) and got.op in ("hsel", "vec", "sym", "sorted", "lin", "num", "trunc") else None,
                            "construct:%s:%s" % (name, fl), where, "the %s are stored as given" % fl)
                if np == 2:
                    got = final(s, F["sorted"])
                    verdict(r, sorted_of(got, sym("in:" + f["params"][0]["n"])),
                            "construct:%s:sorted" % name, where, "the sorted targets are the given targets in ascending order")
        for name, need in ((BP + "::operator==", ("targets", "proof")), (UB + "::operator==", ("adds", "positions", "hashes"))):
            f, I, ex = analyse(r, prog, eff, name)
            where = "%s:%d %s" % (f["f"], f["l"], name)
            for s, v in ex:
                for val in (True, False):
                    s2 = s.copy()
                    b = I.tobool(v)
                    if not s2.assume(b if val else not_(b)):
                        continue
                    other = lambda fl: fld(sym("in:" + f["params"][0]["n"]), F[fl])
                    lits = [same(at(fl), other(fl)) if fl != "adds" else eq0(sub(at(fl), other(fl))) for fl in need]
                    if val:
                        for fl, l in zip(need, lits):
                            verdict(r, "yes" if s2.holds(l) else "no" if exact(l) and not I.notes and not any(has_op(x, {"all", "or"}) for x in s2.facts) else None,
                                    "equality:%s:%s" % (name, fl), where, "objects that compare equal have equal %s" % fl)
                    else:
                        bad = all(s2.copy().assume(l) for l in lits[:1]) and _jointly(s2, lits, F, at, other)
                        verdict(r, "yes" if not bad else None, "equality:%s:differs" % name, where, "objects with the same contents compare equal")
    return r


def _jointly(s, lits, F, at, other):
    """Could the objects be equal in a state in which the comparison said no?"""
    s = s.copy()
    for l in lits:
        if not s.assume(l):
            return False
    return s.assume(same(at("sorted"), other("sorted")))
