"""Shared by C07 and C08: the serialised objects, their fields (found through the public getters) and the byte layout."""
from ..facts import walk, fn_nodes
from ..interp import *
from ..terms import *
from ..vc import *

BP, UB = "utreexo::BatchProof", "utreexo::UndoBatch"
THISV = mk("this")


def getter_field(prog, eff, name):
    """The data member a getter returns."""
    f = prog.fn(name)
    I = Interp(prog, effects=eff)
    fs = set()
    for s, v in I.run(f):
        if v is not None and v.op == "lv":
            v = I.read(s, v)
        if v is None or v.op != "hsel" or v.args[0].op != "hb" or v.args[1] is not THISV:
            raise AnalysisError("%s does not return a data member" % name)
        fs.add(v.args[0].args[0])
    if len(fs) != 1:
        raise AnalysisError("%s does not return one data member" % name)
    return fs.pop()


def fields(prog, eff):
    return {
        "targets": getter_field(prog, eff, BP + "::GetTargets"),
        "sorted": getter_field(prog, eff, BP + "::GetSortedTargets"),
        "proof": getter_field(prog, eff, BP + "::GetHashes"),
        "adds": getter_field(prog, eff, UB + "::GetNumAdds"),
        "positions": getter_field(prog, eff, UB + "::GetDeletedPositions"),
        "hashes": getter_field(prog, eff, UB + "::GetDeletedHashes"),
    }


class Mem:
    """Collects the bounds obligations of raw and indexed accesses."""

    def __init__(self, rep, prefix):
        self.rep = rep
        self.prefix = prefix
        self.seen = {}

    def __call__(self, I, kind, st, n, kw):
        if kind == "mem":
            p, cnt = kw["p"], kw["cnt"]
            lv, size, off = p.args
            if size == "v":
                size = vsize(I.read(st, lv))
            elif isinstance(size, str) and not size[1:].isdigit():
                return
            elif isinstance(size, str):
                size = num(int(size[1:]))
            elif isinstance(size, int):
                size = num(size)
            if size is None:
                return
            self.need(I, st, n, and_(le(ZERO, off), le(add(off, cnt), size)), "%s of %s byte(s) at offset %s" % ("write" if kw["w"] else "read", cnt, off), size)
        elif kind == "index":
            i, size = kw["i"], kw["size"]
            self.need(I, st, n, and_(le(ZERO, i), lt(i, size)), "element %s" % (i,), size)

    def need(self, I, st, n, b, what, size):
        w = loc(I.fr.fn, n)
        j = judge(st, b)
        if j == "yes":
            self.rep.ob("access inside its buffer", w, "%s of %s is proved inside" % (what, size))
        elif j == "no":
            self.rep.violation("%s:bounds:%s:%s" % (self.prefix, I.fr.fn["n"], what.split(" ")[0]), w,
                               "%s is not inside the buffer of size %s on a path with facts %s" % (what, size, short_facts(st, b)))
        else:
            self.rep.undecided(w, "%s inside %s" % (what, size))


def short_facts(st, b=None):
    fs = list(st.facts)
    return "; ".join(str(f)[:90] for f in fs[-8:])


def analyse(rep, prog, eff, name, hook=None, opaque=None, nparams=1):
    f = prog.fn(name, nparams=nparams)
    rep.analysed(f)
    I = Interp(prog, effects=eff, hook=hook, opaque=opaque or (lambda g: False))
    ex = I.run(f)
    for x in I.notes:
        rep.undecided(name, "not modelled: %s" % x)
    rep.count("paths", len(ex))
    return f, I, ex


def verdict(rep, j, key, where, text, why=""):
    if j == "yes":
        rep.ob(key.split(":")[0], where, text)
    elif j == "no":
        rep.violation(key, where, "not so: " + text + why)
    else:
        rep.undecided(where, text + why)
    return j


def ivar(st, name, n, first=False):
    """A state with an index below n: any, or (first) the only one."""
    s = st.copy()
    if first:
        return s, ZERO, s.assume(eq0(sub(n, ONE)))
    i = sym("i:" + name, (False, 62))
    return s, i, s.assume(lt(i, n))


def both(a, b):
    return "no" if "no" in (a, b) else None if None in (a, b) else "yes"


def eqseq(st, got, size, elem, width=1, name="i", first=False):
    """Sequence `got` equals the sequence of `size` elements elem(i)."""
    r = eqint(st, vsize(got), size)
    if r == "no":
        return r
    s, i, ok = ivar(st, name, size, first)
    if not ok:
        return r
    x = rd(varr(got), i, 1, s.holds)
    y = elem(i)
    return both(r, eqchunk(s, x, y, width) if width > 1 else eqint(s, x, y))


def sorted_of(got, want):
    """Is got the ascending copy of want?"""
    if got is mk("sorted", want) or got.op == "sorted" and expand(got.args[0]) is expand(want):
        return "yes"
    if got.op in ("vec", "hsel", "sym") and exact(got):
        return "no"
    if got.op == "sorted" and exact(got) and resolved(vsize(got.args[0])) and vsize(got.args[0]) is not vsize(want):
        return "no"
    return None


# ---- byte offsets kept in a variable too narrow for the buffer
def _peel(x):
    while x and x["k"] == "cast" and x.get("impl"):
        x = x["x"]
    return x


def _bytes(t):
    """A pointer to, or a vector of, single bytes."""
    t = t.strip_ref()
    if t.k == "ptr":
        return t.to.is_int and t.to.bits == 8
    return any(str(t).replace("const ", "").startswith(p) for p in ("std::vector<unsigned char", "std::vector<char", "std::span<"))


def _open(x):
    """A loop whose number of rounds no constant bounds."""
    if x["k"] == "rangefor":
        t = str((x.get("range") or {}).get("t"))
        return "std::vector" in t or "std::list" in t or "std::deque" in t
    c = x.get("cond")
    return not (c and any(y["k"] == "bin" and y["op"] in ("<", "<=", ">", ">=", "!=") and "int" in (_peel(y["x"])["k"], _peel(y["y"])["k"]) for y in walk(c)))


def narrow_offsets(r, f):
    """A buffer can be larger than what 32 bits count: an offset that is advanced per element has to have 64."""
    where = "%s:%d %s" % (f["f"], f["l"], f["n"])
    used = {}
    for x in fn_nodes(f):
        o = None
        if x["k"] == "bin" and x["op"] in ("+", "-") and x["t"].k == "ptr" and _bytes(x["t"]):
            o = x["y"] if x["y"]["t"].is_int else x["x"]
        elif x["k"] == "call" and x["fn"]["n"].endswith(("::operator[]", "::at")) and x.get("obj") and _bytes(x["obj"]["t"]) and x.get("args"):
            o = x["args"][0]
        elif x["k"] == "index" and _bytes(x["x"]["t"]):
            o = x.get("i") or x.get("y")
        o = _peel(o)
        if o and o["k"] == "ref" and o["dk"] == "var":
            used.setdefault(o["d"], o)
    for d, o in sorted(used.items()):
        t = o["dt"].strip_ref()
        steps = []
        for loop in fn_nodes(f):
            if loop["k"] in ("for", "while", "do", "rangefor") and _open(loop):
                for x in walk(loop):
                    if x["k"] == "bin" and x["op"] in ("=", "+=") or x["k"] == "un" and x["op"] == "++":
                        if x["x"]["k"] == "ref" and x["x"]["d"] == d and innermost(loop, x) and not declared(loop, d):
                            steps.append(x)
        if not steps:
            continue
        if t.is_int and t.bits and t.bits < 64:
            r.violation("offset:%s:%s" % (f["n"], o["n"]), "%s:%d %s" % (f["f"], o["l"], f["n"]),
                        "the byte offset %s is advanced for every element but has only %d bits" % (o["n"], t.bits))
        else:
            r.ob("offset wide enough", where, "the byte offset %s advanced per element has 64 bits" % o["n"])


def innermost(loop, x):
    """x lies in this loop and in no loop inside it."""
    return not any(y is not loop and y["k"] in ("for", "while", "do", "rangefor") and any(z is x for z in walk(y)) for y in walk(loop) if y is not loop)


def declared(loop, d):
    return any(y["k"] == "var" and y["d"] == d for y in walk(loop["body"]))
