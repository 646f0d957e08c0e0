"""C12: missing data is reported, never dereferenced."""
from ..facts import AnalysisError, fn_nodes
from ..report import Report
from ..interp import *
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .c04 import THISV, last

CLASSES = ("utreexo::Accumulator", "utreexo::Accumulator::Node", "utreexo::Pollard", "utreexo::Pollard::Node", "utreexo::Pollard::InternalNode",
           "utreexo::RamForest", "utreexo::RamForest::Node", "utreexo::BatchProof", "utreexo::UndoBatch")
NIECES = "utreexo::Pollard::InternalNode::m_nieces"
PARENTS = ("utreexo::Accumulator::Node::m_parent", "utreexo::Pollard::Node::m_parent")
PROOF = "utreexo::BatchProof::m_proof"
SMALL = ("GetHash", "IsCached", "IsValid", "IsTargetOrAncestor", "IsSiblingCached", "GetHashes", "GetTargets", "GetSortedTargets",
         "GetDeletedHashes", "GetDeletedPositions", "GetNumAdds", "MarkAsValid", "Parent")
STEPS = ("Modify", "Undo", "Verify", "Prove", "Add", "Remove", "Roots", "NumLeaves", "ParentHash", "ComparePositionMap", "PrintPositionMap", "PrintRoots",
         "UpdatePositionMapForRange", "UpdatePositionMapForSubtreeSwap", "Read", "ReadLeafRange", "ReadSiblings", "SwapSubTrees", "SwapRange", "NewLeaf",
         "MergeRoot", "FinalizeRemove", "Prune", "CountNodes", "InitChildrenOfComputed", "CreateProofTree", "VerifyProofTree", "CheckSanity",
         "ReHash", "ReHashNoPrune", "ReHashAndVerify", "Chop", "ChopLeft", "ChopRight", "DeadEnd", "Restore", "Commit", "RestoreRoots", "BuildUndoBatch",
         "GetLeaf", "Serialize", "Unserialize", "NumCachedLeaves", "Print", "MakeNodePtr")
LOOKUP = "ReadSiblings"


class Nullable:
    def __init__(self):
        self.params = {}    # (function key, parameter index) -> where a possibly absent pointer is passed


def peel_casts(t):
    while t.op in ("cast", "trunc", "dyn") and t.args and isinstance(t.args[0], T_):
        t = t.args[0]
    return t


def field_of(t):
    """The heap field a value was read from, if any."""
    t = peel_casts(t)
    if t.op == "hsel":
        h = t.args[0]
        while h.op != "hb" and isinstance(h.args[0], T_):
            h = h.args[0]
        return h.args[0] if h.op == "hb" else None
    if t.op in ("fld", "fget") and len(t.args) > 1 and isinstance(t.args[1], str):
        return t.args[1]
    if t.op in ("rd", "mget") or t.op == "arr":
        return field_of(t.args[0])
    if t.op in ("varr", "st", "ext"):
        return field_of(t.args[0])
    return None


def looked_up(t):
    """(kind) of the lookup that produced t: '#0' / '#1' of a walk down the tree."""
    t = peel_casts(t)
    if t.op in ("fld", "proj", "tget") and isinstance(t.args[0], T_):
        c = t.args[0]
        if c.op == "call" and last(c.args[0]) == LOOKUP:
            return "the %s of a walk down the tree" % ("node" if str(t.args[1]).endswith("0") else "sibling")
    return None


def source(t, params):
    t = peel_casts(t)
    k = looked_up(t)
    if k:
        return k
    q = field_of(t)
    if q == NIECES:
        return "a child link"
    if q in PARENTS:
        return "a parent link"
    if t.op == "call" and last(t.args[0]) == "Parent":
        return "a parent link"
    if t.op == "sym" and t.args[0] in params:
        return "an argument that may be absent"
    return None


def cursor_over(c):
    """What the elements of container c are, if running out of them has to be expected."""
    if c.op in ("fld", "hsel") and (field_of(c) or c.args[-1]) == PROOF:
        return "the next hash of a proof"
    if c.op == "fld" and isinstance(c.args[0], T_) and c.args[0].op == "call" and last(c.args[0].args[0]) == "ProofPositions":
        return "the next position of a proof"
    return None


def mentioned(s, p):
    """Does some fact of the state say something about p itself (and not only about what it points to)?"""
    for g in s.facts:
        if g.op == "not" and g.args[0].op == "same" and not any(a is NULL for a in g.args[0].args) and any(a is p for a in g.args[0].args) \
                and any(a.op == "hsel" and a.args[1] is THISV for a in g.args[0].args):
            continue    # different from a pointer the object always holds
        for u in subterms(g):
            if u.op in ("hsel", "hst"):
                continue
            for a in u.args:
                if isinstance(a, T_) and (a is p or peel_casts(a) is p):
                    return True
        if g.op in ("all", "ex", "or") and p.op == "rd" and any(u.op == "rd" and field_of(u) == field_of(p) for u in subterms(g)):
            return True
    return False


def base(m):
    while m.op in ("mput", "merase"):
        m = m.args[0]
    return m


def at_end(s, i, z, fw):
    """Do the tests made on cursor i leave the end position open?"""
    vs = [x for x in subterms(i) if x.op == "phi"]
    for g in s.facts:
        if any(x in vs for x in subterms(g)):
            if g.op != "le" or any(x.op in ("phi", "unk", "ite", "call") and x not in vs and x not in subterms(z) for x in subterms(g)):
                return False
    s = s.copy()
    return bool(vs) and s.assume(eq0(sub(i, z) if fw else add(i, ONE)))


class Site:
    __slots__ = ("kind", "where", "what", "status", "why")

    def __init__(self, kind, where, what, status, why=""):
        self.kind, self.where, self.what, self.status, self.why = kind, where, what, status, why


class Run:
    def __init__(self, prog, eff, f, world, opaque, nullable, total):
        self.f, self.nullable, self.total = f, nullable, total
        self.params = {p["n"] for i, p in enumerate(f["params"]) if (f["n"], i) in nullable}
        self.params = {"in:" + n for n in self.params} | self.params
        self.sites, self.pend, self.phis, self.passed, self.locked = [], [], set(), [], {}
        self.I = Interp(prog, world=world, effects=eff, opaque=opaque, hook=self.hook)
        self.err = None
        try:
            self.I.run(f)
        except (AnalysisError, Limit) as e:
            self.err = str(e)
        for x in self.sites:
            if isinstance(x.what, tuple):
                i, vs, tested = x.what
                x.what = i
                if any(self.locked.get(v, set()) & tested for v in vs):
                    x.status, x.why = None, "a counter that moves along with it is tested"
        for where, p, st in self.pend:
            if p in self.phis:
                self.sites.append(self.pointer(where, p, st, "the pointer followed from node to node"))

    def lockstep(self, head, back):
        """Remember which loop variables always move by the same amounts."""
        steps = {}
        for q, v in head.items():
            ix = v.args[1] if v.op in ("vit", "rit", "dit") else v
            if ix.op != "phi":
                continue
            ds = []
            for b in back:
                w = b.env.get(q)
                if w is not None and w.op in ("vit", "rit", "dit"):
                    w = w.args[1]
                d = sub(w, ix) if w is not None and w.op in ("phi", "lin") else None
                ds.append(d.args[0] if d is not None and d.op == "num" else None)
            if ds and None not in ds and any(ds):
                steps[ix] = tuple(abs(d) for d in ds)
        for a in steps:
            for b in steps:
                if a is not b and steps[a] == steps[b]:
                    self.locked.setdefault(a, set()).add(b)

    def pointer(self, where, p, st, k):
        if st.holds(not_(same(p, NULL))):
            return Site(k, where, p, "yes")
        if st.holds(same(p, NULL)):
            return Site(k, where, p, "no")
        if mentioned(st, p):
            return Site(k, where, p, None, "tested in a way that is not understood")
        return Site(k, where, p, "no")

    def hook(self, I, kind, st, n, kw):
        where = loc(I.fr.fn, n)
        if kind == "deref":
            p = peel_casts(kw["p"])
            k = source(p, self.params)
            if k:
                self.sites.append(self.pointer(where, p, st, k))
            elif p.op == "phi":
                self.pend.append((where, p, st.copy()))
            elif p.op in ("ite", "unk") and any(source(x, self.params) for x in p.args if isinstance(x, T_)):
                if not st.holds(not_(same(p, NULL))):
                    self.sites.append(Site("a pointer", where, p, None, "one of several possible pointers"))
        elif kind == "optval":
            o = kw["o"]
            if o.op != "call":
                return
            if st.holds(ohas(o)):
                self.sites.append(Site("a stored hash", where, o, "yes"))
            elif o.args[0] in self.total:
                self.sites.append(Site("a stored hash", where, o, "yes", "this reader always yields a value"))
            else:
                bad = last(o.args[0]) == "Read" and (st.holds(not_(ohas(o))) or not mentioned(st, o))
                self.sites.append(Site("a stored hash", where, o, "no" if bad else None, "" if bad else "tested in a way that is not understood"))
        elif kind == "mapit":
            it = kw["it"]
            k = "a lookup entry"
            if it.op == "mend":
                self.sites.append(Site(k, where, it, "no"))
                return
            has = it.args[2]
            if st.holds(has):
                self.sites.append(Site(k, where, it, "yes"))
            else:
                bad = st.holds(not_(has)) or not any(u.op == has.op and u.args[1:] == has.args[1:] and base(u.args[0]) is base(has.args[0]) for g in st.facts for u in subterms(g)) and not has_op(has, {"unk", "ite"})
                self.sites.append(Site(k, where, it, "no" if bad else None, "" if bad else "tested in a way that is not understood"))
        elif kind == "index" and kw.get("it") is not None:
            c = I.read(st, kw["lv"])
            k, i, z = cursor_over(c), kw["i"], kw["size"]
            if k is None:
                return
            fw = kw["it"].op == "vit"
            if st.prove_le(sub(add(i, ONE), z)) and st.prove_le(sub(ZERO, i)) or st.holds(not_(eq0(sub(i, z) if fw else add(i, ONE)))):
                self.sites.append(Site(k, where, i, "yes"))
            else:
                vs = {x for x in subterms(i) if x.op in ("phi", "unk", "ite")}
                bad = not has_op(i, {"unk", "ite"}) and (at_end(st, i, z, fw) or not any(x in vs for g in st.facts for x in subterms(g)))
                self.sites.append(Site(k, where, i, "no" if bad else None, "" if bad else "tested in a way that is not understood"))
                if bad:
                    self.sites[-1].what = (i, vs, {x for g in st.facts for x in subterms(g) if x.op == "phi"})
        elif kind == "loop":
            head = kw["head"]
            self.lockstep(head, kw["back"])
            for q, v in head.items() if hasattr(head, "items") else ():
                if isinstance(v, T_) and v.op == "phi":
                    for b in kw["back"]:
                        w = b.env.get(q)
                        if isinstance(w, T_) and source(peel_casts(w), self.params):
                            self.phis.add(v)
        elif kind == "call" and self.I.opaque(kw["f"]):
            for i, a in enumerate(kw["args"]):
                v = I.read(st, a) if a.op == "lv" else a
                if not isinstance(v, T_):
                    continue
                v = peel_casts(v)
                if source(v, self.params) and not st.holds(not_(same(v, NULL))) and not mentioned(st, v):
                    self.passed.append((kw["f"]["n"], i))


def always_yields(prog, eff, f, opaque):
    I = Interp(prog, world=f["cls"], effects=eff, opaque=lambda g: g is not f and opaque(g))
    try:
        ex = I.run(f)
    except (AnalysisError, Limit):
        return False
    return bool(ex) and not I.notes and all(isinstance(v, T_) and v.op == "some" for _, v in ex)


def check(tier):
    r = Report("C12", tier, "every use of something that may be absent (a child or parent link, the result of a walk down a pollard, a stored hash, an entry of the "
               "leaf lookup, the next hash of a proof) is reached only on paths where it was found present, with the self-checks compiled out",
               ["a child link is absent exactly when the stored pointer is null; root pointers, the node behind a root and the nodes of a proof tree always exist",
                "vectors passed between the library's own functions have the lengths their callers give them"])
    for config in ("ndebug",) if tier == "quick" else ("ndebug", "release"):
        prog, eff = program(config)
        fs = [f for f in sorted(prog.functions.values(), key=lambda f: (f["f"], f["l"]))
              if f.get("cls") in CLASSES and f.get("body") is not None and not f.get("implicit")]
        called = {n["fn"].get("usr") or n["fn"]["n"] for f in fs for n in fn_nodes(f) if n["k"] == "call" and n.get("fn")}
        calledn = {n["fn"]["n"] for f in fs for n in fn_nodes(f) if n["k"] == "call" and n.get("fn")}
        roots = [f for f in fs if last(f["n"]) in STEPS or f["n"] not in calledn]

        def opaque(g):
            if g.get("cls") == "utreexo::ForestState":
                return not g.get("ctor")
            if g["n"].startswith("utreexo::_"):
                return True
            return g.get("cls") in CLASSES and not g.get("ctor") and last(g["n"]) in STEPS

        total = {f["n"] for f in fs if last(f["n"]) == "Read" and always_yields(prog, eff, f, opaque)}
        nullable, done = set(), {}
        for _ in range(4):
            new = set()
            for f in roots:
                for world in ("utreexo::Pollard", "utreexo::RamForest") if f["cls"].startswith("utreexo::Accumulator") else (f["cls"],):
                    if world.count("::") > 1:
                        world = world.rsplit("::", 1)[0]
                    mine = {x for x in nullable if x[0] == f["n"]}
                    k = (f["key"], world)
                    if k in done and done[k][0] == mine:
                        continue
                    R = Run(prog, eff, f, world, opaque, mine, total)
                    done[k] = (mine, R)
                    new |= set(R.passed)
            if new <= nullable:
                break
            nullable |= new
        for f in roots:
            r.analysed(f)
        for x in sorted(nullable):
            r.count("arguments that may be absent")
        for (key, world), (_, R) in done.items():
            if R.err:
                r.undecided("%s:%d %s" % (R.f["f"], R.f["l"], R.f["n"]), R.err)
            for s in R.sites:
                if s.status == "yes":
                    r.ob("tested before use", s.where, "%s in %s: %s" % (s.kind, R.f["n"], s.why or "present on every path to this use"))
                elif s.status == "no" and not R.err:
                    r.violation("deref:%s:%s" % (R.f["n"], s.kind), s.where, "%s is used without having been found present in %s: %s" % (s.kind, R.f["n"], str(s.what)[:160]))
                else:
                    r.undecided(s.where, "%s in %s: %s" % (s.kind, R.f["n"], s.why))
    return r
