"""C05: an undo record that does not fit is refused before anything changes."""
from ..facts import walk, fn_nodes
from ..report import Report
from ..interp import *
from ..terms import *
from ..terms import T as T_
from ..vc import *
from .serial import short_facts
from .c04 import N, THISV, entails_accept, excludes_accept, clean, outcomes, last, _top

U = "utreexo::UndoBatch::"
F = "utreexo::RamForest::"
POSMAP = "utreexo::Accumulator::m_posmap"
ROWS = F + "m_data"
# steps that change the forest and are not followed further
CHANGES = ("SwapRange", "UpdatePositionMapForRange", "UpdatePositionMapForSubtreeSwap", "RestoreRoots", "ReHash", "SwapSubTrees", "FinalizeRemove",
           "NewLeaf", "MergeRoot", "Add", "Remove", "Modify")
QUIET = ("Read", "Parent", "GetHash", "ParentHash")

GROW = ("push_back", "emplace_back", "resize", "insert", "emplace", "assign")


def rows_itself(x):
    while x and x["k"] != "member" and x.get("x"):
        x = x["x"]
    return bool(x) and x.get("fld") == ROWS


def opaque(f):
    if f.get("cls") == "utreexo::ForestState":
        return not f.get("ctor") and last(f["n"]) != "CheckTargetsSanity"
    return last(f["n"]) in CHANGES or last(f["n"]) in QUIET or f["n"].startswith("utreexo::_")


class Undo:
    def __init__(self, r, prog, eff, f):
        self.r, self.f = r, f
        self.where = "%s:%d %s" % (f["f"], f["l"], f["n"])
        p = sym("in:" + f["params"][0]["n"])
        ob = mk("obj", p)
        self.I = Interp(prog, world=f["cls"], effects=eff, opaque=opaque, hook=self.hook)
        self.looked = {}        # guard -> ways a round of a loop gets past it
        self.prog = prog
        self.bind(prog, p)

    def bind(self, prog, p):
        rec = prog.records["utreexo::UndoBatch"]
        g = {}
        for name in ("GetNumAdds", "GetDeletedPositions", "GetDeletedHashes"):
            m = prog.fn(U + name)
            I = Interp(prog)
            (s, v), = I.run(m)
            if v.op == "lv":
                v = I.read(s, v)
            g[name] = v
        self.getters = g
        self.p = p

    def values(self, st):
        """The record's parts as terms of the operation analysed."""
        def at(v):
            return fld(self.p, v.args[0].args[0]) if v.op == "hsel" and v.args[1] is THISV and v.args[0].op == "hb" else replace(v, THISV, self.p)
        return tuple(at(self.getters[n]) for n in ("GetNumAdds", "GetDeletedPositions", "GetDeletedHashes"))

    def hook(self, I, kind, st, n, kw):
        if kind == "call" and last(kw["f"]["n"]) in CHANGES:
            st.note = st.note + (("change", "%s called at %s" % (last(kw["f"]["n"]), loc(I.fr.fn, n))),)
        elif kind == "index" and kw["lv"].args[-1] and kw["lv"].args[-1][-1] == ("f", ROWS):
            self.row(I, st, n, kw["i"], kw["size"])
        elif kind == "loop":
            self.loop(I, st, n, kw)

    def row(self, I, st, n, i, size):
        """A reopened forest has only the rows it needs: a row that is used is one that exists, or was created."""
        w, text = loc(I.fr.fn, n), "a row that is used exists or is created first"
        j = judge(st, and_(le(ZERO, i), lt(i, size)))
        base = [u for u in subterms(size) if u.op == "sz"]
        if j != "yes" and len(base) == 1 and not is_num(size) and size is not base[0]:
            j = "yes"       # grown on this path
        if j != "yes":
            known = any(u in base for f in st.facts for u in subterms(f)) or I.notes or not base
            j = None if known and j != "no" or has_op(i, {"unk", "call"}) or self.grown_before(I.fr.fn, n) else "no"
        if j == "yes":
            self.r.ob("row exists", w, text)
        elif j == "no":
            self.r.violation("row:" + self.f["n"], w, "uses row %s although it is not known to exist" % str(i)[:80])
        else:
            self.r.undecided(w, text)

    def grown_before(self, fn, n):
        """Whether rows are created other than in the loop the access is in (the analysis of that loop then does not know how many)."""
        grows = []
        todo, seen = [self.f], set()
        while todo:
            g = todo.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            for x in fn_nodes(g):
                fr = x.get("fn") if x["k"] in ("call", "construct") else None
                if not fr:
                    continue
                if last(fr["n"]) in GROW and rows_itself(x.get("obj")):
                    grows.append(x)
                h = self.prog.lookup(fr, g["tu"])
                if h is not None and not opaque(h):
                    todo.append(h)
        if fn["n"] != self.f["n"]:
            return bool(grows)
        here = [x for x in fn_nodes(fn) if x["k"] in ("for", "while", "do", "rangefor") and any(y is n for y in walk(x))]
        return any(not any(y is g for h in here for y in walk(h)) for g in grows)

    # ---- guards over all deleted hashes
    def loop(self, I, h, n, kw):
        adds, poss, hashes = self.values(h)
        leaves = hsel(hb(N), THISV)
        pm = hsel(hb(POSMAP), THISV)
        kept = sub(leaves, adds)
        kap, back, out = kw["kap"], kw["back"], kw["out"]
        if not back:
            return
        A = varr(hashes)
        seen = {x for s in back for f in s.facts for x in subterms(f) if x.op == "rd" and x.args[0] is A and kap in syms(x.args[1])}
        seen |= {x for s in back for k, v in s.env.items() if isinstance(v, T_) and k[0] != "h" for x in subterms(v)
                 if x.op == "rd" and x.args[0] is A and x.args[1] is kap}
        if not seen:
            return
        full = [s for k, s, _ in out if k in ("n", "exit") and s.holds(le(vsize(hashes), kap))]
        norm = [s for k, s, _ in out if k in ("n", "exit", "b")]
        for x in sorted(seen):
            if x.args[1] is not kap or len(full) != len(norm) or not full:
                continue
            for name in ("absent", "distinct"):
                bad, touched = [], False
                for s in back:
                    if name == "absent":
                        touched = touched or any(y.op in ("mhas", "mget") and y.args[0] is pm and y.args[1] is x for f in s.facts for y in subterms(f))
                        ok = s.holds(not_(mhas(pm, x))) or s.holds(le(kept, mget(pm, x, s.holds)))
                    else:
                        ok = False
                        for k, v in s.env.items():
                            hv = kw["head"].get(k)
                            if hv is None or not isinstance(v, T_) or k[0] == "h" or v is hv:
                                continue
                            grown = [y for y in subterms(v) if y.op == "mput" and y.args[1] is x]
                            if v.op == "phi" or not grown:
                                continue
                            touched = True
                            e = kw["entry"].env.get(k)
                            ok = ok or s.holds(not_(mhas(hv, x))) and is_empty(e)
                    if not ok:
                        bad.append(s)
                if not bad:
                    for s in full:
                        s.note = s.note + (("guard", name),)
                elif touched:
                    self.looked.setdefault(name, []).extend((s, x, I.joins == 0) for s in bad)

    def hashy(self, x, hashes):
        return any(y.op == "rd" and y.args[0] is varr(hashes) for y in subterms(x))


def is_empty(e):
    return e is MEMPTY


def leafpos(x, b):
    """The leaf position whose hash x is, if that is a constant away from b."""
    if x.op == "oval":
        x = x.args[0]
        if x.op != "call" or last(x.args[0]) != "Read":
            return None
        ps = [y for y in x.args[1:] if isinstance(y, T_) and b in set(subterms(y))]
        p = ps[0] if len(ps) == 1 else None
    elif x.op == "rd" and x.args[0].op == "arr" and x.args[0].args[0].op == "rd" and is_num(x.args[0].args[0].args[1], 0):
        p = x.args[1]
    else:
        return None
    return p if p is not None and b not in set(subterms(sub(p, b))) else None


def tight(s, x, name, pm):
    """Are the facts a round of the loop has about element x exact?"""
    for g in s.facts:
        if x in set(subterms(g)) and not exact(g) and not (any(y.op == "mhas" and y.args[0] is not pm for y in subterms(g))):
            return False
    return True


def check(tier):
    r = Report("C05", tier,
               "Abstract interpretation of the rollback operation with path facts over the record and the forest: every path that "
               "reports failure must not have written a member or called a changing step; every path that carries the rollback out must "
               "entail that as many hashes as positions are recorded, that no more additions are taken back than there are leaves, that "
               "the positions are ascending and inside the restored forest, that every added leaf is in the lookup, and that the "
               "deleted hashes are distinct and not among the leaves that stay; and it ends with the restored leaf count; every row used exists or was created on the way.",
               ["a forest has at least its bottom row (class invariant)", "container sizes are below 2^62"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        fs = [f for f in prog.functions.values() if last(f["n"]) == "Undo" and f["n"].startswith("utreexo::") and f.get("body") is not None]
        if not fs:
            r.undecided("utreexo::RamForest::Undo", "no rollback operation found")
        for f in fs:
            one(r, prog, eff, f)
    return r


def one(r, prog, eff, f):
    r.analysed(f)
    A = Undo(r, prog, eff, f)
    I = A.I
    ex = I.run(f)
    where, who = A.where, f["n"]
    for x in I.notes:
        r.undecided(where, "not modelled: " + x)
    leaves = hsel(hb(N), THISV)
    pm = hsel(hb(POSMAP), THISV)
    rows = hsel(hb(ROWS), THISV)
    done = 0
    for s, val in outcomes(I, ex):
        adds, poss, hashes = A.values(s)
        prev = sub(add(leaves, vsize(poss)), adds)
        ch = [q for q, h in fields_changed(s).items() if final(s, q) is not hsel(hb(q), THISV)]
        steps = [x[1] for x in s.note if x[0] == "change"]
        if not val:
            if steps:
                r.violation("changed:" + who, where, "reports failure after a change to the forest (%s)" % "; ".join(steps[:3]))
            elif any(exact(final(s, q)) for q in ch):
                r.violation("changed:" + who, where, "reports failure after writing %s" % ", ".join(sorted(last(q) for q in ch)))
            elif ch:
                r.undecided(where, "a failing path may have written " + ", ".join(sorted(ch)))
            else:
                r.ob("failure changes nothing", where, "no member written and no changing step called on this path")
            continue
        if s.holds(eq0(vsize(rows))):
            r.ob("nothing to do", where, "a forest without rows cannot occur")
            continue
        done += 1
        sure = not I.notes

        def need(ok, key, text, known):
            if ok:
                r.ob("checked before the rollback", where, text)
            elif sure and known:
                r.violation(key + ":" + who, where, "carries a rollback out without having checked that %s; path facts: %s" % (text, short_facts(s)))
            else:
                r.undecided(where, "not shown: " + text)
        about = lambda x: [g for g in s.facts if x in _top(g.args[2] if g.op == "all" else g)]
        n_h, n_p = vsize(hashes), vsize(poss)
        need(s.holds(eq0(sub(n_h, n_p))), "sizes", "there are as many hashes as positions", all(exact(g) for g in about(n_h)))
        need(s.holds(le(adds, leaves)), "adds", "no more leaves were added than there are", all(exact(g) for g in about(adds)))
        need(entails_accept(s, poss, prev), "positions", "the positions are ascending and inside the restored forest", clean(s, poss, prev, ()))
        # the added leaves
        cover = []
        other = False
        for g in s.facts:
            if g.op == "all" and g.args[2].op == "mhas" and g.args[2].args[0] is pm:
                x = g.args[2].args[1]
                b = mk("bv", g.args[1])
                ix = leafpos(x, b)
                if ix is not None:
                    cover.append((sub(ix, b), g.args[0]))
                elif A.hashy(x, hashes):
                    pass
                else:
                    other = True
            elif g.op != "not" and any(y.op == "mhas" and y.args[0] is pm and not A.hashy(y.args[1], hashes) for y in subterms(g)):
                other = True
        lo = sub(leaves, adds)
        ok = s.holds(eq0(adds)) or any(s.holds(le(a, lo)) and s.holds(le(leaves, add(a, m))) for a, m in cover)
        need(ok, "added", "every added leaf is in the lookup", not other and all(exact(a) and exact(m) for a, m in cover))
        for name, text in (("absent", "no deleted hash is a leaf that stays"), ("distinct", "the deleted hashes are distinct")):
            ok = ("guard", name) in s.note or s.holds(eq0(n_h))
            bad = A.looked.get(name, [])
            if name == "distinct":
                known = not any(isinstance(y, T_) and A.hashy(y, hashes) and z.op == "mhas" and z.args[0] is not pm for g in s.facts for z in subterms(g) for y in z.args[1:2])
            else:
                known = not any(z.op in ("mhas", "mget") and z.args[0] is pm and A.hashy(z.args[1], hashes) for g in s.facts for z in subterms(g))
            need(ok, name, text, (known or bad) and all(j and tight(x, e, name, pm) for x, e, j in bad))
        fin = final(s, N)
        if s.holds(eq0(sub(fin, prev))):
            r.ob("restored count", where, "the leaf count is the one before the modification")
        elif exact(fin) and sure:
            r.violation("count:" + who, where, "completes with the leaf count %s" % str(fin)[:120])
        else:
            r.undecided(where, "leaf count after the rollback: " + str(fin)[:300])
    if not done:
        r.undecided(where, "no path that carries a rollback out")
