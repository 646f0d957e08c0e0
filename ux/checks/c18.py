"""C18: a proof is produced complete, in the order asked for, or not at all."""
from ..report import Report
from .serial import *

PM = "utreexo::Accumulator::m_posmap"
NL = "utreexo::Accumulator::m_num_leaves"
PP = "utreexo::ForestState::ProofPositions"


def last(n):
    return n.split("::")[-1]


def opaque(f):
    return f.get("cls") == "utreexo::ForestState" and not f.get("ctor") or last(f["n"]) in ("Read", "ReadSiblings", "ParentHash") \
        or f["n"].startswith("utreexo::_")


def reads(t):
    return [x for x in subterms(t) if x.op == "call" and last(x.args[0]) == "Read"]


@casewise
def hash_at(s, x, positions, i):
    j, why = element(s, x, positions, i)
    return j


def element(s, x, positions, i):
    """Is x the hash read at proof position i, and known to be there? (verdict, why)"""
    if x.op != "oval" or not reads(x):
        return ("no" if exact(x) and not (reads(x) or has_op(x, {"ite", "b2i"})) else None), "it is %s" % (x,)
    c = x.args[0]
    if c.op != "call" or last(c.args[0]) != "Read":
        return None, "it is %s" % (x,)
    pos = [a for a in c.args[1:] if isinstance(a, type(x)) and a is not THISV and a.op != "heapv"]
    if len(pos) != 1:
        return None, "unexpected read"
    j = eqint(s, pos[0], rd(varr(positions), i, 1))
    if j != "yes":
        return j, "it is read at position %s" % (pos[0],)
    if s.holds(mk("ohas", c)):
        return "yes", ""
    return ("no" if exact(c) else None), "it is used without having been read successfully"


def refute(r, where):
    """A stand-in for verdict that keeps only violations: paths that single out the first loop iterations."""
    def v(_, j, key, w, text, why=""):
        if j == "no":
            r.violation(key, w, "not so: " + text + why)
        elif j == "yes":
            r.count("first-iteration obligations", 1)
    return v


def prove(r, prog, eff, F, f, world, peel):
    pn, hn = f["params"][0]["n"], f["params"][1]["n"]
    I = Interp(prog, world=world, effects=eff, opaque=opaque)
    I.peel = peel
    ex = I.run(f)
    for x in I.notes if not peel else ():
        r.undecided(f["n"], "not modelled: " + x)
    where = "%s:%d %s (%s)" % (f["f"], f["l"], f["n"], last(world))
    say = refute(r, where) if peel else verdict
    th, old, pm = sym("in:" + hn), sym("in:" + pn), hsel(hb(PM), THISV)
    n = vsize(th)
    for s, v in ex:
        b = I.tobool(v)
        for val in (True, False):
            s2 = s.copy()
            if not s2.assume(b if val else not_(b)):
                continue
            new = s2.env.get(("a", pn), old)
            if not val:
                same_ = new is old or all(fld(new, q) is fld(old, q) for q in F.values() if q.startswith(BP))
                j = "yes" if same_ else "no" if all(exact(fld(new, F[q])) for q in ("targets", "proof")) else None
                say(r, j, "untouched", where, "the caller's proof is untouched when Prove returns false", " (path: %s)" % short_facts(s2))
                continue
            if peel:
                if not (s2.holds(lt(n, num(2))) and all(s2.holds(lt(vsize(fld(x, "std::pair::first")), num(2))) for x in positions_of(new, s2))):
                    continue
            success(r, I, say, where, s2, *(fld(new, F[q]) for q in ("targets", "proof", "sorted")), th, n, pm)


def positions_of(p, st):
    return [x for x in subterms(p) if x.op == "call" and x.args[0] == PP] or \
        [x for y in st.facts for x in subterms(y) if x.op == "call" and x.args[0] == PP]


def success(r, I, say, where, s2, t, p, so, th, n, pm):
    s3, i, ok = ivar(s2, "req", n, I.peel)
    if ok:
        has = mk("mhas", pm, rd(varr(th), i, 1))
        j = "yes" if s3.holds(has) else "no" if exact(t) and not I.notes and all(exact(x) for x in s3.facts) else None
        say(r, j, "lookup", where, "every requested hash is known to be in the lookup", " (path: %s)" % short_facts(s3))
    say(r, eqseq(s2, t, n, lambda k: mget(pm, rd(varr(th), k, 1), s2.holds), name="req", first=I.peel), "order", where,
        "target k of the proof is the position of requested hash k")
    say(r, sorted_of(so, t), "sorted", where, "the sorted targets are those of the targets")
    cs = positions_of(p, s2)
    if not cs:
        say(r, "no" if resolved(p) else None, "positions", where, "the proof hashes are read at the proof positions of the targets")
        return
    c = cs[0]
    if len(set(cs)) > 1 or len(c.args) < 3:
        r.undecided(where, "several sets of proof positions")
        return
    say(r, eqint(s2, c.args[1], hsel(hb(NL), THISV)), "forest", where, "proof positions are those of the current forest")
    j = sorted_of(c.args[2], t)
    if j != "yes" and c.args[2] is t:
        j = "no"
    say(r, j, "canonical", where, "proof positions are those of the sorted targets")
    pos = fld(c, "std::pair::first")
    say(r, eqint(s2, vsize(p), vsize(pos)), "complete", where, "there is one proof hash for every proof position")
    s3, i, ok = ivar(s2, "pos", vsize(pos), I.peel)
    if ok:
        x = rd(varr(p), i, 1, s3.holds)
        why = element(s3, x, pos, i)[1]
        j = hash_at(s3, x, pos, i)
        say(r, j, "hashes", where, "proof hash k is the one read at proof position k", " (%s)" % why)


def check(tier):
    r = Report("C18", tier,
               "Abstract interpretation with universally quantified path facts: on every path of Prove that returns true, the result's "
               "targets are, for a symbolic index, the looked-up positions of the requested hashes, every lookup is known to have "
               "succeeded, the proof hashes are the successfully read values at the canonical proof positions of the sorted targets; on "
               "every other path the result parameter still has its entry value.",
               ["std containers behave as specified", "container sizes are below 2^62"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        F = fields(prog, eff)
        f = prog.fn("utreexo::Accumulator::Prove")
        r.analysed(f)
        for world in ("utreexo::Pollard", "utreexo::RamForest"):
            for peel in (0, 1):
                prove(r, prog, eff, F, f, world, peel)
    return r
