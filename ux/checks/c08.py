"""C08: parsing untrusted bytes: bounds, exact acceptance, all-or-nothing."""
from ..report import Report
from .serial import *


def check(tier):
    r = Report("C08", tier,
               "Abstract interpretation over value terms with path facts: every access to the parsed buffer is proved inside it; the "
               "length accepted on every accepting path is exactly the one implied by the counts, and every refusing path contradicts "
               "that length; no member is written on a refusing path; on an accepting path every member holds only decoded content.",
               ["container sizes are below 2^62", "std containers behave as specified"])
    for config in ("release", "ndebug") + (("verify",) if tier == "thorough" else ()):
        prog, eff = program(config)
        F = fields(prog, eff)
        for name, first, lists in ((BP + "::Unserialize", None, ("targets", "proof")), (UB + "::Unserialize", "adds", ("positions", "hashes"))):
            mem = Mem(r, "parse")
            f, I, ex = analyse(r, prog, eff, name, hook=mem)
            where = "%s:%d %s" % (f["f"], f["l"], name)
            narrow_offsets(r, f)
            src = sym("in:" + f["params"][0]["n"])
            arr = varr(src)
            be = lambda o: mk("rdbe", 4, rd(arr, o, 4))
            n = be(num(4)) if first else be(ZERO)
            p = be(num(4))
            want = add(num(8), add(scale(n, 4), scale(p, 32)))
            exactlen = eq0(sub(vsize(src), want))
            outcomes = []
            for s, v in ex:
                b = I.tobool(v)
                for val in (True, False):
                    s2 = s.copy()
                    if s2.assume(b if val else not_(b)):
                        outcomes.append((s2, val))
            for s, val in outcomes:
                if val:
                    verdict(r, judge(s, exactlen), "accepted-length:" + name, where,
                            "a string is accepted only if its length is 8 + 4*positions + 32*hashes", " (path: %s)" % short_facts(s))
                    own = [x["q"] for x in prog.all_fields(f["cls"])]
                    for q in own:
                        got = final(s, q)
                        inputs = {x for x in syms(got)}
                        old_ = [x for x in subterms(got) if x.op == "hsel" and x.args[0].op == "hb"]
                        if old_:
                            verdict(r, "no" if exact(got) and q in F.values() else None, "refill:%s:%s" % (name, q), where,
                                    "member %s holds only decoded content after acceptance (it still holds its old value)" % q.split("::")[-1])
                        elif has_op(got, {"unk"}):
                            r.undecided(where, "content of " + q)
                        else:
                            r.ob("refilled", where, "member %s holds nothing of its old value" % q.split("::")[-1])
                    for fl, size in ((lists[0], n), (lists[1], p)):
                        verdict(r, eqint(s, vsize(final(s, F[fl])), size), "count:%s:%s" % (name, fl), where, "%s holds exactly the announced number of elements" % fl)
                        s3, i, ok = ivar(s, "idx", size)
                        if ok:
                            x = rd(varr(final(s, F[fl])), i, 1, s3.holds)
                            if fl in ("targets", "positions"):
                                j = eqint(s3, x, be(add(num(8), scale(i, 4))))
                            else:
                                j = eqchunk(s3, x, rd(arr, add(add(num(8), scale(n, 4)), scale(i, 32)), 32), 32)
                            verdict(r, j, "content:%s:%s" % (name, fl), where, "%s holds the decoded content" % fl)
                    if first:
                        verdict(r, eqint(s, final(s, F[first]), be(ZERO)), "content:%s:%s" % (name, first), where, "the addition count is the decoded one")
                    else:
                        got = final(s, F["sorted"])
                        verdict(r, sorted_of(got, final(s, F["targets"])), "content:%s:sorted" % name, where,
                                "the sorted targets are those of the decoded targets")
                else:
                    bad = s.copy()
                    j = judge(s, not_(exactlen))
                    verdict(r, j, "refused-length:" + name, where, "a string of the right length is not refused", " (path: %s)" % short_facts(s))
                    ch = [q for q, h in fields_changed(s).items() if final(s, q) is not hsel(hb(q), THISV)]
                    # a member that provably holds its old value again is unchanged
                    if ch:
                        verdict(r, "no" if all(exact(final(s, q)) for q in ch) else None, "refused-unchanged:" + name, where,
                                "a refused string leaves the object unchanged (members changed: %s)" % ", ".join(q.split("::")[-1] for q in ch))
                    else:
                        r.ob("refused string leaves the object unchanged", where, "no member written on this path")
            if not any(v for _, v in outcomes) or all(v for _, v in outcomes):
                r.undecided(where, "accepting and refusing paths were not both found")
    return r
