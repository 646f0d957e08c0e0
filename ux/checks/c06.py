"""C06: read-only operations change nothing (effect analysis)."""
from ..effects import Effects
from ..facts import Program, loc
from ..report import Report

CLASSES = ("utreexo::Accumulator", "utreexo::Pollard", "utreexo::RamForest", "utreexo::BatchProof", "utreexo::UndoBatch",
           "utreexo::ForestState", "utreexo::ForestState::Swap")
# read-only operations that are not (all) declared const: name -> indexes of the parameters that are results
OBSERVERS = {
    "utreexo::Accumulator::Prove": [0], "utreexo::Accumulator::Roots": [0], "utreexo::Accumulator::NumLeaves": [],
    "utreexo::Accumulator::ComparePositionMap": [], "utreexo::Accumulator::PrintPositionMap": [],
    "utreexo::Accumulator::PrintRoots": [], "utreexo::Pollard::NumCachedLeaves": [], "utreexo::Pollard::CountNodes": [],
    "utreexo::RamForest::GetLeaf": [], "utreexo::RamForest::operator==": [], "utreexo::BatchProof::Serialize": [0],
    "utreexo::BatchProof::CheckSanity": [], "utreexo::BatchProof::operator==": [], "utreexo::BatchProof::Print": [],
    "utreexo::BatchProof::GetTargets": [], "utreexo::BatchProof::GetSortedTargets": [], "utreexo::BatchProof::GetHashes": [],
    "utreexo::UndoBatch::Serialize": [0], "utreexo::UndoBatch::operator==": [], "utreexo::UndoBatch::Print": [],
    "utreexo::UndoBatch::GetNumAdds": [], "utreexo::UndoBatch::GetDeletedPositions": [],
    "utreexo::UndoBatch::GetDeletedHashes": [],
}
# arguments of modifying operations that are only read
INPUTS = {
    "utreexo::Accumulator::Modify": [0, 1], "utreexo::RamForest::Modify": [1, 2], "utreexo::RamForest::Undo": [0],
    "utreexo::Pollard::Verify": [0, 1], "utreexo::RamForest::Verify": [0, 1], "utreexo::BatchProof::Unserialize": [0],
    "utreexo::UndoBatch::Unserialize": [0],
}


def check(tier):
    r = Report("C06", tier,
               "Interprocedural effect analysis: every store, mutating library call and callee effect is traced to the storage it "
               "can reach (own locals, freshly allocated objects, the object, its parameters, globals). A read-only operation may "
               "only write its locals, fresh objects, its designated result parameter and output streams; const member functions "
               "may in addition write objects handed in through non-const parameters.")
    for config in ("release", "verify") + (("ndebug", "release20") if tier == "thorough" else ()):
        p = Program(config)
        eff = Effects(p)
        seen = 0
        for f in sorted(p.functions.values(), key=lambda f: f["n"]):
            if f.get("lambda") or f.get("cls") not in CLASSES and not str(f.get("cls", "")).endswith("::Node") \
                    and not str(f.get("cls", "")).endswith("::InternalNode"):
                continue
            s = eff.sum[f["key"]]
            r.analysed(f)
            results = None
            if f["n"] in OBSERVERS:
                results = OBSERVERS[f["n"]]
                seen += 1
                rule = "observer"
            elif f.get("const"):
                results = [i for i, q in enumerate(f["params"]) if q["t"].k == "ref" and not q["t"].to.const]
                rule = "const member function"
            if results is not None:
                bad = 0
                for root, (wf, node, what) in sorted(s.writes.items(), key=str):
                    if root in ("local", "fresh", "io") or (root[0] == "param" and root[1] in results):
                        continue
                    bad = 1
                    tgt = "the object it is called on" if root == ("this",) else (
                        "its argument '%s'" % f["params"][root[1]]["n"] if root[0] == "param" else "%s %s" % root)
                    r.violation("effect:%s:%s" % (f["n"], "this" if root == ("this",) else root[1]), loc(wf, node),
                                "%s is read-only but may change %s (%s)" % (f["n"], tgt, what))
                if not bad:
                    r.ob(rule + " (" + config + ")", f["n"], "writes only %s" % sorted(map(str, s.writes)))
            if f["n"] in INPUTS:
                for i in INPUTS[f["n"]]:
                    w = s.writes.get(("param", i))
                    if w:
                        r.violation("input:%s:%d" % (f["n"], i), loc(w[0], w[1]),
                                    "%s changes its input argument '%s' (%s)" % (f["n"], f["params"][i]["n"], w[2]))
                    else:
                        r.ob("input argument (" + config + ")", "%s #%d" % (f["n"], i), "never written")
        # mutable members would let const functions change state behind this analysis' back
        for rec in p.records.values():
            for fl in rec["fields"]:
                r.count("fields")
        r.count("observers found", seen)
        if seen < 15:
            from ..facts import AnalysisError
            raise AnalysisError("only %d of the read-only operations were found" % seen)
    return r
