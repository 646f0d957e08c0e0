import importlib.util, os
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
R="src/ram_forest.cpp"; ST="src/state.cpp"
COM = HEAD + r'''
static std::vector<Hash> RT(const Accumulator& a) { std::vector<Hash> r; a.Roots(r); return r; }
struct Snap { std::vector<Hash> roots, leaves; std::vector<int> proves; };
static Snap Take(const RamForest& f, int n, int m) {
    Snap s; s.roots = RT(f);
    for (int i = 0; i < n; i++) s.leaves.push_back(f.GetLeaf(i));
    for (int i = 0; i < m; i++) { BatchProof p; s.proves.push_back(f.Prove(p, {H(i)})); }
    return s;
}
static bool Same(const Snap& a, const Snap& b) { return a.roots == b.roots && a.leaves == b.leaves && a.proves == b.proves; }
'''
u=open("/repo/"+R).read()
ER="""    // Erase the added leaves from the position map.
    for (uint64_t i = m_num_leaves - undo.GetNumAdds(); i < m_num_leaves; ++i) {
        m_posmap.erase(Read(i).value());
    }

"""
DL="    // The deleted hashes have to be distinct and must not be in the forest,\n    // unless they were added again.\n"
assert ER in u and DL in u
S=[
dict(id="undo-erases-before-checks", prop="C05", needs="an undo record that claims at least one addition and lists a hash that is a leaf which stays",
 breaks="the added leaves are taken out of the lookup before the deleted hashes are checked, so a refused record leaves a forest that cannot prove its last leaves",
 edits=[(R,ER,""),(R,DL,ER+DL)],
 demo=COM+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 7), {}));
    Snap before = Take(f, 7, 8);
    REQ(!f.Undo(UndoBatch(1, {2}, {H(0)})));
    REQ(Same(before, Take(f, 7, 8)));
    UndoBatch own;
    REQ(f.Modify(own, Leaves(10, 2), {3}));
    REQ(f.Undo(own));
    REQ(Same(before, Take(f, 7, 8)));
}'''),
dict(id="undo-repeated-last-position", prop="C05", needs="an undo record whose last position is listed twice",
 breaks="the ordering check accepts a repeated position at the end of the list, so the record is carried out instead of refused",
 edits=[(ST,"        if (targets[i] >= targets[i + 1]) {\n            return false;\n        }\n    }\n\n    return true;","        if (targets[i] > targets[i + 1]) {\n            return false;\n        }\n        if (i > 0 && targets[i - 1] == targets[i]) {\n            return false;\n        }\n    }\n\n    return true;")],
 demo=COM+r"""
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 8), {}));
    Snap before = Take(f, 8, 12);
    REQ(!f.Undo(UndoBatch(0, {0, 3, 3}, {H(20), H(21), H(22)})));
    REQ(Same(before, Take(f, 8, 12)));
}"""),
dict(id="undo-additions-shortcut", prop="C05", needs="an undo record without deletions that claims more additions than the forest has leaves",
 breaks="a shortcut for records without deletions takes the leaves back before their number is compared with the forest's",
 edits=[(R,"    if (m_data.size() == 0) return true;\n\n    // Make sure that the undo","""    if (m_data.size() == 0) return true;

    // Without deletions there is nothing to swap back, only leaves to forget.
    if (undo.GetDeletedPositions().empty() && undo.GetDeletedHashes().empty()) {
        for (uint64_t n = 0; n < undo.GetNumAdds(); ++n) {
            if (m_num_leaves == 0) return false;
            if (m_posmap.erase(Read(m_num_leaves - 1).value()) == 0) return false;
            --m_num_leaves;
        }
        m_data[0].resize(m_num_leaves);
        for (uint8_t r = 1; r < m_data.size(); ++r) m_data[r].resize(m_num_leaves >> r);
        RestoreRoots();
        return true;
    }

    // Make sure that the undo""")],
 demo=COM+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 5), {}));
    Snap before = Take(f, 5, 8);
    REQ(!f.Undo(UndoBatch(9, {}, {})));
    REQ(Same(before, Take(f, 5, 8)));
    UndoBatch own;
    REQ(f.Modify(own, Leaves(10, 6), {}));
    REQ(f.Undo(own));
    REQ(Same(before, Take(f, 5, 8)));
}'''),
]
