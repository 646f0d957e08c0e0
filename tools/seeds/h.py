import importlib.util, os
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "g.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD; COM = _m.COM
A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"
S=[
dict(id="remembered-at-request-order", prop="C13", needs="a proof whose targets were requested in another order than their positions",
 breaks="the leaves remembered after an accepted proof are looked up at the targets in the order of the request, not in the order of the hashes",
 edits=[(P,"        m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];","        m_posmap[target_hashes[i]] = proof.GetTargets()[i];")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    REQ(Mod(f, Leaves(0, 8), {})); REQ(Mod(p, Leaves(0, 8), {}));
    BatchProof b; REQ(f.Prove(b, {H(6), H(1)}));
    REQ(p.Verify(b, {H(1), H(6)}));
    BatchProof c; REQ(p.Prove(c, {H(1)}));
    REQ(c.GetTargets() == std::vector<uint64_t>{1});
}'''),
dict(id="readded-leaf-erased", prop="C13", needs="undoing a modification that removes a leaf and adds it again",
 breaks="the added leaves are taken out of the lookup after the deleted ones were put back, so a leaf that is both is lost from the lookup",
 edits=[(R,"""    for (uint64_t i = m_num_leaves - undo.GetNumAdds(); i < m_num_leaves; ++i) {
        m_posmap.erase(Read(i).value());
    }

    m_num_leaves -= undo.GetNumAdds();
""","""    const std::vector<Hash> added(m_data[0].begin() + (m_num_leaves - undo.GetNumAdds()), m_data[0].begin() + m_num_leaves);

    m_num_leaves -= undo.GetNumAdds();
"""),(R,"""        ++i;
    }

    m_num_leaves = prev_state.m_num_leaves;
""","""        ++i;
    }
    for (const Hash& hash : added) {
        m_posmap.erase(hash);
    }

    m_num_leaves = prev_state.m_num_leaves;
""")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); UndoBatch u;
    REQ(f.Modify(u, Leaves(0, 8), {}));
    UndoBatch v;
    REQ(f.Modify(v, {{H(3), false}, {H(20), false}}, {3}));
    REQ(f.Undo(v));
    BatchProof b; REQ(f.Prove(b, {H(3)}));
    REQ(b.GetTargets() == std::vector<uint64_t>{3});
}'''),
dict(id="inner-hashes-in-lookup", prop="C13", needs="opening a forest file with a power of two of leaves",
 breaks="when a forest is restored, the hashes of upper rows are put into the leaf lookup as well",
 edits=[(R,"            if (num_hashes == m_num_leaves) {","            if (num_hashes << row == m_num_leaves) {")],
 demo=COM+r'''
int main() {
    Tmp t;
    Hash root;
    { RamForest f(t.f); REQ(Mod(f, Leaves(0, 4), {})); root = RT(f)[0]; REQ(f.Commit()); }
    RamForest g(t.f);
    BatchProof b; REQ(g.Prove(b, {H(2)}));
    REQ(!g.Verify(b, {root}));
}'''),
dict(id="last-of-wide-removal-kept", prop="C13", needs="a removal of more than one leaf by a pollard that remembers the last one",
 breaks="the last removed position is not taken out of the lookup when several leaves are removed at once",
 edits=[(P,"    for (uint64_t pos = next_state.m_num_leaves; pos < current_state.m_num_leaves; ++pos) {\n        if (std::optional","    const uint64_t end = current_state.m_num_leaves - (next_state.NumRows() < current_state.NumRows() ? 1 : 0);\n    for (uint64_t pos = next_state.m_num_leaves; pos < end; ++pos) {\n        if (std::optional")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    REQ(Mod(f, Leaves(0, 5, true), {})); REQ(Mod(p, Leaves(0, 5, true), {}));
    BatchProof b; REQ(f.Prove(b, {H(4)}));
    REQ(p.Verify(b, {H(4)}));
    REQ(Mod(p, {}, {4})); REQ(Mod(f, {}, {4}));
    REQ(p.ComparePositionMap(f));
}'''),
]
