import importlib.util, os
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "g.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD; COM = _m.COM
A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"
S=[
dict(id="missing-proof-hash-read", prop="C12", needs="a proof that carries no hashes at all for a leaf that needs some",
 breaks="the test for a proof that has run out of hashes lets the one-past-the-last position through, so the missing hash is read",
 edits=[(P,"                    if (proof_hash >= proof.GetHashes().crend()) {","                    if (proof_hash > proof.GetHashes().crend()) {")],
 demo=HEAD+r'''
int main() {
    Pollard p(0);
    REQ(Mod(p, Leaves(0, 8), {}));
    REQ(!p.Verify(BatchProof({3}, {}), {H(3)}));
    REQ(p.NumCachedLeaves() == 0);
}'''),
dict(id="positions-run-out", prop="C12", flags="-fsanitize=address", needs="a proof with a proof node to the left of its first target",
 breaks="the next computed position is read although all of them were used",
 edits=[(P,"            bool is_computed = computed_pos < computed_positions.crend() &&\n                               *computed_pos","            bool is_computed = *computed_pos")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    REQ(Mod(f, Leaves(0, 8), {})); REQ(Mod(p, Leaves(0, 8), {}));
    BatchProof b; REQ(f.Prove(b, {H(7)}));
    REQ(p.Verify(b, {H(7)}));
}'''),
dict(id="compare-with-smaller-lookup", prop="C12", needs="comparing with an accumulator that does not have one of the leaves",
 breaks="the entry of a leaf that the other accumulator does not know is read",
 edits=[(A,"        if (it_other == other.m_posmap.end() || it_other->second != pos) {","        if (it_other->second != pos) {")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    REQ(Mod(f, Leaves(0, 3), {})); REQ(Mod(p, Leaves(0, 3), {}));
    REQ(!f.ComparePositionMap(p));
}'''),
]
