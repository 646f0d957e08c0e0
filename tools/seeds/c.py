import importlib.util, os
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"; B="src/batchproof.cpp"; ST="src/state.cpp"; SH="src/crypto/sha512.cpp"; C="src/crypto/common.h"; BH="include/batchproof.h"
S=[
dict(id="later-branch-hides-failure", prop="C17", needs="a pollard that caches two inner nodes of one row, and a proof whose left target is forged while the right one is genuine",
 breaks="the outcome of rehashing a cached node is overwritten by the next one of the same row",
 edits=[(P,"                verification_success = proof_node->ReHashAndVerify();\n                if (!verification_success) break;\n","                verification_success = proof_node->ReHashAndVerify();\n")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    auto l = Leaves(0, 8);
    REQ(Mod(f, l, {}));
    l[0].second = l[4].second = true;
    REQ(Mod(p, l, {}));
    BatchProof proof;
    REQ(f.Prove(proof, {H(2), H(6)}));
    REQ(!p.Verify(proof, {H(99), H(6)}));
    REQ(!p.Verify(proof, {H(2), H(99)}));
    REQ(p.Verify(proof, {H(2), H(6)}));
}'''),
dict(id="prove-ignores-sanity", prop="C17", needs="asking for a proof of the same leaf twice",
 breaks="Prove ignores that the target check failed",
 edits=[(A,"    if (!ForestState(m_num_leaves).CheckTargetsSanity(sorted_targets)) {\n        return false;\n    }\n","    ForestState(m_num_leaves).CheckTargetsSanity(sorted_targets);\n")],
 demo=HEAD+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 8), {}));
    BatchProof proof;
    REQ(!f.Prove(proof, {H(2), H(2)}));
    REQ(f.Prove(proof, {H(2), H(3)}));
}'''),
dict(id="unread-hash-skipped", prop="C18", needs="a pollard asked to prove a remembered leaf one of whose proof hashes it no longer holds",
 breaks="Prove goes on when a proof hash cannot be read and hands out a proof with a zero hash in it",
 edits=[(A,"        if (!hash) return false;\n","        if (!hash) continue;\n")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    auto l = Leaves(0, 10);
    for (int i : {1, 5, 6, 7, 8}) l[i].second = true;
    REQ(Mod(f, l, {}));
    REQ(Mod(p, l, {}));
    for (const std::vector<Hash>& gone : {std::vector<Hash>{H(4), H(8)}, std::vector<Hash>{H(0), H(1)}}) {
        BatchProof del;
        REQ(f.Prove(del, gone));
        REQ(p.Verify(del, gone));
        REQ(Mod(f, {}, del.GetSortedTargets()));
        REQ(Mod(p, {}, del.GetSortedTargets()));
    }
    BatchProof mine, full;
    REQ(f.Prove(full, {H(5)}));
    if (p.Prove(mine, {H(5)})) REQ(mine == full);
}'''),
dict(id="targets-in-reverse", prop="C18", needs="a request for two or more leaves",
 breaks="the targets of a proof come out in the reverse of the order asked for",
 edits=[(A,"        targets.push_back(posmap_it->second);","        targets.insert(targets.begin(), posmap_it->second);")],
 demo=HEAD+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 8), {}));
    BatchProof proof;
    REQ(f.Prove(proof, {H(5), H(2)}));
    REQ(proof.GetTargets() == (std::vector<uint64_t>{5, 2}));
}'''),
dict(id="refused-request-clears-proof", prop="C18", needs="a request for a leaf that is not in the lookup, made with a proof object that already holds a proof",
 breaks="a refused request leaves the caller's proof emptied",
 edits=[(A,"        if (posmap_it == m_posmap.end()) {\n            // TODO: error\n            return false;","        if (posmap_it == m_posmap.end()) {\n            // TODO: error\n            proof.SetNull();\n            return false;")],
 demo=HEAD+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 8), {}));
    BatchProof proof, copy;
    REQ(f.Prove(proof, {H(5), H(2)}));
    REQ(f.Prove(copy, {H(5), H(2)}));
    REQ(!f.Prove(proof, {H(1), H(77)}));
    REQ(proof == copy);
}'''),
]
