import importlib.util, os
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"; B="src/batchproof.cpp"; ST="src/state.cpp"; SH="src/crypto/sha512.cpp"; C="src/crypto/common.h"; BH="include/batchproof.h"
S=[
dict(id="all-leaves-refused", prop="C04", needs="a removal of every leaf at once",
 breaks="the list of all leaves is refused although it is acceptable",
 edits=[(ST,"    if (m_num_leaves < targets.size()) {","    if (m_num_leaves <= targets.size()) {")],
 demo=HEAD+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 6), {}));
    REQ(Mod(f, Leaves(10, 2), {0, 1, 2, 3, 4}));
    REQ(f.NumLeaves() == 3);
    REQ(Mod(f, {}, {0, 1, 2}));
    REQ(f.NumLeaves() == 0);
}'''),
dict(id="last-target-past-end", prop="C04", needs="a list whose last position equals the number of leaves",
 breaks="a position just past the last leaf is taken for a leaf",
 edits=[(ST,"targets.back() >= m_num_leaves","targets.back() > m_num_leaves")],
 demo=HEAD+r'''
int main() {
    ForestState s(6);
    REQ(s.CheckTargetsSanity({0, 5}));
    REQ(!s.CheckTargetsSanity({0, 6}));
    BatchProof p({6}, {});
    REQ(!p.CheckSanity(6));
}'''),
dict(id="add-before-remove-check", prop="C04", needs="a modification that adds leaves and removes a position that only exists after the addition",
 breaks="leaves are added before the removal list has been checked when the list refers to the new leaves",
 edits=[(A,"    if (!Remove(targets)) return false;\n    if (!Add(leaves)) return false;","    if (leaves.size() > 0 && targets.size() > 0 && targets.back() == m_num_leaves) {\n        if (!Add(leaves)) return false;\n        return Remove(targets);\n    }\n    if (!Remove(targets)) return false;\n    if (!Add(leaves)) return false;")],
 demo=HEAD+r'''
int main() {
    Pollard p(0);
    REQ(p.Modify(Leaves(0, 4, true), {}));
    REQ(!p.Modify(Leaves(10, 2, true), {4}));
    REQ(p.NumLeaves() == 4);
}'''),
dict(id="targets-written-sorted", prop="C07", needs="a proof whose targets are not in ascending order",
 breaks="Serialize writes the sorted targets instead of the targets in request order",
 edits=[(B,"    for (const uint64_t target : m_targets) {\n        WriteBE32","    for (const uint64_t target : m_sorted_targets) {\n        WriteBE32")],
 demo=HEAD+r'''
int main() {
    BatchProof p({5, 2}, {H(1)}), q;
    std::vector<uint8_t> b;
    p.Serialize(b);
    REQ(q.Unserialize(b));
    REQ(q.GetTargets() == p.GetTargets());
}'''),
dict(id="stale-tail-of-buffer", prop="C07", needs="an output buffer that is longer than the proof",
 breaks="Serialize leaves the old tail of a longer buffer in place",
 edits=[(B,"    bytes.resize(4 + 4 + m_targets.size() * 4 + m_proof.size() * 32);","    bytes.resize(std::max<size_t>(bytes.size(), 4 + 4 + m_targets.size() * 4 + m_proof.size() * 32));")],
 demo=HEAD+r'''
int main() {
    std::vector<uint8_t> b;
    BatchProof p({1, 2, 3}, {H(1), H(2)}), q({1}, {});
    p.Serialize(b);
    q.Serialize(b);
    REQ(b.size() == 12);
}'''),
dict(id="proof-length-wraps", prop="C08", needs="counts whose implied length exceeds 2^32",
 breaks="the expected length of a proof is computed in 32 bits, so a short record with a huge hash count is read past its end",
 edits=[(B,"    if (bytes.size() != 8ULL + num_targets * 4ULL + num_hashes * 32ULL) {","    const uint32_t expected_size = 8 + num_targets * 4 + num_hashes * 32;\n    if (bytes.size() != expected_size) {")],
 flags="-fsanitize=address",
 demo=HEAD+r'''
#include <sys/resource.h>
int main() {
    std::vector<uint8_t> b = {0x40, 0, 0, 0, 0, 0, 0, 0};
    BatchProof p;
    REQ(!p.Unserialize(b));
}'''),
dict(id="trailing-bytes-accepted", prop="C08", needs="a record with bytes after its end",
 breaks="a proof followed by up to three extra bytes is accepted",
 edits=[(B,"    if (bytes.size() != 8ULL + num_targets * 4ULL + num_hashes * 32ULL) {","    if (bytes.size() / 4 != 2ULL + num_targets + num_hashes * 8ULL) {"),(B,"    assert(data_offset == bytes.size());\n\n    return true;\n}\n\nbool BatchProof::CheckSanity","    return true;\n}\n\nbool BatchProof::CheckSanity")],
 demo=HEAD+r'''
int main() {
    std::vector<uint8_t> b;
    BatchProof p({1, 2, 3}, {H(1)}), q;
    p.Serialize(b);
    REQ(q.Unserialize(b));
    b.push_back(0);
    REQ(!q.Unserialize(b));
}'''),
]
