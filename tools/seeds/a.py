A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"; B="src/batchproof.cpp"; ST="src/state.cpp"; SH="src/crypto/sha512.cpp"
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "include/accumulator.h"
#include "include/batchproof.h"
#include "include/pollard.h"
#include "include/ram_forest.h"
#include "state.h"
using namespace utreexo;
static Hash H(int n) { Hash h; h.fill(0); h[0] = n & 255; h[1] = (n >> 8) & 255; h[2] = n >> 16; h[31] = 1; return h; }
static std::vector<Leaf> Leaves(int from, int n, bool rem = false) { std::vector<Leaf> v; for (int i = 0; i < n; i++) v.push_back({H(from + i), rem}); return v; }
static bool Mod(Accumulator& a, const std::vector<Leaf>& l, const std::vector<uint64_t>& t) { return a.Modify(l, t); }
#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); std::exit(1); } } while (0)
'''
S=[
dict(id="compare-inserts", prop="C06", needs="comparing a full forest with a pollard that does not remember all of its leaves, then asking the pollard to prove one of them",
 breaks="ComparePositionMap looks up with operator[] and so inserts every missing leaf into the other accumulator's lookup",
 edits=[(A,"""        auto it_other = other.m_posmap.find(hash);
        if (it_other == other.m_posmap.end() || it_other->second != pos) {
            return false;
        }""","""        if (other.m_posmap[hash] != pos) {
            return false;
        }""")],
 demo=HEAD+r'''
int main() {
    RamForest f(0); Pollard p(0);
    REQ(Mod(f, Leaves(0, 1), {})); REQ(Mod(p, Leaves(0, 1), {}));
    BatchProof before; REQ(!p.Prove(before, {H(0)}));
    (void)f.ComparePositionMap(p);
    BatchProof after; REQ(!p.Prove(after, {H(0)}));
}'''),
dict(id="shared-remember-marker", prop="C15", needs="two pollards alive at the same time",
 breaks="the marker node for remembered leaves is shared by all pollards, so the number of cached leaves one reports depends on what the others remember",
 edits=[(P,"    m_remember = std::make_shared<InternalNode>();","    static const NodePtr<InternalNode> marker = std::make_shared<InternalNode>();\n    m_remember = marker;"),
        (P,"    m_posmap.clear();\n    assert(m_remember.use_count() == 1);","    m_posmap.clear();"),
        ("include/pollard.h","return m_remember ? m_remember.use_count() - 1 : 0;","return m_remember ? m_remember.use_count() - 2 : 0;")],
 demo=HEAD+r'''
int main() {
    Pollard a(0);
    REQ(a.Modify(Leaves(0, 4, true), {}));
    uint64_t alone = a.NumCachedLeaves();
    REQ(alone == 4);
    Pollard b(0);
    REQ(b.Modify(Leaves(0, 8, true), {}));
    REQ(a.NumCachedLeaves() == alone);
}'''),
dict(id="parent-32bit-shift", prop="C11", needs="a forest with more than 2^31 leaves",
 breaks="the row marker in ForestState::Parent is computed in 32 bits",
 edits=[(ST,"return (pos >> 1ULL) | (1ULL << this->NumRows());","return (pos >> 1ULL) | (1U << this->NumRows());")],
 demo=HEAD+r'''
int main() {
    ForestState s(1ULL << 40);
    REQ(s.Parent(6) == (3ULL | (1ULL << 40)));
    ForestState t(8);
    REQ(t.Parent(6) == 11);
}'''),
dict(id="erase-in-assert", prop="C16", needs="a build without assertions", flags="-DNDEBUG",
 breaks="the removal of deleted leaves from the lookup is done inside an assert",
 edits=[(R,"        m_posmap.erase(Read(pos).value());\n    }\n\n    assert(m_posmap.size() == next_num_leaves);","        assert(m_posmap.erase(Read(pos).value()) == 1);\n    }\n\n    assert(m_posmap.size() == next_num_leaves);")],
 demo=HEAD+r'''
int main() {
    RamForest f(0);
    REQ(Mod(f, Leaves(0, 4), {}));
    REQ(Mod(f, {}, {2}));
    REQ(Mod(f, Leaves(10, 4), {}));
    BatchProof p;
    REQ(!f.Prove(p, {H(2)}));
    REQ(f.Prove(p, {H(1)}));
}'''),
]
