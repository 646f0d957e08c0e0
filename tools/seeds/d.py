import importlib.util, os
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
A="src/accumulator.cpp"; P="src/pollard.cpp"; R="src/ram_forest.cpp"; B="src/batchproof.cpp"; ST="src/state.cpp"; SH="src/crypto/sha512.cpp"; C="src/crypto/common.h"; BH="include/batchproof.h"
DIG = HEAD + r'''
#include "src/crypto/sha512.h"
static Hash Up(const Hash& l, const Hash& r) {
    unsigned char b[64]; std::memcpy(b, l.data(), 32); std::memcpy(b + 32, r.data(), 32);
    Hash h; CSHA512(CSHA512::OUTPUT_SIZE_256).Write(b, 64).Finalize256(h.data()); return h;
}
static std::vector<Hash> R(const Accumulator& a) { std::vector<Hash> r; a.Roots(r); return r; }
'''
S=[
dict(id="zero-child-promoted", prop="C09", needs="a leaf whose hash is all zeros",
 breaks="a node with an all-zero right child gets its left child's hash instead of the parent hash",
 edits=[(A,"    CSHA512 hasher(CSHA512::OUTPUT_SIZE_256);\n","    static const Hash empty{};\n    if (right == empty) {\n        parent = left;\n        return;\n    }\n\n    CSHA512 hasher(CSHA512::OUTPUT_SIZE_256);\n")],
 demo=DIG+r'''
int main() {
    Hash z; z.fill(0);
    for (int i = 0; i < 2; i++) {
        RamForest f(0); Pollard p(0);
        std::vector<Leaf> l = {{i ? H(1) : z, false}, {i ? z : H(1), true}};
        REQ(Mod(f, l, {})); REQ(Mod(p, l, {}));
        REQ(R(f).size() == 1 && R(f)[0] == Up(l[0].first, l[1].first));
        REQ(R(p) == R(f));
    }
}'''),
dict(id="equal-children-not-hashed", prop="C09", needs="a pollard in which both children of a node that is rehashed after a removal have the same hash",
 breaks="a node with two equal children keeps its old hash when it should be recomputed",
 edits=[(P,"""        return;
    }

    Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);

    // The sibling""","""        return;
    }

    if (m_sibling->m_nieces[0]->m_hash != m_sibling->m_nieces[1]->m_hash) {
        Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
    }

    // The sibling""")],
 demo=DIG+r'''
int main() {
    // leaves a b a b: removing the last b and then the first b leaves a a
    Hash a = H(1), b = H(2), c = H(3), d = H(4);
    std::vector<Leaf> l = {{a, true}, {b, true}, {a, true}, {d, true}, {c, true}};
    Pollard p(0);
    REQ(Mod(p, l, {}));
    REQ(Mod(p, {}, {1, 3}));
    std::vector<Hash> r = R(p);
    REQ(r.size() == 2 && r[0] == Up(a, a) && r[1] == c);
}'''),
]
