import importlib.util, os
_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mutants", "c26.py")
_s = importlib.util.spec_from_file_location("c26m", _p); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
E = {x["id"]: x["edits"] for x in _m.M}
HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>
#include "accumulator.h"
#include "batchproof.h"
#include "ram_forest.h"
#include "pollard.h"
#include "state.h"
using namespace utreexo;
#define REQ(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
static Hash H(uint64_t i) { Hash h{}; for (int k = 0; k < 8; ++k) h[k] = (i + 1) >> (8 * k); h[31] = 1; return h; }
struct Limits {
    // a loop that does not end is stopped after a while, or when it has used up the memory
    Limits() { alarm(60); rlimit m{3ULL << 30, 3ULL << 30}; setrlimit(RLIMIT_AS, &m); }
} limits;
static void Fill(Accumulator& a, uint64_t n) { std::vector<Leaf> ls; for (uint64_t i = 0; i < n; ++i) ls.emplace_back(H(i), true); REQ(a.Modify(ls, {})); }
"""
DADJ = HEAD + r"""
int main() {
    Pollard p(0);
    Fill(p, 512);
    std::vector<Hash> hs;
    for (uint64_t i = 0; i < 300; ++i) hs.push_back(H(i));
    BatchProof b;
    REQ(p.Prove(b, hs));
    REQ(b.GetTargets().size() == 300);
}"""
DBYTES = HEAD + r"""
int main() {
    const uint32_t n = 70000;
    std::vector<uint8_t> bytes(8 + n * 32ULL, 7);
    for (int k = 0; k < 8; ++k) bytes[k] = 0;
    for (int k = 0; k < 4; ++k) bytes[4 + k] = n >> (24 - 8 * k);
    BatchProof b;
    REQ(b.Unserialize(bytes));
    REQ(b.GetHashes().size() == n);
}"""
DSPARSE = HEAD + r"""
int main() {
    Pollard p(0);
    Fill(p, 4096);
    std::vector<Hash> hs;
    for (uint64_t i = 0; i < 4096; i += 8) hs.push_back(H(i));
    BatchProof b;
    REQ(p.Prove(b, hs));
    REQ(b.GetHashes().size() == 3 * 512);
}"""
DREMOVE = HEAD + r"""
int main() {
    Pollard p(0);
    Fill(p, 4096);
    std::vector<uint64_t> ts;
    for (uint64_t i = 0; i < 4096; i += 4) ts.push_back(i);
    REQ(static_cast<Accumulator&>(p).Modify({}, ts));
    REQ(p.NumLeaves() == 3072);
}"""
S=[
dict(id="quads-stuck", prop="C26", edits=E["t-vb"], demo=DADJ, needs="a proof for more than 128 adjacent leaves",
 breaks="the walk over the targets stays where it is once 64 parents are collected, for ever"),
dict(id="parser-counter-16-bits", prop="C26", edits=E["t-b"], demo=DBYTES, needs="a serialized proof of more than 65535 hashes",
 breaks="the counter over the hashes starts over and parsing never ends"),
dict(id="proof-counter-8-bits", prop="C26", edits=E["t-h"], demo=DSPARSE, needs="a proof of more than 255 hashes",
 breaks="the counter over the proof positions starts over and Prove never returns"),
dict(id="lonely-targets-stuck", prop="C26", edits=E["t-p"], demo=DREMOVE, needs="a removal with 256 targets on a row that are not siblings",
 breaks="the walk over the row's targets stops moving and the row never ends"),
]
