import importlib.util, os
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("d", os.path.join(_d, "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
_s = importlib.util.spec_from_file_location("d", os.path.join(_d, "..", "mutants", "c24.py")); _c = importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
E = {x["id"]: x["edits"] for x in _c.M}
HEAD = _m.HEAD + r"""
#include <algorithm>
#include <map>
#include <random>
#include <set>
static std::mt19937_64 G(11);
static uint64_t U(uint64_t n) { return G() % n; }
// A full forest and a pollard with the same history. Every leaf that was added with the remember flag or proven must be provable.
struct World {
    RamForest f{0};
    Pollard p{0};
    std::vector<Hash> live;
    std::set<Hash> remembered;
    uint64_t next = 0;
    BatchProof Proof(const std::vector<Hash>& hs) const { BatchProof b; REQ(f.Prove(b, hs)); return b; }
    std::vector<Hash> Pick(size_t n) const {
        std::vector<Hash> c = live, r;
        std::shuffle(c.begin(), c.end(), G);
        c.resize(std::min(n, c.size()));
        std::map<uint64_t, Hash> s;
        for (auto& h : c) s[Proof({h}).GetTargets().at(0)] = h;
        for (auto& x : s) r.push_back(x.second);
        return r;
    }
    void Verify(const std::vector<Hash>& hs) {
        if (hs.empty()) return;
        REQ(p.Verify(Proof(hs), hs));
        remembered.insert(hs.begin(), hs.end());
        Check();
    }
    void Block(size_t add, size_t remove, uint64_t one_in) {
        std::vector<Hash> gone = Pick(remove);
        Verify(gone);
        std::vector<uint64_t> targets;
        if (!gone.empty()) targets = Proof(gone).GetSortedTargets();
        std::vector<Leaf> ls;
        for (size_t i = 0; i < add; ++i) ls.emplace_back(H(next++), U(one_in) == 0);
        UndoBatch u;
        REQ(f.Modify(u, ls, targets));
        REQ(static_cast<Accumulator&>(p).Modify(ls, targets));
        for (auto& h : gone) { live.erase(std::find(live.begin(), live.end(), h)); remembered.erase(h); }
        for (auto& l : ls) { live.push_back(l.first); if (l.second) remembered.insert(l.first); }
        Check();
    }
    void Check() const {
        REQ(p.NumCachedLeaves() == remembered.size());
        for (auto& h : remembered) {
            BatchProof b, w = Proof({h});
            REQ(p.Prove(b, {h}));
            REQ(b.GetTargets() == w.GetTargets() && b.GetHashes() == w.GetHashes());
        }
    }
};
"""
D1 = HEAD + r"""
int main() {
    for (int i = 0; i < 2500; ++i) {
        World w;
        const uint64_t one_in = 1 + U(4);
        w.Block(1 + U(20), 0, one_in);
        for (int k = 2 + U(5); k > 0; --k) { w.Block(U(7), U(6), one_in); if (U(2)) w.Verify(w.Pick(1 + U(2))); }
    }
}"""
DBIG = HEAD + r"""
int main() {
    World w;
    for (int i = 0; i < 3; ++i) w.Block(@A, 0, 1);
    w.Block(5, @B, 1);
}"""
S=[
dict(id="new-root-right-child-lost", prop="C24", edits=E["c24-N"], demo=D1, needs="a removal that turns a node into a root of which only the right child is kept",
 breaks="the node's children are dropped although a remembered leaf is below the right one"),
dict(id="remember-limit", prop="C24", edits=E["c24-Q"], demo=DBIG.replace("@A","500").replace("@B","1"), needs="more than 1024 remembered leaves",
 breaks="a leaf added with the remember flag is not marked"),
dict(id="promoted-root-pruned", prop="C24", edits=E["c24-W"], demo=D1, needs="a removal that makes a node with two leaves, one of them remembered, a root that is not the first",
 breaks="the remembered leaf itself is dropped as a dead end"),
dict(id="big-removal-prunes", prop="C24", edits=E["c24-I"], demo=DBIG.replace("@A","60").replace("@B","70"), needs="a removal of more than 64 leaves",
 breaks="everything the pollard remembers is pruned"),
]
