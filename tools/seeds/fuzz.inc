#include <algorithm>
#include <map>
#include <random>
static std::mt19937_64 G(7);
static uint64_t U(uint64_t n) { return G() % n; }
static Hash Junk() { Hash h; for (auto& b : h) b = G(); return h; }
// A full forest and a pollard with the same history; which nodes the pollard knows is random.
struct World {
    RamForest f{0};
    Pollard p{0};
    std::vector<Hash> live;
    uint64_t next = 0;
    bool alive = true;
    uint64_t Pos(const Hash& h) const { BatchProof b; REQ(f.Prove(b, {h})); return b.GetTargets().at(0); }
    std::vector<Hash> Pick(size_t n) const {
        std::vector<Hash> c = live, r;
        std::shuffle(c.begin(), c.end(), G);
        c.resize(std::min(n, c.size()));
        std::map<uint64_t, Hash> s;
        for (auto& h : c) s[Pos(h)] = h;
        for (auto& x : s) r.push_back(x.second);
        return r;
    }
    BatchProof Proof(const std::vector<Hash>& hs) const { BatchProof b; REQ(f.Prove(b, hs)); return b; }
    void Block(size_t add, size_t remove) {
        std::vector<Hash> gone = Pick(remove);
        std::vector<uint64_t> targets;
        if (!gone.empty()) {
            BatchProof b = Proof(gone);
            targets = b.GetSortedTargets();
            if (!p.Verify(b, gone)) { alive = false; return; }
        }
        std::vector<Leaf> ls;
        for (size_t i = 0; i < add; ++i) ls.emplace_back(H(next++), U(3) == 0);
        UndoBatch u;
        REQ(f.Modify(u, ls, targets));
        REQ(static_cast<Accumulator&>(p).Modify(ls, targets));
        for (auto& h : gone) live.erase(std::find(live.begin(), live.end(), h));
        for (auto& l : ls) live.push_back(l.first);
    }
    World() {
        Block(1 + U(12), 0);
        for (int i = U(3); i > 0 && alive; --i) Block(U(7), U(4));
        if (U(3) == 0) p.Prune();
        for (int i = U(3); i > 0 && alive && !live.empty(); --i) { auto hs = Pick(1 + U(2)); p.Verify(Proof(hs), hs); }
    }
    std::vector<Hash> R() const { std::vector<Hash> r; p.Roots(r); return r; }
    uint64_t Provable() const { uint64_t n = 0; for (auto& h : live) { BatchProof b; n = n * 31 + (p.Prove(b, {h}) ? 1 + b.GetHashes().size() : 0); } return n; }
};
