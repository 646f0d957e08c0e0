import importlib.util, os
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("d", os.path.join(_d, "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
_s = importlib.util.spec_from_file_location("d", os.path.join(_d, "..", "mutants", "c01.py")); _c = importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
E = {x["id"]: x["edits"] for x in _c.M}
HEAD = _m.HEAD + open(os.path.join(_d, "fuzz.inc")).read() + r'''
struct Case { BatchProof b; std::vector<Hash> hs; bool bad = false; };
// A proof for some live leaves, usually tampered with; bad: it must not be accepted.
static Case Forge(const World& w) {
    Case c;
    std::vector<Hash> hs = w.Pick(1 + U(4));
    BatchProof b = w.Proof(hs);
    std::vector<uint64_t> t = b.GetTargets();
    std::vector<Hash> p = b.GetHashes();
    const size_t full = p.size();
    int kind = U(7);
    if (kind <= 3) { hs[U(hs.size())] = Junk(); c.bad = true; }
    if (kind == 1 || kind == 4) for (auto& h : p) if (U(2)) h = Junk();
    if (kind == 2 || kind == 4) while (!p.empty() && U(2)) p.erase(p.begin() + U(p.size()));
    if (kind == 3 && hs.size() > 1 && U(2)) std::swap(hs[0], hs[1]);
    if (kind == 5) { p.insert(p.begin() + U(p.size() + 1), Junk()); c.bad = p.size() > full; }
    if (kind == 6) { if (U(2)) hs.push_back(Junk()); else hs.pop_back(); c.bad = true; }
    c.b = BatchProof(t, p); c.hs = hs;
    return c;
}
'''
D1=HEAD+r'''
int main() {
    for (int i = 0; i < 20000; ++i) {
        World w;
        if (!w.alive || w.live.empty()) continue;
        Case c = Forge(w);
        const bool ok = w.p.Verify(c.b, c.hs);
        REQ(!(ok && c.bad));
    }
}'''
D2=HEAD+r'''
int main() {
    for (int i = 0; i < 20000; ++i) {
        World w;
        if (!w.alive || w.live.empty()) continue;
        auto roots = w.R();
        std::map<Hash, std::vector<Hash>> held;
        for (auto& h : w.live) { BatchProof b; if (w.p.Prove(b, {h})) held[h] = b.GetHashes(); }
        Case c = Forge(w);
        w.p.Verify(c.b, c.hs);
        REQ(roots == w.R());
        for (auto& x : held) { BatchProof b; REQ(w.p.Prove(b, {x.first}) && b.GetHashes() == x.second); }
    }
}'''
D3=HEAD+r'''
int main() {
    for (int i = 0; i < 20000; ++i) {
        World w;
        if (!w.alive || w.live.empty()) continue;
        const uint64_t nodes = w.p.CountNodes(), leaves = w.p.NumCachedLeaves(), provable = w.Provable();
        Case c = Forge(w);
        if (w.p.Verify(c.b, c.hs)) continue;
        REQ(w.p.CountNodes() == nodes);
        REQ(w.p.NumCachedLeaves() == leaves);
        REQ(w.Provable() == provable);
    }
}'''
S=[
dict(id="only-roots-compared", prop="C01", edits=E["c01-j"], demo=D1, needs="a pollard that knows an inner node above a forged target",
 breaks="a known inner node below a root is neither compared nor recomputed; the root is then recomputed from the known hash and matches"),
dict(id="later-match-clears-failure", prop="C01", edits=E["c01-W"], demo=D1, needs="a known target with a wrong given hash",
 breaks="a target whose known hash differs from the given one no longer makes verification fail"),
dict(id="single-leaf-unchecked", prop="C01", edits=E["c01-F"], demo=D1, needs="a pollard with a single leaf",
 breaks="every proof for the leaf of a one-leaf accumulator is accepted"),
dict(id="known-left-child-unmarked", prop="C02", edits=E["c02-d"], demo=D2, needs="a node whose left child is known and whose right child is not",
 breaks="a child that was there before is treated as created, so a forged hash is stored in it"),
dict(id="last-root-not-known", prop="C02", edits=E["c02-l"], demo=D2, needs="a proof whose last computed position is a root",
 breaks="that root is put into the partial tree as unknown, and its hash is overwritten"),
dict(id="left-child-recreated", prop="C02", edits=E["c02-f"], demo=D2, needs="a node whose left child is known and whose right child is not",
 breaks="the known left child is replaced by an empty one"),
dict(id="valid-nodes-not-undone", prop="C03", edits=E["c03-i"], demo=D3, needs="a rejected proof with a valid node below which a child was created",
 breaks="children created below a node that was found valid stay behind after the rejection"),
dict(id="last-entry-not-undone", prop="C03", edits=E["c03-p"], demo=D3, needs="a rejected proof for which children were created",
 breaks="the last entry of the record of created children is not undone"),
dict(id="rejected-leaves-forgotten", prop="C03", edits=E["c03-s"], demo=D3, needs="a rejected proof for leaves the pollard remembers",
 breaks="remembered leaves named by a rejected proof lose their entry in the lookup"),
dict(id="lookup-before-acceptance", prop="C03", edits=E["c03-l"], demo=D3, needs="a rejected proof with an unknown target",
 breaks="the position of a target enters the lookup while the proof is still being checked"),
]
