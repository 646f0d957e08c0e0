import importlib.util, os
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
R="src/ram_forest.cpp"
COM = HEAD + r'''
#include <fstream>
#include <unistd.h>
static std::vector<Hash> RT(const Accumulator& a) { std::vector<Hash> r; a.Roots(r); return r; }
static std::string Dir() { char t[] = "/tmp/uxdemoXXXXXX"; return std::string(mkdtemp(t)); }
struct Tmp { std::string d = Dir(), f = d + "/forest"; ~Tmp() { unlink(f.c_str()); rmdir(d.c_str()); } };
static std::string Bytes(const std::string& p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
'''
S=[
dict(id="count-little-endian", prop="C14", needs="reading a forest file with anything but this build, or a file written by an earlier one",
 breaks="the leaf count at the start of the file is little-endian",
 edits=[(R,"    WriteBE64(reinterpret_cast<uint8_t*>(uint64_buf), m_num_leaves);","    WriteLE64(reinterpret_cast<uint8_t*>(uint64_buf), m_num_leaves);"),
  (R,"    m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));","    m_num_leaves = ReadLE64(reinterpret_cast<const uint8_t*>(uint64_buf));")],
 demo=COM+r"""
int main() {
    Tmp t;
    { RamForest f(t.f); REQ(Mod(f, Leaves(0, 5), {})); REQ(f.Commit()); }
    REQ(Bytes(t.f).substr(0, 8) == std::string("\0\0\0\0\0\0\0\5", 8));
}"""),
dict(id="commit-ignores-full-disk", prop="C14", needs="a device that has no room left when the forest is flushed",
 breaks="the state of the stream is sampled before the flush, so a save that fails when the buffered bytes go out is reported as done",
 edits=[(R,"        num_hashes >>= 1;\n    }\n\n    m_file.flush();\n    return m_file.good();","        num_hashes >>= 1;\n    }\n\n    const bool written = m_file.good();\n    m_file.flush();\n    return written;")],
 demo=COM+r'''
int main() {
    RamForest f("/dev/full");
    REQ(Mod(f, Leaves(0, 5), {}));
    REQ(!f.Commit());
    Tmp t;
    RamForest g(t.f);
    REQ(Mod(g, Leaves(0, 5), {}));
    REQ(g.Commit());
}'''),
dict(id="short-last-row-accepted", prop="C14", needs="a forest file that is cut inside its last hash",
 breaks="a row that ends early is accepted when at least one byte of the missing hash could be read",
 edits=[(R,"            if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;\n            m_data[row].push_back(hash);","            m_file.read(reinterpret_cast<char*>(hash.data()), 32);\n            if (m_file.gcount() == 0) return false;\n            m_data[row].push_back(hash);")],
 demo=COM+r'''
int main() {
    Tmp t;
    { RamForest f(t.f); REQ(Mod(f, Leaves(0, 4), {})); REQ(f.Commit()); }
    std::string b = Bytes(t.f);
    REQ(b.size() == 8 + 32 * 7);
    REQ(truncate(t.f.c_str(), b.size() - 5) == 0);
    bool threw = false;
    try { RamForest g(t.f); } catch (const std::exception&) { threw = true; }
    REQ(threw);
}'''),
dict(id="rows-count-of-roots", prop="C14", needs="a forest whose leaf count is a power of two",
 breaks="the row that holds the single root of a perfect forest is not saved, and a forest opened from such a file does not read it",
 edits=[(R,"    for (uint8_t i = 0; i <= state.NumRows(); ++i) {\n        assert(num","    for (uint8_t i = 0; i <= state.NumRows() && num_hashes > 1; ++i) {\n        assert(num"),
  (R,"    while (num_hashes > 0) {\n        pos = state.RowOffset(row);","    while (num_hashes > 1) {\n        pos = state.RowOffset(row);"),
  (R,"    RestoreRoots();\n\n    return true;\n}\n\nbool RamForest::Commit","    // the last row is not in the file\n    if (num_hashes == 1 && row > 0) {\n        Hash top;\n        Accumulator::ParentHash(top, m_data[row - 1][0], m_data[row - 1][1]);\n        m_data[row].push_back(top);\n    }\n\n    RestoreRoots();\n\n    return true;\n}\n\nbool RamForest::Commit")],
 demo=COM+r'''
int main() {
    Tmp t;
    { RamForest f(t.f); REQ(Mod(f, Leaves(0, 4), {})); REQ(f.Commit()); }
    REQ(Bytes(t.f).size() == 8 + 32 * 7);
}'''),
]
