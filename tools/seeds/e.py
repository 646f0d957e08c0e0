import importlib.util, os
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
SH="src/crypto/sha512.cpp"; C="src/crypto/common.h"
# one-shot and chunked digests against known answers (NIST vectors, and hashlib's sha512_256)
import hashlib
def dig(n):
    m = bytes((i * 7 + 3) & 255 for i in range(n))
    try: return hashlib.new("sha512_256", m).hexdigest()
    except ValueError: return None
LENS = [0, 1, 55, 63, 64, 111, 112, 113, 119, 120, 127, 128, 129, 191, 239, 240, 255, 256, 257, 300, 512, 1000]
TAB = ", ".join('{%d, "%s"}' % (n, dig(n)) for n in LENS)
DEMO = r'''
#include "src/crypto/sha512.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#define REQ(x) do { if (!(x)) { std::printf("FAILED line %d: %s (n=%d c=%d)\n", __LINE__, #x, N, CH); return 1; } } while (0)
using namespace utreexo;
static std::string Dig(const std::vector<unsigned char>& m, size_t chunk) {
    CSHA512 h(CSHA512::OUTPUT_SIZE_256);
    for (size_t i = 0; i < m.size(); i += chunk) h.Write(m.data() + i, m.size() - i < chunk ? m.size() - i : chunk);
    unsigned char o[64]; h.Finalize256(o);
    std::string s; char b[3];
    for (int i = 0; i < 32; i++) { std::snprintf(b, 3, "%02x", o[i]); s += b; }
    return s;
}
int main() {
    int N = 0, CH = 0;
    struct { int n; const char* d; } tab[] = {''' + TAB + r'''};
    for (auto& t : tab) {
        std::vector<unsigned char> m(t.n);
        for (int i = 0; i < t.n; i++) m[i] = (unsigned char)(i * 7 + 3);
        for (int c : {1, 3, 32, 64, 100, 128, 129, 2000}) {
            N = t.n; CH = c;
            REQ(Dig(m, c) == t.d);
        }
    }
}'''
F256 = open("/repo/" + SH).read(); F256 = F256[F256.index("void CSHA512::Finalize256("):]; F256 = F256[:F256.index("WriteBE64(hash,")]
def f(a, b): assert a in F256; return (SH, F256, F256.replace(a, b))
S=[
dict(id="sha-last-block-kept", prop="C10", needs="a piece that ends exactly with a block taken directly from the caller",
 breaks="the last full block of a piece is kept in the buffer and never compressed",
 edits=[(SH,"while (end - data >= 128) {","while (end - data > 128) {")], demo=DEMO),
dict(id="sha-tail-at-front", prop="C10", needs="a message written in several pieces whose rest is copied behind earlier buffered bytes",
 breaks="after completing a buffered block the number of buffered bytes is not reset, so the rest lands at the wrong offset",
 edits=[(SH,"        sha512::Transform(s, buf);\n        bufsize = 0;\n","        sha512::Transform(s, buf);\n")], demo=DEMO),
dict(id="sha-pad-crossing", prop="C10", needs="a message of 112 to 127 bytes modulo 128, whose padding needs a further block",
 breaks="the padding stops short when the length field does not fit into the block of the last message bytes",
 edits=[f("Write(pad, 1 + ((239 - (bytes % 128)) % 128));","const size_t used = bytes % 128;\n    Write(pad, used < 112 ? 112 - used : 1);")], demo=DEMO),
dict(id="sha-byte-length-8-bits", prop="C10", needs="a message of 8192 bits or more, or any whose length in bits has a third byte",
 breaks="the length in the padding keeps only its low 13 bits",
 edits=[f("WriteBE64(sizedesc + 8, bytes << 3);","WriteBE64(sizedesc + 8, (bytes << 3) & 0x1fff);")], demo=DEMO.replace("1000","1000").replace("int main() {", "int main() {\n    { int N = 1100, CH = 1; std::vector<unsigned char> m(1100); for (int i = 0; i < 1100; i++) m[i] = (unsigned char)(i * 7 + 3); REQ(Dig(m, 50) == \"%s\"); }" % dig(1100))),
]
