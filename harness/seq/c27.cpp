// C27: the character stream delivers exactly the given characters.
#include "mc.h"
#include "streams/StringReadStream.h"
#include <memory>
using pg::base::StringReadStream;
struct Model { std::string s; size_t pos = 0; };
static void probe(StringReadStream &st, Model &m, unsigned op) {
    mc::step(); const bool end = m.pos == m.s.size();
    switch (op) {
    case 0: { const char c = st.get(); MC_NOTE("get"); MC_CHECK(c == (end ? 0 : m.s[m.pos]), "get at %zu returned %d, expected %d", m.pos, c, end ? 0 : m.s[m.pos]); if (!end) ++m.pos; break; }
    case 1: { const char c = st.peek(); MC_NOTE("peek"); MC_CHECK(c == (end ? 0 : m.s[m.pos]), "peek at %zu returned %d, expected %d", m.pos, c, end ? 0 : m.s[m.pos]); break; }
    case 2: { const u_int64_t t = st.tell(); MC_NOTE("tell"); MC_CHECK(t == m.pos, "tell is %lu after %zu characters", t, m.pos); break; }
    case 3: { const bool e = st.eof(); MC_NOTE("eof"); MC_CHECK(e == end, "eof is %d after %zu of %zu characters", e, m.pos, m.s.size()); break; }
    }
    mc::state(mc::mix(m.s.size() > 256 ? m.s.size() : mc::hashStr(m.s), m.pos));
}
static void drain(StringReadStream &st, Model &m) { while (m.pos < m.s.size()) { probe(st, m, 2); probe(st, m, 3); probe(st, m, 1); probe(st, m, 0); } for (int i = 0; i < 2; ++i) for (unsigned o = 0; o < 4; ++o) probe(st, m, o); }
static const std::vector<std::string> &strings() { static std::vector<std::string> v{"", "a", "ab", "abc", std::string(1, '\0'), std::string("a\0b", 3), "\xff\x80", std::string("\0\0", 2), "0 +\n", std::string(40, 'q') + "r"}; return v; }
// source kinds: C string / std::string, referenced / copied
struct Source { std::string str; std::unique_ptr<char[]> c; unsigned kind; };
static std::unique_ptr<StringReadStream> open(Source &s, const std::string &text, unsigned kind) {
    s.kind = kind; if (kind < 2) { if (text.find('\0') != std::string::npos) mc::prune(); s.c.reset(new char[text.size() + 1]); std::memcpy(s.c.get(), text.c_str(), text.size() + 1); return std::make_unique<StringReadStream>(s.c.get(), kind == 1); }
    s.str = text; return std::make_unique<StringReadStream>(s.str, kind == 3);
}
static void ruin(Source &s) { if (s.kind == 1) { std::memset(s.c.get(), '#', std::strlen(s.c.get())); s.c.reset(); } if (s.kind == 3) { s.str.assign(300, '#'); s.str.shrink_to_fit(); s.str = std::string(); } }
MC_SPACE("every operation sequence, including moves", 2) {
    const std::string &text = mc::pick(strings()); const unsigned kind = mc::choose(4); Source src, other; Model m{text, 0}; auto st = open(src, text, kind); MC_NOTE("\"%s\" kind %u", text.c_str(), kind);
    const unsigned D = mc::tier() ? 8 : 6;
    for (unsigned d = 0; d < D; ++d) switch (const unsigned o = mc::choose(8)) {
        case 0: case 1: case 2: case 3: probe(*st, m, o); break;
        case 4: { MC_NOTE("move construct"); auto n = std::make_unique<StringReadStream>(std::move(*st)); st = std::move(n); mc::step(); break; }
        case 5: { MC_NOTE("move assign over another stream"); Source o2; auto n = open(o2, "zz", 1 + 2 * (d & 1)); n->get(); *n = std::move(*st); st = std::move(n); mc::step(); break; }
        case 6: { MC_NOTE("the source changes (copied streams only)"); if (kind % 2) { ruin(src); src.kind = 9; } mc::step(); break; }
        case 7: { MC_NOTE("self move assign"); StringReadStream &r = *st; *st = std::move(r); mc::step(); break; }
        }
    drain(*st, m);
}
MC_SPACE("referenced sources show no change of other streams", 1) {
    const std::string &text = mc::pick(strings()); Source a; auto s1 = open(a, text, 2); StringReadStream s2(a.str), s3(a.str, true); Model m1{text, 0}, m2{text, 0}, m3{text, 0};
    for (unsigned d = 0; d < 5; ++d) switch (mc::choose(3)) { case 0: probe(*s1, m1, d % 2); break; case 1: probe(s2, m2, 0); break; case 2: probe(s3, m3, 0); break; }
    drain(*s1, m1); drain(s2, m2); drain(s3, m3);
}
MC_SPACE("every string up to a length", 1) { static const char A[] = {'a', '\0', '\n', '\xff', ' '}; const unsigned n = mc::choose(mc::tier() ? 7 : 6); std::string s; for (unsigned i = 0; i < n; ++i) s += A[mc::choose(5)]; const unsigned kind = mc::choose(4); Source src; auto st = open(src, s, kind); Model m{s, 0}; MC_NOTE("%zu characters, kind %u", s.size(), kind); drain(*st, m); }
MC_SPACE("long strings", 1) { static const std::vector<unsigned> NS{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000}; const unsigned n0 = mc::choose(300 + NS.size()), n = n0 < 300 ? n0 : NS[n0 - 300], kind = mc::choose(4); std::string s; for (unsigned i = 0; i < n; ++i) s += char('!' + i % 90); Source src; auto st = open(src, s, kind); Model m{s, 0}; if (kind == 1 || kind == 3) ruin(src); drain(*st, m); }
MC_MAIN()
