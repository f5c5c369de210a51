// C08: binary import and magnitude export are exact.
#include "giant.h"
using namespace bn;
static std::string hexs(const std::vector<unsigned char> &b) { std::string s; for (size_t i = 0; i < b.size() && i < 40; ++i) s += mc::strf("%02x", b[i]); if (b.size() > 40) s += ".."; return s + "(" + std::to_string(b.size()) + ")"; }
static Z refImport(std::vector<unsigned char> b, bool little) {
    if (b.empty()) return 0; if (!little) std::reverse(b.begin(), b.end());
    const bool neg = b.back() & 0x80; Z z = zfromMag(b.data(), b.size(), false); return neg ? Z(z - zpow2(8 * b.size())) : z;
}
static void import(const std::vector<unsigned char> &b, unsigned align) {
    static std::vector<unsigned char> mv(70000); unsigned char *const mem = mv.data();
    for (int little = 0; little < 2; ++little) {
        const Z want = refImport(b, little); mc::state(mc::mix(zhash(want), b.size() * 2 + little));
        MC_NOTE("%s %s-endian at offset %u = %s", hexs(b).c_str(), little ? "little" : "big", align, brief(want).c_str());
        unsigned char *p = mem + 64 + align; std::memset(mem, 0xA5, 64 + align + b.size() + 64); if (!b.empty()) std::memcpy(p, b.data(), b.size());
        for (int form = 0; form < 4; ++form) {
            mc::step(); BigInteger x;
            const BigInteger old(parse(bigK()));
            if (form == 0) x = BigInteger(b.size(), p, little);
            else if (form == 1) { x = BigInteger(old); x.fromBinary(p, b.size(), little); MC_CHECK(eq(old, bigK()), "fromBinary changed a copy of its target"); }
            else if (form == 2) { x = BigInteger(std::make_unique<BigIntegerImpl>(p, b.size(), little)); }
            else { BigIntegerImpl i(-1); i.assign(p, b.size(), little); x = BigInteger(std::make_unique<BigIntegerImpl>(i)); }
            const std::string s = x.toString(16);
            MC_CHECK(s == zhex(want), "form %d: importing %s (%s-endian, offset %u) gave 0x%s, expected %s", form, hexs(b).c_str(), little ? "little" : "big", align, s.c_str(), brief(want).c_str());
            x += 1; MC_CHECK(x.toString(16) == zhex(want + 1), "imported number + 1 gave %s", show(x).c_str());
        }
        if (little) { BigInteger x(b.size(), p); MC_CHECK(x.toString(16) == zhex(want), "default order is not little-endian"); }
        for (size_t i = 0; i < 64 + align + b.size() + 64; ++i) { const unsigned char e = i >= 64 + align && i < 64 + align + b.size() ? b[i - 64 - align] : 0xA5; MC_CHECK(mem[i] == e, "import of %s modified memory at %zd", hexs(b).c_str(), (ssize_t)i - 64 - align); }
    }
}
static void exports(const Z &z, const BigInteger &x, size_t cap, unsigned align) {
    static std::vector<unsigned char> mem(80000); const std::vector<unsigned char> m = zmag(z); const size_t n = std::min(cap, m.size());
    const size_t tot = 64 + align + cap + 64; mc::step(); mc::state(mc::mix(zhash(z), cap));
    for (unsigned char fill : {0xA5, 0x00}) {
        std::memset(mem.data(), fill, tot);
        const u64 got = x.copyMagDataTo(mem.data() + 64 + align, cap);
        MC_CHECK(got == n, "copyMagDataTo of %s into %zu bytes returned %" PRIu64 ", expected %zu", brief(z).c_str(), cap, got, n);
        for (size_t i = 0; i < tot; ++i) { const size_t k = i - 64 - align; const unsigned char e = i >= 64 + align && k < n ? m[k] : fill; MC_CHECK(mem[i] == e, "copyMagDataTo of %s into %zu bytes (offset %u): byte %zd is %02x, expected %02x", brief(z).c_str(), cap, align, (ssize_t)k, mem[i], e); }
    }
}
MC_SPACE("every buffer over 5 byte values up to 7 bytes", 1) {
    static const unsigned char A[] = {0x00, 0xff, 0x80, 0x7f, 0x01}; const unsigned L = mc::choose(mc::tier() ? 9 : 8); std::vector<unsigned char> b; for (unsigned i = 0; i < L; ++i) b.push_back(A[mc::choose(5)]);
    import(b, L % 4);
}
MC_SPACE("every 1- and 2-byte buffer", 1) { const unsigned L = 1 + mc::choose(2); std::vector<unsigned char> b; for (unsigned i = 0; i < L; ++i) b.push_back(mc::choose(256)); import(b, 0); }
MC_SPACE("every length up to 80 bytes, edge bytes and alignments", 1) {
    const unsigned L = 1 + mc::choose(80); static const unsigned char E[] = {0x00, 0xff, 0x80, 0x7f, 0x01, 0xfe}; static const unsigned char F[] = {0x00, 0xff, 0x5a};
    std::vector<unsigned char> b(L, F[mc::choose(3)]); b[0] = E[mc::choose(6)]; b[L - 1] = E[mc::choose(6)]; const unsigned align = mc::choose(5); import(b, align);
}
MC_SPACE("one set byte at every position", 1) { const unsigned L = 1 + mc::choose(45), i = mc::choose(L); const bool inv = mc::choose(2); std::vector<unsigned char> b(L, inv ? 0xff : 0); static const unsigned char E[] = {1, 0x80, 0xff, 0x7f}; b[i] ^= E[mc::choose(4)]; import(b, 0); }
MC_SPACE("long buffers", 1) { static const std::vector<unsigned> LS{127, 128, 129, 255, 256, 257, 639, 640, 641, 1000, 1024}; const unsigned L = mc::pick(LS), p = mc::choose(6), al = mc::choose(4); std::vector<unsigned char> b(L); for (unsigned i = 0; i < L; ++i) b[i] = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? (unsigned char)mc::mix(i, L) : p == 3 ? (i == L - 1 ? 0x80 : 0) : p == 4 ? (i == 0 ? 0x80 : 0) : i; import(b, al); }
MC_SPACE("very long buffers", 1) { static const std::vector<unsigned> LS{2047, 2048, 2049, 4095, 4096, 4097, 16384, 32768, 65535, 65536, 65537}; const unsigned L = LS[mc::choose(mc::tier() ? 11 : 6)], p = mc::choose(4), al = mc::choose(2); std::vector<unsigned char> b(L); for (unsigned i = 0; i < L; ++i) b[i] = p == 0 ? 0xff : p == 1 ? (unsigned char)mc::mix(i, L) : p == 2 ? (i == L - 1 ? 0x80 : 0) : (i == 0 ? 0x80 : 0); import(b, al); }
MC_SPACE("export: very long numbers", 1) {
    static const std::vector<unsigned> LS{255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537}; const unsigned L = LS[mc::choose(mc::tier() ? 13 : 9)], t = mc::choose(3); Z z = zpow2(8 * (L - 1)) * (t == 0 ? 1 : t == 1 ? 0x80 : 0xff); if (t) z += zpow2(8 * (L - 1)) / 3; if (mc::choose(2)) z = -z;
    const BigInteger x = parse(z); static const std::vector<int> D{-1000000, -256, -65, -4, -3, -2, -1, 0, 1, 4, 256}; const int d = mc::pick(D); const size_t cap = d == -1000000 ? L / 2 : (size_t)((int)L + d > 0 ? L + d : 0); exports(z, x, cap, mc::choose(2)); MC_NOTE("export of %u bytes into %zu", L, cap);
}
MC_SPACE("export: up to 3 limbs, every capacity", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3); const Val &a = mc::pick(V); const BigInteger x = parse(a); const size_t full = zmag(a.z).size();
    const size_t cap = mc::choose(full + 10); exports(a.z, x, cap, mc::choose(4)); MC_NOTE("export of %s into %zu bytes", brief(a.z).c_str(), cap);
}
MC_SPACE("export: every byte length up to 60", 1) {
    const unsigned L = 1 + mc::choose(60), t = mc::choose(4); Z z = zpow2(8 * (L - 1)) * (t == 0 ? 1 : t == 1 ? 0x80 : t == 2 ? 0xff : 0x7f) + (L > 1 ? Z(zpow2(8 * (L - 1)) / 3) : Z(0)); const bool neg = mc::choose(2); if (neg) z = -z;
    const BigInteger x = parse(z); const size_t cap = mc::choose(L + 6); exports(z, x, cap, 0); exports(z, x, cap, 1); MC_NOTE("export of %u bytes into %zu", L, cap);
}
MC_SPACE("export: every provenance", 1) {
    const Val &a = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); Keep k; const BigInteger x = make(a, p, k); if (x.toString(16) != a.hex) mc::prune();
    const size_t full = zmag(a.z).size(); const size_t cap = mc::choose(full + 10); exports(a.z, x, cap, 0); checkKeep(k); MC_NOTE("%s, export of %s into %zu bytes", provName(p), brief(a.z).c_str(), cap);
    MC_CHECK(x.toString(16) == a.hex, "export changed the number");
}
MC_SPACE("export then import gives the magnitude back", 1) {
    static const Vals V = limbVals(alpha5(), 0, 4); const Val &a = mc::pick(V); const BigInteger x = parse(a); std::vector<unsigned char> b(64); const u64 n = x.copyMagDataTo(b.data(), b.size()); b[n] = 0;
    BigInteger y(n + 1, b.data(), true); mc::step(); mc::state(a.h); MC_CHECK(y.toString(16) == zhex(zabs(a.z)), "round trip of %s gave %s", brief(a.z).c_str(), show(y).c_str()); MC_NOTE("round trip of %s", brief(a.z).c_str());
}
MC_SPACE("giant buffers up to 300 KB", 1) {
    static const std::vector<unsigned> LS{65534, 65535, 65536, 65537, 131071, 131072, 131073, 262143, 262144, 262145, 300001}; const unsigned L = mc::pick(LS), p = mc::choose(6); const bool little = mc::choose(2); std::vector<unsigned char> b(L, p == 0 ? 0xff : 0); if (p == 1) b[L - 1] = 0x80; if (p == 2) b[0] = 0x80; if (p == 3) b[L / 2] = 1; if (p >= 4) { u64 h = L; for (auto &c : b) { h = h * 6364136223846793005ull + 1442695040888963407ull; c = h >> 56; } b[little ? L - 1 : 0] = p == 4 ? 0x81 : 0x41; }
    std::vector<unsigned char> le(b); if (!little) std::reverse(le.begin(), le.end()); Z z = zfromMag(le.data(), L, false); if (le[L - 1] & 0x80) z -= zpow2(8ull * L); const std::vector<unsigned char> keep(b); const BigInteger x(L, b.data(), little); mc::step(); mc::state(mc::mix(zhash(z), little)); MC_NOTE("%u bytes, pattern %u", L, p);
    MC_CHECK(eq(x, z), "import of %u bytes, pattern %u, %s endian gave %s, expected %s", L, p, little ? "little" : "big", show(x).c_str(), brief(z).c_str()); MC_CHECK(b == keep, "import changed its buffer");
    const std::vector<unsigned char> m = zmag(z); std::vector<unsigned char> out(m.size() + 8, 0xa5); for (size_t cap : {m.size(), m.size() / 2, m.size() + 8}) { std::fill(out.begin(), out.end(), 0xa5); const size_t n = x.copyMagDataTo(out.data(), cap); mc::step(); const size_t e = std::min(cap, m.size()); MC_CHECK(n == e && std::equal(m.begin(), m.begin() + e, out.begin()) && std::all_of(out.begin() + e, out.end(), [](unsigned char c) { return c == 0xa5; }), "export of %zu bytes into %zu returned %zu or wrote something else", m.size(), cap, n); }
}
MC_SPACE("export: capacities up to 2^64 - 1", 1) { // the buffer is large enough for the number; the stated capacity may be anything from there
    static const std::vector<Z> V{0, 1, 255, Z(256), zpow2(31), zpow2(32) - 1, zpow2(64) + 77, zpow2(100) - 1, -zpow2(200), zpow2(2000) - 5}; const Z &z = mc::pick(V); const unsigned k = 16 + mc::choose(49); const int d = (int)mc::choose(9) - 4; if (k == 64 && d >= 0) mc::prune(); const size_t cap = k == 64 ? (size_t)(std::int64_t)d : ((size_t)1 << k) + d;
    const BigInteger x = big(z); const std::vector<unsigned char> m = zmag(z); std::vector<unsigned char> out(m.size() + 16, 0xa5); if (cap < m.size()) mc::prune(); const size_t n = x.copyMagDataTo(out.data(), cap); mc::step(); mc::state(mc::mix(zhash(z), cap)); MC_NOTE("%s into %zu", brief(z).c_str(), cap);
    MC_CHECK(n == m.size() && std::equal(m.begin(), m.end(), out.begin()) && std::all_of(out.begin() + n, out.end(), [](unsigned char c) { return c == 0xa5; }), "export of %s with capacity %zu returned %zu or wrote something else", brief(z).c_str(), cap, n);
}
MC_MAIN()
