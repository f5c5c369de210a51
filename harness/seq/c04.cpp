// C04: shifts are exact floor multiplication and division by powers of two.
#include "giant.h"
using namespace bn;
static Z ref(bool left, const Z &a, u64 n) { return left ? Z(a * zpow2(n)) : zfloorshift(a, n); }
static void forms(const Val &a, const BigInteger &x, u64 n) {
    mc::state(mc::mix(a.h, n));
    for (int left = 0; left < 2; ++left) {
        const Z want = ref(left, a.z, n); const char *o = left ? "<<" : ">>";
        MC_NOTE("%s %s %" PRIu64 " = %s", brief(a.z).c_str(), o, n, brief(want).c_str());
        { BigInteger r = left ? x << (std::int64_t)n : x >> (std::int64_t)n; mc::step(); MC_CHECK(eq(r, want), "%s %s %" PRIu64 " gave %s, expected %s", brief(a.z).c_str(), o, n, show(r).c_str(), brief(want).c_str()); }
        { BigInteger r(x); if (left) r <<= n; else r >>= n; mc::step(); MC_CHECK(eq(r, want), "%s %s= %" PRIu64 " on a copy gave %s, expected %s", brief(a.z).c_str(), o, n, show(r).c_str(), brief(want).c_str()); }
        { BigInteger r = parse(a); if (left) r <<= n; else r >>= n; mc::step(); MC_CHECK(eq(r, want), "%s %s= %" PRIu64 " gave %s, expected %s", brief(a.z).c_str(), o, n, show(r).c_str(), brief(want).c_str()); }
        MC_CHECK(eq(x, a.z), "operand %s became %s", brief(a.z).c_str(), show(x).c_str());
    }
}
MC_SPACE("up to 3 limbs over 8 boundary words, every count 0..130", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V); const u64 n = mc::choose(131); const BigInteger x = parse(a); forms(a, x, n);
}
MC_SPACE("4 limbs over 5 boundary words, word-boundary counts", 1) {
    static const Vals V = limbVals(alpha5(), 4, mc::tier() ? 5 : 4); static const std::vector<u64> C{0, 1, 2, 16, 31, 32, 33, 63, 64, 65, 95, 96, 97, 126, 127, 128, 129, 159, 160, 161, 191, 192, 193, 256, 1000};
    const Val &a = mc::pick(V); const u64 n = mc::pick(C); const BigInteger x = parse(a); forms(a, x, n);
}
MC_SPACE("powers of two and neighbours, every length and count up to 140", 1) {
    const unsigned k = mc::choose(140); const u64 n = mc::choose(140); const unsigned d = mc::choose(3); const bool neg = mc::choose(2);
    Z z = zpow2(k) + (int)d - 1; const Val a(neg ? Z(-z) : z); const BigInteger x = parse(a); forms(a, x, n);
}
MC_SPACE("every provenance", 1) {
    const Val &a = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); static const std::vector<u64> C{0, 1, 31, 32, 33, 63, 64, 65, 96, 97, 128, 200};
    const u64 n = mc::pick(C); Keep k; const BigInteger x = make(a, p, k); if (!eq(x, a.z)) mc::prune();
    forms(a, x, n); checkKeep(k);
    for (int left = 0; left < 2; ++left) { Keep k2; BigInteger r = make(a, p, k2); if (left) r <<= n; else r >>= n; mc::step(); MC_CHECK(eq(r, ref(left, a.z, n)), "%s %s %" PRIu64 " in place (%s) gave %s", brief(a.z).c_str(), left ? "<<" : ">>", n, provName(p), show(r).c_str()); checkKeep(k2); }
}
MC_SPACE("chains of in-place shifts on one number", 2) {
    static const Vals V = [] { Vals v = limbVals(alpha3(), 0, 2); for (auto &x : coreVals()) v.push_back(x); return v; }();
    static const std::vector<int> D{1, -1, 31, -31, 32, -32, 33, -33, 64, -64, 96, -97};
    const unsigned depth = mc::tier() ? 5 : 4;
    const Val &a = mc::pick(V); Z z = a.z; BigInteger x = parse(a); std::vector<std::pair<BigInteger, Z>> copies;
    for (unsigned i = 0; i < depth; ++i) {
        const int d = mc::pick(D);
        if (i == 1) copies.emplace_back(x, z);
        if (d > 0) { x <<= (u64)d; z = ref(true, z, d); } else { x >>= (u64)-d; z = ref(false, z, -d); }
        MC_NOTE("%s by %d: %s", d > 0 ? "left" : "right", d, brief(z).c_str());
        mc::step(); mc::state(zhash(z)); MC_CHECK(eq(x, z), "after %u in-place shifts of %s: %s, expected %s", i + 1, brief(a.z).c_str(), show(x).c_str(), brief(z).c_str());
    }
    for (auto &c : copies) MC_CHECK(eq(c.first, c.second), "a copy taken before the shift changed to %s", show(c.first).c_str());
    x += 1; MC_CHECK(eq(x, Z(z + 1)), "%s + 1 gave %s", brief(z).c_str(), show(x).c_str());
}
MC_SPACE("long operands and long counts", 1) {
    const unsigned L = 1 + mc::choose(60); const Vals P = patternVals(L, 8); const Val &a0 = mc::pick(P); const bool neg = mc::choose(2);
    static const std::vector<u64> C{0, 1, 31, 32, 63, 64, 65, 320, 500, 991, 992, 993, 1919, 1920, 1921, 4096};
    const u64 n = mc::pick(C); const Val a(neg ? Z(-a0.z) : a0.z); const BigInteger x = parse(a); forms(a, x, n);
}
MC_SPACE("very long operands", 1) {
    static const std::vector<unsigned> L{63, 64, 65, 127, 128, 129, 256, 257, 600}; static std::map<unsigned, Vals> P; if (P.empty()) for (unsigned n : L) P.emplace(n, patternVals(n, 6));
    const unsigned n = mc::pick(L); const Val &a0 = mc::pick(P.at(n)); const bool neg = mc::choose(2); static const std::vector<u64> C{1, 31, 32, 33, 64, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 19168, 19199, 19200, 19201, 40000};
    const u64 k = mc::pick(C); const Val a(neg ? Z(-a0.z) : a0.z); const BigInteger x = parse(a); forms(a, x, k);
}
static const std::vector<u64> &hugeCounts() { static const std::vector<u64> C = [] { std::vector<u64> v; for (unsigned k = 12; k <= 22; ++k) for (int d : {-33, -32, -1, 0, 1, 31, 32}) v.push_back((u64(1) << k) + d); return v; }(); return C; }
static void quick(const Z &a, const BigInteger &x, u64 n, bool left) { // one form each: large results are costly to compare
    const Z want = ref(left, a, n); BigInteger r(x); if (n % 2) { if (left) r <<= n; else r >>= n; } else r = left ? x << (std::int64_t)n : x >> (std::int64_t)n;
    mc::step(); MC_CHECK(eq(r, want), "%s %s %" PRIu64 " gave %s, expected %s", brief(a).c_str(), left ? "<<" : ">>", n, show(r).c_str(), brief(want).c_str()); MC_CHECK(eq(x, a), "operand %s became %s", brief(a).c_str(), show(x).c_str());
}
MC_SPACE("short operands by counts around powers of two up to 2^22", 1) {
    const u64 n = mc::pick(hugeCounts()); static const std::vector<Z> V{1, 3, Z(0x80000000u), Z(0xffffffffu), zpow2(32) + 1, zpow2(64) - 1, zpow2(95) + zpow2(31), 0}; Z a = mc::pick(V); if (mc::choose(2)) a = -a;
    mc::state(mc::mix(zhash(a), n)); const BigInteger x = big(a); quick(a, x, n, true); quick(a, x, n, false);
}
MC_SPACE("giant operands by counts around powers of two up to 2^22", 2) {
    Z a = pickGiant(); if (mc::choose(2)) a = -a; const u64 n = hugeCounts()[7 * mc::choose(11) + mc::choose(7)]; const size_t b = zbits(a); if (!mc::tier() && n + 40 < b / 8) mc::prune();
    mc::state(mc::mix(zhash(a), n)); const BigInteger x = big(a); quick(a, x, n, false); if (b < 300000 && n < 300000) quick(a, x, n, true);
}
MC_SPACE("giant operands by counts around their own length", 2) {
    Z a = pickGiant(); if (mc::choose(2)) a = -a; const int d = (int)mc::choose(7) - 3; const u64 b = zbits(a), n = mc::choose(2) ? (b + 31) / 32 * 32 + d : b + d; mc::state(mc::mix(zhash(a), n)); const BigInteger x = big(a); quick(a, x, n, false);
}
MC_SPACE("right shifts by counts up to 2^64 - 1", 2) { // everything is shifted out
    const unsigned k = 23 + mc::choose(42); const int d = (int)mc::choose(5) - 2; if (k == 64 && d >= 0) mc::prune(); const u64 n = k == 64 ? (u64)d : (u64(1) << k) + d;
    static const std::vector<Z> V{1, Z(0x80000000u), zpow2(32), zpow2(64) - 1, zpow2(700) + 1, giant(4096, 5), giant(65536, 0), 0}; Z a = mc::pick(V); if (mc::choose(2)) a = -a; const Z want = a < 0 ? Z(-1) : Z(0); mc::state(mc::mix(zhash(a), n));
    const BigInteger x = big(a); BigInteger r(x); r >>= n; mc::step(); MC_CHECK(eq(r, want), "%s >>= %" PRIu64 " gave %s", brief(a).c_str(), n, show(r).c_str());
    if (n <= INT64_MAX) { r = x >> (std::int64_t)n; mc::step(); MC_CHECK(eq(r, want), "%s >> %" PRIu64 " gave %s", brief(a).c_str(), n, show(r).c_str()); }
}
MC_MAIN()
