// C03: bitwise operators act on the infinite two's complement.
#include "giant.h"
using namespace bn;
static const char *OPN[] = {"&", "|", "^"};
static bool fits(const Z &z) { return z >= INT64_MIN && z <= INT64_MAX; }
static Z ref(unsigned op, const Z &a, const Z &b) { return op == 0 ? zand(a, b) : op == 1 ? zor(a, b) : zxor(a, b); }
template <class L, class R> static BigInteger bin(unsigned op, const L &a, const R &b) { return op == 0 ? a & b : op == 1 ? a | b : a ^ b; }
template <class R> static void comp(unsigned op, BigInteger &a, const R &b) { if (op == 0) a &= b; else if (op == 1) a |= b; else a ^= b; }
#define EXPECT(x, want, what) do { mc::step(); if (!eq((x), (want))) mc::fail(mc::strf("%s: %s %s %s gave %s, expected %s", what, brief(a.z).c_str(), OPN[op], brief(b.z).c_str(), show(x).c_str(), brief(want).c_str())); } while (0)
#define SAME(x, v, what) MC_CHECK(eq((x), (v).z), "%s: operand %s became %s (%s %s %s)", what, brief((v).z).c_str(), show(x).c_str(), brief(a.z).c_str(), OPN[op], brief(b.z).c_str())
static void allForms(unsigned op, const Val &a, const Val &b, const BigInteger &x, const BigInteger &y) {
    const Z want = ref(op, a.z, b.z);
    MC_NOTE("%s %s %s = %s", brief(a.z).c_str(), OPN[op], brief(b.z).c_str(), brief(want).c_str());
    mc::state(mc::mix(op, mc::mix(a.h, b.h)));
    { BigInteger r = bin(op, x, y); EXPECT(r, want, "binary"); }
    { BigInteger r(x); comp(op, r, y); EXPECT(r, want, "compound on a copy"); }
    { BigInteger r = parse(a); comp(op, r, y); EXPECT(r, want, "compound"); }
    SAME(x, a, "left"); SAME(y, b, "right");
    if (a.z == b.z) { BigInteger r = parse(a); comp(op, r, r); EXPECT(r, want, "self-aliased"); BigInteger s(x); comp(op, s, s); EXPECT(s, want, "self-aliased copy"); SAME(x, a, "self-aliased copy, original"); }
    if (fits(b.z)) { std::int64_t n = b.z.convert_to<std::int64_t>(); { BigInteger r = bin(op, x, n); EXPECT(r, want, "native right"); } { BigInteger r(x); comp(op, r, n); EXPECT(r, want, "compound native"); } SAME(x, a, "native right"); }
    if (fits(a.z)) { std::int64_t n = a.z.convert_to<std::int64_t>(); BigInteger r = bin(op, n, y); EXPECT(r, want, "native left"); SAME(y, b, "native left"); }
}
static void unary(const Val &a, const BigInteger &x, bool heavy = true) {
    const size_t bits = zbits(a.z);
    const Z nb0 = zpow2(bits) - 1 - zabs(a.z), nb = a.z < 0 ? Z(-nb0) : nb0;
    MC_NOTE("~%s, blocks, notBits = %s", brief(a.z).c_str(), brief(nb).c_str());
    mc::state(a.h);
    { BigInteger r = ~x; mc::step(); MC_CHECK(eq(r, znot(a.z)), "~%s gave %s", brief(a.z).c_str(), show(r).c_str()); }
    { BigInteger r(x); r.notSelf(); mc::step(); MC_CHECK(eq(r, znot(a.z)), "notSelf of %s gave %s", brief(a.z).c_str(), show(r).c_str()); r.notSelf(); MC_CHECK(eq(r, a.z), "notSelf twice of %s gave %s", brief(a.z).c_str(), show(r).c_str()); }
    { BigInteger r(x); r.notBits(); mc::step(); MC_CHECK(eq(r, nb), "notBits of %s gave %s, expected %s", brief(a.z).c_str(), show(r).c_str(), brief(nb).c_str());
      MC_CHECK(r.isZero() == (nb == 0) && r.isNegative() == (nb < 0) && r.isPositive() == (nb > 0), "notBits of %s gave a number that does not behave as %s", brief(a.z).c_str(), brief(nb).c_str());
      r += 1; MC_CHECK(eq(r, Z(nb + 1)), "notBits of %s, plus 1, gave %s", brief(a.z).c_str(), show(r).c_str()); }
    const size_t nblk = bits / 32 + 5;
    for (int order = 0; order < 2; ++order) { // ascending on the object, descending on a copy
        const BigInteger c(x);
        for (size_t k = 0; k < nblk; ++k) {
            const size_t i = order ? nblk - 1 - k : k;
            const std::uint32_t got = (order ? c : x).get2sComplement(i), want = (std::uint32_t)(zlow64(zfloorshift(a.z, 32 * i)) & 0xffffffffu);
            mc::step(); MC_CHECK(got == want, "two's complement block %zu of %s is %08x, expected %08x", i, brief(a.z).c_str(), got, want);
        }
        MC_CHECK(x.get2sComplement(1000000) == (a.z < 0 ? 0xffffffffu : 0u), "far block of %s", brief(a.z).c_str());
    }
    MC_CHECK(eq(x, a.z), "operand %s became %s", brief(a.z).c_str(), show(x).c_str());
}
MC_SPACE("pairs of up to 2 limbs over 8 boundary words, all forms", 1) {
    static const Vals V = limbVals(alpha8(), 0, 2);
    const Val &a = mc::pick(V), &b = mc::pick(V); const unsigned op = mc::choose(3);
    const BigInteger x = parse(a), y = parse(b); allForms(op, a, b, x, y);
}
MC_SPACE("pairs of up to 3 limbs over 8 boundary words, compound form", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V), &b = mc::pick(V);
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound"); }
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("%s with %s", brief(a.z).c_str(), brief(b.z).c_str());
}
MC_SPACE("pairs of up to 4 and 3 limbs over 5 boundary words", 1) {
    static const Vals V = limbVals(alpha5(), 0, 4), W = limbVals(alpha5(), 1, 3);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound"); BigInteger s(y); comp(op, s, x); EXPECT(s, ref(op, a.z, b.z), "compound, swapped"); }
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("%s with %s", brief(a.z).c_str(), brief(b.z).c_str());
}
MC_SPACE("every native boundary value on either side", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V); const Val b{Z(mc::pick(natives()))}; const unsigned op = mc::choose(3);
    const BigInteger x = parse(a), y = parse(b); allForms(op, a, b, x, y); allForms(op, b, a, y, x);
}
MC_SPACE("operands of every provenance", 2) {
    const Vals &V = coreVals();
    const unsigned p = mc::choose(NPROV); const Val &a = mc::pick(V); const unsigned q = mc::choose(NPROV); const Val &b = mc::pick(V);
    Keep k; const BigInteger x = make(a, p, k), y = make(b, q, k); if (!eq(x, a.z) || !eq(y, b.z)) mc::prune();
    MC_NOTE("left %s, right %s", provName(p), provName(q));
    for (unsigned op = 0; op < 3; ++op) { allForms(op, a, b, x, y); Keep k2; BigInteger r = make(a, p, k2); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound in place"); checkKeep(k2); }
    checkKeep(k);
}
MC_SPACE("complement, notBits and blocks", 1) { static const Vals V = limbVals(alpha8(), 0, 4); const Val &a = mc::pick(V); const BigInteger x = parse(a); unary(a, x); }
MC_SPACE("complement, notBits and blocks, every provenance", 1) {
    const Val &a = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); Keep k; const BigInteger x = make(a, p, k); if (!eq(x, a.z)) mc::prune();
    unary(a, x); checkKeep(k);
    Keep k2; BigInteger y = make(a, p, k2); y.notBits(); const Z nb0 = zpow2(zbits(a.z)) - 1 - zabs(a.z); MC_CHECK(eq(y, a.z < 0 ? Z(-nb0) : nb0), "notBits in place of %s gave %s", brief(a.z).c_str(), show(y).c_str());
    BigInteger w = make(a, p, k2); w.notSelf(); MC_CHECK(eq(w, znot(a.z)), "notSelf in place of %s gave %s", brief(a.z).c_str(), show(w).c_str()); checkKeep(k2);
}
MC_SPACE("values one off powers of two, every bit length up to 200", 1) {
    const unsigned n = mc::choose(200); const int d = (int)mc::choose(3) - 1; const bool neg = mc::choose(2);
    Z z = zpow2(n) + d; const Val a(neg ? Z(-z) : z); const BigInteger x = parse(a); unary(a, x);
    static const Vals M = [] { Vals v; for (unsigned k : {0u, 31u, 32u, 33u, 63u, 64u, 96u, 128u, 160u}) { v.emplace_back(Z(zpow2(k) - 1)); v.emplace_back(Z(-zpow2(k))); } return v; }();
    const Val &b = mc::pick(M); const BigInteger y = parse(b);
    for (unsigned op = 0; op < 3; ++op) allForms(op, a, b, x, y);
}
MC_SPACE("all length pairs up to 24 limbs", 2) {
    static std::vector<Vals> P; if (P.empty()) for (unsigned n = 0; n <= 24; ++n) P.push_back(n ? patternVals(n, 8) : Vals());
    const unsigned la = 1 + mc::choose(24), lb = 1 + mc::choose(24);
    const Val &a0 = mc::pick(P[la]), &b0 = mc::pick(P[lb]); const unsigned s = mc::choose(4);
    const Val a(s & 1 ? Z(-a0.z) : a0.z), b(s & 2 ? Z(-b0.z) : b0.z); const BigInteger x = parse(a), y = parse(b);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "long"); }
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("%u x %u limbs", la, lb);
}
MC_SPACE("very long operands", 2) {
    static const std::vector<unsigned> L{1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 600};
    static std::map<unsigned, Vals> P; if (P.empty()) for (unsigned n : L) P.emplace(n, patternVals(n, 6));
    const unsigned la = mc::pick(L), lb = mc::pick(L); const Val &a0 = mc::pick(P.at(la)), &b0 = mc::pick(P.at(lb)); const unsigned s = mc::choose(4);
    const Val a(s & 1 ? Z(-a0.z) : a0.z), b(s & 2 ? Z(-b0.z) : b0.z); const BigInteger x = parse(a), y = parse(b);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "very long"); }
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("%u x %u limbs", la, lb);
}
MC_SPACE_T("pairs of 4 x 4 limbs over 5 boundary words, all signs", 1) {
    static const Vals V = limbVals(alpha5(), 3, 4), W = limbVals(alpha5(), 4, 5);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound"); BigInteger s(y); comp(op, s, x); EXPECT(s, ref(op, a.z, b.z), "compound, swapped"); }
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("pair");
}
MC_SPACE("giant operands of 255 to 70001 limbs", 2) {
    Z a = pickGiant(); const unsigned k = mc::choose(5); if (mc::choose(2)) a = -a; const BigInteger x = big(a); const std::string A = brief(a); mc::state(mc::mix(zhash(a), k)); MC_NOTE("%s, other operand %u", A.c_str(), k);
    if (k == 4) {
        BigInteger r(x); r.notSelf(); mc::step(); MC_CHECK(eq(r, znot(a)), "~%s gave %s", A.c_str(), show(r).c_str());
        const u64 n = (zbits(a) + 31) / 32; const std::vector<unsigned char> t = ztwos(a, 4 * n + 8);
        auto want = [&](u64 i) { return i >= n ? (a < 0 ? (u32)-1 : 0u) : (u32)t[4 * i] | (u32)t[4 * i + 1] << 8 | (u32)t[4 * i + 2] << 16 | (u32)t[4 * i + 3] << 24; };
        for (u64 base : {u64(0), n / 2, n, u64(256), u64(65536), u64(1) << 30, u64(1) << 31, u64(1) << 32, (u64(1) << 32) + n, u64(1) << 48, u64(1) << 58, u64(1) << 61, u64(1) << 62, u64(1) << 63, UINT64_MAX - 2}) for (int d = -2; d <= 2; ++d) {
            const u64 i = base + d; if ((d < 0 && base < (u64)-d) || (d > 0 && i < base)) continue;
            mc::step(); MC_CHECK(x.get2sComplement(i) == want(i), "block %" PRIu64 " of %s is %08x, expected %08x", i, A.c_str(), x.get2sComplement(i), want(i));
        }
        return;
    }
    const size_t n = zbits(a) / 32 + 1; const Z b = k == 0 ? Z(-1) : k == 1 ? giant(n, 5) : k == 2 ? Z(-giant(n / 2 + 1, 5)) : Z(zpow2(100) - 1); const BigInteger y = big(b);
    BigInteger r = x & y; mc::step(); MC_CHECK(eq(r, zand(a, b)), "%s & %s gave %s", A.c_str(), brief(b).c_str(), show(r).c_str());
    r = x; r |= y; mc::step(); MC_CHECK(eq(r, zor(a, b)), "%s |= %s gave %s", A.c_str(), brief(b).c_str(), show(r).c_str());
    r = y ^ x; mc::step(); MC_CHECK(eq(r, zxor(a, b)), "%s ^ %s gave %s", brief(b).c_str(), A.c_str(), show(r).c_str());
    r = y; r &= x; mc::step(); MC_CHECK(eq(r, zand(a, b)), "%s &= %s gave %s", brief(b).c_str(), A.c_str(), show(r).c_str());
    MC_CHECK(eq(x, a), "operand %s became %s", A.c_str(), show(x).c_str());
}
MC_MAIN()
