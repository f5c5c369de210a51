// C05: comparisons and predicates form a consistent total order.
#include "giant.h"
using namespace bn;
static int sgn(const Z &a, const Z &b) { return a < b ? -1 : a == b ? 0 : 1; }
template <class L, class R> static void ops(const char *form, const L &x, const R &y, const Z &a, const Z &b) {
    mc::step(6);
    const bool ok = (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b);
    if (!ok) mc::fail(mc::strf("%s: %s against %s: == %d, != %d, < %d, <= %d, > %d, >= %d", form, brief(a).c_str(), brief(b).c_str(), x == y, x != y, x < y, x <= y, x > y, x >= y));
}
static void pair(const Z &a, const Z &b, const BigInteger &x, const BigInteger &y) {
    MC_NOTE("%s against %s: %d", brief(a).c_str(), brief(b).c_str(), sgn(a, b));
    ops("big, big", x, y, a, b);
    const int c = x.cmp(y); mc::step(); MC_CHECK((c > 0) - (c < 0) == sgn(a, b), "cmp(%s, %s) = %d", brief(a).c_str(), brief(b).c_str(), c);
    if (b >= INT64_MIN && b <= INT64_MAX) {
        const std::int64_t n = b.convert_to<std::int64_t>();
        ops("big, native", x, n, a, b); ops("native, big", n, x, b, a);
        const int d = x.cmp(n); mc::step(); MC_CHECK((d > 0) - (d < 0) == sgn(a, b), "cmp(%s, native %" PRId64 ") = %d", brief(a).c_str(), n, d);
    }
}
static void preds(const Z &a, const BigInteger &x) {
    MC_NOTE("predicates of %s", brief(a).c_str());
    const int odd = zlow64(a) & 1;
    mc::step(7);
    // twice: the second round may be answered from what the first one cached
    for (int i = 0; i < 2; ++i) {
        MC_CHECK(x.isZero() == (a == 0), "isZero of %s is %d", brief(a).c_str(), x.isZero());
        MC_CHECK(x.isOne() == (a == 1), "isOne of %s is %d", brief(a).c_str(), x.isOne());
        MC_CHECK(x.isNegOne() == (a == -1), "isNegOne of %s is %d", brief(a).c_str(), x.isNegOne());
        MC_CHECK(x.isPositive() == (a > 0), "isPositive of %s is %d", brief(a).c_str(), x.isPositive());
        MC_CHECK(x.isNegative() == (a < 0), "isNegative of %s is %d", brief(a).c_str(), x.isNegative());
        MC_CHECK(x.isOdd() == (odd == 1), "isOdd of %s is %d", brief(a).c_str(), x.isOdd());
        MC_CHECK(x.isEven() == (odd == 0), "isEven of %s is %d", brief(a).c_str(), x.isEven());
    }
    const BigInteger c(x); ops("number and its copy", x, c, a, a); ops("number and itself", x, x, a, a);
}
MC_SPACE("pairs of up to 3 limbs over 8 boundary words", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3); static const std::vector<BigInteger> B = [] { std::vector<BigInteger> r; for (auto &v : V) r.push_back(parse(v)); return r; }();
    const u32 i = mc::choose(V.size()), j = mc::choose(V.size());
    mc::state(mc::mix(V[i].h, V[j].h)); pair(V[i].z, V[j].z, B[i], B[j]);
}
MC_SPACE("pairs of 4 limbs over 5 boundary words", 1) {
    static const Vals V = limbVals(alpha5(), 4, 4); static const std::vector<BigInteger> B = [] { std::vector<BigInteger> r; for (auto &v : V) r.push_back(parse(v)); return r; }();
    const u32 i = mc::choose(V.size()), j = mc::choose(V.size());
    mc::state(mc::mix(V[i].h, V[j].h)); pair(V[i].z, V[j].z, B[i], B[j]);
}
MC_SPACE("every native boundary value on either side, with neighbours", 1) {
    const std::int64_t n = mc::pick(natives()), m = mc::pick(natives()); const int d = (int)mc::choose(5) - 2;
    const Z a = Z(m) + d, b = Z(n);
    const BigInteger x = parse(a), y(n); mc::state(mc::mix(zhash(a), zhash(b)));
    pair(a, b, x, y); pair(b, a, y, x);
    static const Vals V = limbVals(alpha8(), 2, 3); const Val &v = mc::pick(V); pair(v.z, b, parse(v), y);
}
MC_SPACE("predicates", 1) { static const Vals V = limbVals(alpha8(), 0, 4); const Val &a = mc::pick(V); const BigInteger x = parse(a); mc::state(a.h); preds(a.z, x); }
MC_SPACE("operands of every provenance", 2) {
    const Vals &V = coreVals();
    const unsigned p = mc::choose(NPROV); const Val &a = mc::pick(V); const unsigned q = mc::choose(NPROV); const Val &b = mc::pick(V);
    Keep k; const BigInteger x = make(a, p, k), y = make(b, q, k); if (!eq(x, a.z) || !eq(y, b.z)) mc::prune();
    MC_NOTE("left %s, right %s", provName(p), provName(q)); mc::state(mc::mix(p * 100 + q, mc::mix(a.h, b.h)));
    pair(a.z, b.z, x, y); preds(a.z, x); preds(b.z, y); pair(b.z, a.z, y, x); checkKeep(k);
}
MC_SPACE("values that differ in one word of up to 90", 1) {
    const unsigned n = 1 + mc::choose(90), i = mc::choose(n), p = mc::choose(3), s = mc::choose(4); const unsigned d = mc::choose(2);
    const Vals P = patternVals(n, 5); const Z &base = P[p == 0 ? 0 : p == 1 ? 1 : 4].z; Z o = base; const Z w = (d ? Z(1) : Z(0x80000000u)) << (32 * i);
    o = zbits(o - w) >= zbits(base) - 32 && o > w ? Z(o - w) : Z(o + w);
    const Z a = s & 1 ? Z(-base) : base, b = s & 2 ? Z(-o) : o;
    mc::state(mc::mix(zhash(a), zhash(b))); pair(a, b, parse(a), parse(b)); pair(b, a, parse(b), parse(a)); preds(b, parse(b));
}
MC_SPACE("giant values of 255 to 70001 limbs against neighbours at every scale", 2) {
    const Z a0 = pickGiant(); const unsigned k = mc::choose(12), s = mc::choose(3); const u64 b = zbits(a0);
    const Z w = k == 0 ? Z(0) : k <= 7 ? zpow2(std::min<u64>(b - 1, k == 1 ? 0 : k == 2 ? 31 : k == 3 ? 32 * 256 : k == 4 ? 32 * 4095 : k == 5 ? b / 2 : k == 6 ? b - 2 : b - 32 * 200 % b)) : k == 8 ? zpow2(b) : Z(a0 - (k == 9 ? Z(1) : k == 10 ? zpow2(63) : zpow2(32 * 255 - 1))); // how far the other one is away
    const Z a = s & 1 ? Z(-a0) : a0, o = s == 2 ? Z(w - a0) : s ? Z(w - a0) : Z(a0 - w); mc::state(mc::mix(zhash(a), zhash(o)));
    const BigInteger x = big(a), y = big(o); pair(a, o, x, y); pair(o, a, y, x); if (k == 0) preds(a, x);
}
MC_MAIN()
