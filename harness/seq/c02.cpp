// C02: division and remainder satisfy the truncated division identity in every form.
#include "giant.h"
using namespace bn;
static bool fits(const Z &z) { return z >= INT64_MIN && z <= INT64_MAX; }
static bool divBy0;
void mc::beforeExecution() { static bool once = (quietDivBy0(&divBy0), true); (void)once; divBy0 = false; }

struct Ctx { const Val &a, &b; Z q, r; };
#define EXPECT(x, want, what) do { mc::step(); if (!eq((x), (want))) mc::fail(mc::strf("%s: %s by %s gave %s, expected %s", what, brief(c.a.z).c_str(), brief(c.b.z).c_str(), show(x).c_str(), brief(want).c_str())); } while (0)
#define SAME(x, v, what) MC_CHECK(eq((x), (v).z), "%s: operand %s became %s (%s by %s)", what, brief((v).z).c_str(), show(x).c_str(), brief(c.a.z).c_str(), brief(c.b.z).c_str())
static BigInteger wrap(const BigIntegerImpl &i) { return BigInteger(std::make_unique<BigIntegerImpl>(i)); }
static Ctx ctx(const Val &a, const Val &b) {
    Ctx c{a, b, Z(a.z / b.z), 0}; c.r = a.z - c.q * b.z; // cpp_int division truncates; the remainder follows from the identity
    MC_CHECK(zabs(c.r) < zabs(b.z) && (c.r == 0 || (c.r < 0) == (a.z < 0)), "reference model violates the identity");
    mc::state(mc::mix(a.h, b.h));
    MC_NOTE("%s = %s * %s + %s", brief(a.z).c_str(), brief(c.q).c_str(), brief(b.z).c_str(), brief(c.r).c_str());
    return c;
}
static void noError() { MC_CHECK(!divBy0, "divide-by-zero was reported for a non-zero divisor"); }

static void forms(const Val &a, const Val &b, const BigInteger &x, const BigInteger &y, bool more) {
    const Ctx c = ctx(a, b);
    { BigInteger q = x / y; EXPECT(q, c.q, "a / b"); } { BigInteger r = x % y; EXPECT(r, c.r, "a % b"); }
    { BigInteger q(x); q /= y; EXPECT(q, c.q, "a /= b on a copy"); BigInteger r(x); r %= y; EXPECT(r, c.r, "a %= b on a copy"); }
    SAME(x, a, "left"); SAME(y, b, "right");
    if (more) {
        { BigInteger q = parse(a); q /= y; EXPECT(q, c.q, "a /= b"); BigInteger r = parse(a); r %= y; EXPECT(r, c.r, "a %= b"); SAME(y, b, "right after compound"); }
        { BigIntegerImpl p(a.hex, 16), d(b.hex, 16), r; p.divideAssignAndReminder(d, r); EXPECT(wrap(p), c.q, "divideAssignAndReminder, quotient"); EXPECT(wrap(r), c.r, "divideAssignAndReminder, remainder"); SAME(wrap(d), b, "divideAssignAndReminder"); }
        { BigIntegerImpl p(a.hex, 16), d(b.hex, 16), q("-1234567890123456789012345678901234567890"); p.modAssignAndQuotient(d, q); EXPECT(wrap(q), c.q, "modAssignAndQuotient, quotient"); EXPECT(wrap(p), c.r, "modAssignAndQuotient, remainder"); SAME(wrap(d), b, "modAssignAndQuotient"); }
        { BigIntegerImpl p(a.hex, 16), d(b.hex, 16), q, r("99999999999999999999999"); BigIntegerImpl::div(q, r, p, d); EXPECT(wrap(q), c.q, "static div, quotient"); EXPECT(wrap(r), c.r, "static div, remainder"); SAME(wrap(p), a, "static div"); SAME(wrap(d), b, "static div"); }
        if (fits(b.z)) {
            const std::int64_t n = b.z.convert_to<std::int64_t>();
            { BigInteger q = x / n; EXPECT(q, c.q, "a / native"); BigInteger r = x % n; EXPECT(r, c.r, "a % native"); }
            { BigInteger q(x); q /= n; EXPECT(q, c.q, "a /= native"); BigInteger r(x); r %= n; EXPECT(r, c.r, "a %= native"); SAME(x, a, "left of native"); }
            { BigIntegerImpl p(a.hex, 16), r; p.divideAssignAndReminder(n, r); EXPECT(wrap(p), c.q, "divideAssignAndReminder native, quotient"); EXPECT(wrap(r), c.r, "divideAssignAndReminder native, remainder"); }
            { BigIntegerImpl p(a.hex, 16), q("-5"); p.modAssignAndQuotient(n, q); EXPECT(wrap(q), c.q, "modAssignAndQuotient native, quotient"); EXPECT(wrap(p), c.r, "modAssignAndQuotient native, remainder"); }
            { BigIntegerImpl p(a.hex, 16), q, r; BigIntegerImpl::div(q, r, p, n); EXPECT(wrap(q), c.q, "static div native, quotient"); EXPECT(wrap(r), c.r, "static div native, remainder"); SAME(wrap(p), a, "static div native"); }
        }
        if (fits(a.z)) { const std::int64_t n = a.z.convert_to<std::int64_t>(); BigInteger q = n / y; EXPECT(q, c.q, "native / b"); BigInteger r = n % y; EXPECT(r, c.r, "native % b"); }
        if (a.z == b.z) {
            BigInteger q = parse(a); q /= q; EXPECT(q, c.q, "a /= a"); BigInteger r = parse(a); r %= r; EXPECT(r, c.r, "a %= a");
            BigInteger s = parse(a), t(s), k(s); s /= t; EXPECT(s, c.q, "a /= copy of a"); SAME(t, a, "copy"); t %= k; EXPECT(t, c.r, "a %= copy of a"); SAME(k, a, "copy");
        }
        // the results are ordinary numbers: used in a further operation they behave as their value
        { BigInteger q = x / y, r = x % y; q *= y; q += r; EXPECT(q, a.z, "(a / b) * b + a % b"); }
    }
    noError();
}
static const Vals &nonzero(const Vals &v) { static std::map<const Vals *, Vals> m; Vals &r = m[&v]; if (r.empty()) for (auto &x : v) if (x.z != 0) r.push_back(x); return r; }

MC_SPACE("pairs of up to 2 limbs over 8 boundary words, all forms", 1) {
    static const Vals V = limbVals(alpha8(), 0, 2), W = limbVals(alpha8(), 1, 2);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x = parse(a), y = parse(b); forms(a, b, x, y, true);
}
MC_SPACE("dividends of up to 4 limbs by divisors of up to 3 limbs", 1) {
    static const Vals V = limbVals(alpha8(), 3, 4, false), W = limbVals(alpha8(), 1, 3, false);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    const Ctx c = ctx(a, b);
    BigIntegerImpl q, r; { BigInteger q = x / y; EXPECT(q, c.q, "a / b"); BigInteger r(x); r %= y; EXPECT(r, c.r, "a %= b"); }
    noError();
}
MC_SPACE("signs of multi-limb operands", 1) {
    static const Vals V = limbVals(alpha5(), 0, 3), W = limbVals(alpha5(), 1, 3);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x = parse(a), y = parse(b); forms(a, b, x, y, false);
}
MC_SPACE("quotient digit estimates: q*b + r with r at both ends of its range", 1) {
    static const Vals B = limbVals(alpha8(), 2, 3, false), Q = limbVals(alpha5(), 1, 3, false);
    const Val &b = mc::pick(B), &q = mc::pick(Q); const unsigned e = mc::choose(4), s = mc::choose(mc::tier() ? 4 : 2);
    Z r = e == 0 ? Z(0) : e == 1 ? Z(1) : e == 2 ? Z(b.z - 1) : Z(b.z / 2);
    Z az = q.z * b.z + r; if (s & 1) az = -az;
    const Val a(az), d(s & 2 ? Z(-b.z) : b.z);
    const BigInteger x(a.le.size(), a.le.data(), true), y(d.le.size(), d.le.data(), true);
    const Ctx c = ctx(a, d);
    { BigInteger q(x); q /= y; EXPECT(q, c.q, "a /= b"); BigInteger r = x % y; EXPECT(r, c.r, "a % b"); }
    noError();
}
MC_SPACE("every native boundary divisor and dividend", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V); const std::int64_t n = mc::pick(natives()); if (n == 0) mc::prune();
    const Val b{Z(n)}; const BigInteger x = parse(a), y(n);
    forms(a, b, x, y, true);
    if (a.z != 0) { const Ctx c = ctx(b, a); BigInteger q = n / x; EXPECT(q, c.q, "native / a"); BigInteger r = n % x; EXPECT(r, c.r, "native % a"); SAME(x, a, "native / a"); }
    noError();
}
MC_SPACE("operands of every provenance", 2) {
    const Vals &V = coreVals(), &W = nonzero(V);
    const unsigned p = mc::choose(NPROV); const Val &a = mc::pick(V); const unsigned q = mc::choose(NPROV); const Val &b = mc::pick(W);
    Keep k; const BigInteger x = make(a, p, k), y = make(b, q, k); if (!eq(x, a.z) || !eq(y, b.z)) mc::prune();
    MC_NOTE("left %s, right %s", provName(p), provName(q));
    forms(a, b, x, y, false);
    { const Ctx c = ctx(a, b); Keep k2; BigInteger q = make(a, p, k2); q /= y; EXPECT(q, c.q, "a /= b in place"); BigInteger r = make(a, p, k2); r %= y; EXPECT(r, c.r, "a %= b in place"); checkKeep(k2);
      q += 1; MC_CHECK(eq(q, Z(c.q + 1)), "quotient %s + 1 gave %s", brief(c.q).c_str(), show(q).c_str()); r -= 1; MC_CHECK(eq(r, Z(c.r - 1)), "remainder - 1 gave %s", show(r).c_str()); }
    checkKeep(k); MC_CHECK(eq(y, b.z), "right operand became %s", show(y).c_str());
}
#undef SAME
#define SAME(x, v, what) MC_CHECK(eq((x), (v).z), "%s: operand %s became %s", what, brief((v).z).c_str(), show(x).c_str())
MC_SPACE("long operands, all length pairs", 2) {
    const unsigned N = mc::tier() ? 40 : 22;
    static std::vector<Vals> P; if (P.empty()) for (unsigned n = 0; n <= N; ++n) P.push_back(n ? patternVals(n, 8) : Vals());
    const unsigned la = 1 + mc::choose(N), lb = 1 + mc::choose(N);
    const Val &a = mc::pick(P[la]), &b = mc::pick(P[lb]);
    const Ctx c = ctx(a, b);
    const BigInteger y = parse(b); BigInteger q = parse(a), r(q); q /= y; r %= y;
    EXPECT(q, c.q, "long quotient"); EXPECT(r, c.r, "long remainder"); SAME(y, b, "divisor"); noError();
}
MC_SPACE("long operands around the multiplication threshold", 2) {
    static const std::vector<unsigned> L{1, 2, 39, 40, 41, 79, 80, 81, 120, 161, 200};
    static std::map<unsigned, Vals> P; if (P.empty()) for (unsigned n : L) P.emplace(n, patternVals(n, 8));
    const unsigned la = mc::pick(L), lb = mc::pick(L);
    const Val &a = mc::pick(P.at(la)), &b = mc::pick(P.at(lb));
    const Ctx c = ctx(a, b);
    const BigInteger y = parse(b); BigInteger q = parse(a), r(q); q /= y; r %= y;
    EXPECT(q, c.q, "long quotient"); EXPECT(r, c.r, "long remainder"); noError();
}
MC_SPACE("quotients with runs of zero and maximal digits", 1) {
    // a = q*b + r for q with every pattern of {0, 1, 2^32-1} words: zero quotient words and carries through them
    static const Vals Q = limbVals(alpha3(), 1, 6, false), B = [] { Vals v = limbVals(alpha8(), 2, 2, false); for (auto &x : limbVals(alpha3(), 3, 4, false)) v.push_back(x); return v; }();
    const Val &q = mc::pick(Q), &b = mc::pick(B); const unsigned e = mc::choose(3);
    const Val a(Z(q.z * b.z + (e == 0 ? Z(0) : e == 1 ? Z(b.z - 1) : Z(b.z >> 1))));
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    const Ctx c = ctx(a, b);
    { BigInteger q(x); q /= y; EXPECT(q, c.q, "a /= b"); BigInteger r(x); r %= y; EXPECT(r, c.r, "a %= b"); }
    noError();
}
MC_SPACE_T("5-limb dividends by 3-limb divisors", 1) {
    static const Vals V = limbVals(alpha8(), 5, 5, false), W = limbVals(alpha8(), 2, 3, false);
    const Val &a = mc::pick(V), &b = mc::pick(W);
    const BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true);
    const Ctx c = ctx(a, b);
    { BigInteger q(x); q /= y; EXPECT(q, c.q, "a /= b"); BigInteger r(x); r %= y; EXPECT(r, c.r, "a %= b"); }
    noError();
}
static void giantDiv(const Z &a, const Z &b) {
    const Z q = a / b, r = a - q * b; const BigInteger x = big(a), y = big(b); const std::string A = brief(a), B = brief(b); MC_NOTE("%s by %s", A.c_str(), B.c_str()); mc::state(mc::mix(zhash(a), zhash(b)));
    BigInteger d = x / y; mc::step(); MC_CHECK(eq(d, q), "%s / %s gave %s, expected %s", A.c_str(), B.c_str(), show(d).c_str(), brief(q).c_str());
    d = x; d %= y; mc::step(); MC_CHECK(eq(d, r), "%s %%= %s gave %s, expected %s", A.c_str(), B.c_str(), show(d).c_str(), brief(r).c_str());
    if (fits(b)) { const std::int64_t n = b.convert_to<std::int64_t>(); d = x; d /= n; mc::step(); MC_CHECK(eq(d, q), "%s /= native %s gave %s, expected %s", A.c_str(), B.c_str(), show(d).c_str(), brief(q).c_str()); d = x % n; mc::step(); MC_CHECK(eq(d, r), "%s %% native %s gave %s, expected %s", A.c_str(), B.c_str(), show(d).c_str(), brief(r).c_str()); }
    MC_CHECK(eq(x, a) && eq(y, b), "an operand of %s / %s changed", A.c_str(), B.c_str()); noError();
}
MC_SPACE("giant dividends of 255 to 70001 limbs by short divisors", 2) {
    const unsigned n = mc::pick(giantSizes()), p = mc::choose(NGIANT); static const std::vector<Z> D{1, -1, 2, 3, Z(0xffffffffu), -zpow2(32), Z(INT64_MAX), Z(INT64_MIN), zpow2(64) - 1, zpow2(64) + 1, zpow2(96) - 1}; const unsigned k = mc::choose(D.size()), neg = mc::choose(2); const Z &b = D[k]; if (!mc::tier() && n > 10000 && (n + p + k + neg) % 4) mc::prune(); // every size with every divisor, every pattern with every divisor
    Z a = giant(n, p); if (neg) a = -a; giantDiv(a, b);
}
MC_SPACE("giant dividends by divisors of about their own length", 2) {
    const Z a = pickGiant(); const unsigned k = mc::choose(7); const u64 b = zbits(a); const Z d = k == 0 ? a : k == 1 ? Z(a + 1) : k == 2 ? Z(a - 1) : k == 3 ? Z(zpow2(b - 1) - 1) : k == 4 ? Z(-zpow2(b - 32)) : k == 5 ? Z(a / 2 + 1) : giant((b - 64) / 32, 5); giantDiv(k == 6 ? Z(-a) : a, d);
}
MC_MAIN()
