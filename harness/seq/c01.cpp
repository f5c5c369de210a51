// C01: addition, subtraction, multiplication, negation are exact in every form.
#include "giant.h"
using namespace bn;

static const char *OPN[] = {"+", "-", "*"};
static Z ref(unsigned op, const Z &a, const Z &b) { return op == 0 ? Z(a + b) : op == 1 ? Z(a - b) : Z(a * b); }
template <class L, class R> static BigInteger bin(unsigned op, const L &a, const R &b) { return op == 0 ? a + b : op == 1 ? a - b : a * b; }
template <class R> static void comp(unsigned op, BigInteger &a, const R &b) { if (op == 0) a += b; else if (op == 1) a -= b; else a *= b; }
static bool fits(const Z &z) { return z >= INT64_MIN && z <= INT64_MAX; }

#define EXPECT(x, want, what) do { mc::step(); if (!eq((x), (want))) mc::fail(mc::strf("%s: %s %s %s gave %s, expected %s", what, brief(a.z).c_str(), OPN[op], brief(b.z).c_str(), show(x).c_str(), brief(want).c_str())); } while (0)
#define SAME(x, v, what) MC_CHECK(eq((x), (v).z), "%s: operand %s became %s (%s %s %s)", what, brief((v).z).c_str(), show(x).c_str(), brief(a.z).c_str(), OPN[op], brief(b.z).c_str())

static void allForms(unsigned op, const Val &a, const Val &b, const BigInteger &x, const BigInteger &y, bool native) {
    const Z want = ref(op, a.z, b.z);
    MC_NOTE("%s %s %s = %s", brief(a.z).c_str(), OPN[op], brief(b.z).c_str(), brief(want).c_str());
    mc::state(mc::mix(zhash(want), mc::mix(op, mc::mix(a.h, b.h))));
    { BigInteger r = bin(op, x, y); EXPECT(r, want, "binary"); }
    SAME(x, a, "binary, left"); SAME(y, b, "binary, right");
    { BigInteger r(x); comp(op, r, y); EXPECT(r, want, "compound on a copy"); SAME(x, a, "compound on a copy, original"); SAME(y, b, "compound, right"); }
    { BigInteger r = parse(a); comp(op, r, y); EXPECT(r, want, "compound"); }
    if (a.z == b.z) { BigInteger r(parse(a)); comp(op, r, r); EXPECT(r, want, "self-aliased"); BigInteger s(x); comp(op, s, s); EXPECT(s, want, "self-aliased copy"); SAME(x, a, "self-aliased copy, original"); }
    { BigInteger r(y); BigInteger s(x); comp(op, s, r); EXPECT(s, want, "compound, shared operands"); SAME(r, b, "shared right"); }
    if (!native) return;
    if (fits(b.z)) { std::int64_t i = b.z.convert_to<std::int64_t>(); { BigInteger r = bin(op, x, i); EXPECT(r, want, "big with native right"); } { BigInteger r(x); comp(op, r, i); EXPECT(r, want, "compound with native"); } SAME(x, a, "native right"); }
    if (fits(a.z)) { std::int64_t i = a.z.convert_to<std::int64_t>(); BigInteger r = bin(op, i, y); EXPECT(r, want, "native left"); SAME(y, b, "native left"); }
    if (op == 2) { BigIntegerImpl p(a.hex, 16), q(b.hex, 16), r("77777777777777777777777777", 16); BigIntegerImpl::mul(r, p, q); BigInteger R(std::make_unique<BigIntegerImpl>(r)); EXPECT(R, want, "static mul"); }
}

MC_SPACE("pairs of up to 2 limbs over 8 boundary words, all forms", 1) {
    static const Vals V = limbVals(alpha8(), 0, 2);
    const Val &a = mc::pick(V), &b = mc::pick(V);
    const BigInteger x = parse(a), y = parse(b);
    for (unsigned op = 0; op < 3; ++op) allForms(op, a, b, x, y, true);
}
MC_SPACE("pairs of up to 3 limbs over 8 boundary words, compound form", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V), &b = mc::pick(V);
    const BigInteger y(b.le.size(), b.le.data(), true), x(a.le.size(), a.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) {
        const Z want = ref(op, a.z, b.z);
        BigInteger r(x); comp(op, r, y);
        MC_NOTE("%s %s %s = %s", brief(a.z).c_str(), OPN[op], brief(b.z).c_str(), brief(want).c_str());
        EXPECT(r, want, "compound");
    }
    mc::state(mc::mix(a.h, b.h));
}
MC_SPACE("every native boundary value on either side", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V);
    const std::int64_t n = mc::pick(natives());
    const Val b{Z(n)};
    const BigInteger x = parse(a), y(n);
    MC_CHECK(eq(y, b.z), "BigInteger(int64 %" PRId64 ") is %s", n, show(y).c_str());
    for (unsigned op = 0; op < 3; ++op) {
        { Z want = ref(op, a.z, b.z); MC_NOTE("%s %s %s", brief(a.z).c_str(), OPN[op], brief(b.z).c_str());
          { BigInteger r = bin(op, x, n); EXPECT(r, want, "native right"); } { BigInteger r(x); comp(op, r, n); EXPECT(r, want, "compound native"); } { BigInteger r = bin(op, x, y); EXPECT(r, want, "from native right"); } SAME(x, a, "left"); }
        { Z want = ref(op, b.z, a.z); BigInteger r = bin(op, n, x); mc::step(); MC_CHECK(eq(r, want), "native left: %" PRId64 " %s %s gave %s", n, OPN[op], brief(a.z).c_str(), show(r).c_str()); }
        mc::state(mc::mix(a.h, mc::mix(b.h, op)));
    }
}
MC_SPACE("operands of every provenance", 2) {
    const Vals &V = coreVals();
    const unsigned p = mc::choose(NPROV); const Val &a = mc::pick(V); const unsigned q = mc::choose(NPROV); const Val &b = mc::pick(V);
    Keep k; const BigInteger x = make(a, p, k), y = make(b, q, k);
    if (!eq(x, a.z) || !eq(y, b.z)) mc::prune(); // the operand was not produced as intended: judged by the property of that operation
    MC_NOTE("left %s, right %s", provName(p), provName(q));
    for (unsigned op = 0; op < 3; ++op) {
        allForms(op, a, b, x, y, false);
        Keep k2; BigInteger r = make(a, p, k2); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound in place"); checkKeep(k2);
    }
    checkKeep(k);
}
static void unary(const Val &a, BigInteger x, unsigned what) {
    static const char *N[] = {"++x", "x++", "--x", "x--", "-x", "+x", "absoluted", "negate", "abs", "negated"};
    const BigInteger keep(x);
    BigInteger r, old; Z want, wantOld; bool hasOld = false;
    switch (what) {
    case 0: r = x; { BigInteger &ref = ++r; MC_CHECK(&ref == &r, "++x does not return x"); } want = a.z + 1; break;
    case 1: r = x; old = r++; hasOld = true; wantOld = a.z; want = a.z + 1; break;
    case 2: r = x; --r; want = a.z - 1; break;
    case 3: r = x; old = r--; hasOld = true; wantOld = a.z; want = a.z - 1; break;
    case 4: r = -x; want = -a.z; break;
    case 5: r = +x; want = a.z; break;
    case 6: r = x.absoluted(); want = zabs(a.z); break;
    case 7: r = x; r.negate(); want = -a.z; break;
    case 8: r = x; r.abs(); want = zabs(a.z); break;
    case 9: r = x.negated(); want = -a.z; break;
    }
    mc::step();
    MC_NOTE("%s of %s = %s", N[what], brief(a.z).c_str(), brief(want).c_str());
    mc::state(mc::mix(a.h, what));
    MC_CHECK(eq(r, want), "%s of %s gave %s, expected %s", N[what], brief(a.z).c_str(), show(r).c_str(), brief(want).c_str());
    if (hasOld) MC_CHECK(eq(old, wantOld), "%s of %s returned %s", N[what], brief(a.z).c_str(), show(old).c_str());
    MC_CHECK(eq(keep, a.z) && eq(x, a.z), "%s changed a copy of its operand %s", N[what], brief(a.z).c_str());
    // in place on the sole owner
    if (what == 0) { ++x; } else if (what == 1) { x++; } else if (what == 2) --x; else if (what == 3) x--; else if (what == 7) x.negate(); else if (what == 8) x.abs(); else return;
    MC_CHECK(eq(x, want) && eq(keep, a.z), "%s in place of %s gave %s", N[what], brief(a.z).c_str(), show(x).c_str());
}
MC_SPACE("unary forms", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3);
    const Val &a = mc::pick(V); const unsigned w = mc::choose(10);
    unary(a, parse(a), w);
}
MC_SPACE("unary forms, every provenance", 1) {
    const Val &a = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV), w = mc::choose(10);
    Keep k; BigInteger x = make(a, p, k); if (!eq(x, a.z)) mc::prune();
    unary(a, std::move(x), w); checkKeep(k);
}
MC_SPACE("add and subtract, all length pairs up to 40 limbs", 1) {
    const unsigned la = 1 + mc::choose(40), lb = 1 + mc::choose(40);
    static std::vector<Vals> P; if (P.empty()) for (unsigned n = 0; n <= 40; ++n) P.push_back(n ? patternVals(n, 5) : Vals());
    const Val &a = mc::pick(P[la]), &b0 = mc::pick(P[lb]);
    for (unsigned neg = 0; neg < 2; ++neg) for (unsigned op = 0; op < 2; ++op) {
        const Val b(neg ? Z(-b0.z) : b0.z);
        BigInteger r = parse(a); const BigInteger y = parse(b); comp(op, r, y);
        EXPECT(r, ref(op, a.z, b.z), "long"); SAME(y, b, "long, right");
    }
    mc::state(mc::mix(a.h, b0.h));
    MC_NOTE("%u limbs with %u limbs: %s, %s", la, lb, brief(a.z).c_str(), brief(b0.z).c_str());
}
MC_SPACE("add and subtract, very long operands", 1) {
    static const std::vector<unsigned> L{1, 2, 41, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000};
    static std::map<unsigned, Vals> P; if (P.empty()) for (unsigned n : L) P.emplace(n, patternVals(n, 6));
    const unsigned la = mc::pick(L), lb = mc::pick(L); const Val &a = mc::pick(P.at(la)), &b0 = mc::pick(P.at(lb));
    for (unsigned neg = 0; neg < 2; ++neg) for (unsigned op = 0; op < 2; ++op) { const Val b(neg ? Z(-b0.z) : b0.z); BigInteger r = parse(a); const BigInteger y = parse(b), x(r); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "very long"); SAME(y, b, "very long, right"); SAME(x, a, "very long, copy of left"); }
    mc::state(mc::mix(a.h, b0.h)); MC_NOTE("%u limbs with %u limbs", la, lb);
}
MC_SPACE("multiply across the Karatsuba threshold and its recursion", 2) {
    static const std::vector<unsigned> L = mc::tier() ? std::vector<unsigned>{1, 2, 3, 5, 20, 39, 40, 41, 42, 60, 78, 79, 80, 81, 82, 83, 99, 119, 120, 121, 158, 159, 160, 161, 162, 163, 200, 239, 240, 241, 317, 319, 320, 321, 323, 400, 639, 640, 641}
                                                       : std::vector<unsigned>{1, 2, 3, 40, 41, 79, 80, 81, 82, 120, 159, 160, 161, 163, 200, 320, 321};
    static std::map<unsigned, Vals> P; if (P.empty()) for (unsigned n : L) P.emplace(n, patternVals(n, 8));
    const unsigned la = mc::pick(L), lb = mc::pick(L);
    const Val &a = mc::pick(P.at(la)), &b0 = mc::pick(P.at(lb));
    const unsigned op = 2; const bool neg = mc::choose(2);
    const Val b(neg ? Z(-b0.z) : b0.z);
    const Z want = a.z * b.z;
    BigInteger r = parse(a); const BigInteger y = parse(b), x(r); r *= y;
    MC_NOTE("%u limbs * %u limbs: %s * %s", la, lb, brief(a.z).c_str(), brief(b.z).c_str());
    mc::state(mc::mix(a.h, b.h));
    EXPECT(r, want, "long product"); SAME(y, b, "long product, right"); SAME(x, a, "long product, copy of left");
    if (a.z == b.z) { BigInteger s = parse(a); s *= s; EXPECT(s, want, "long square in place"); }
}
MC_SPACE("multiply: every split alignment around the threshold", 1) {
    // operand = top word at position n-1 plus one word at every lower position: cross terms hit each half boundary
    const unsigned n = 79 + mc::choose(6), i = mc::choose(n), m = 79 + mc::choose(mc::tier() ? 6 : 2), j = mc::choose(m);
    const unsigned op = 2;
    auto mk = [](unsigned n, unsigned i) { Z z = zpow2(32ull * (n - 1)); z += Z(0xffffffffu) << (32 * i); return z; };
    const Val a(mk(n, i)), b(mk(m, j));
    BigInteger r = parse(a); const BigInteger y = parse(b); r *= y;
    MC_NOTE("two-word operands of %u and %u limbs, inner words at %u and %u", n, m, i, j);
    EXPECT(r, Z(a.z * b.z), "sparse product");
    mc::state(mc::mix(a.h, b.h));
}
MC_SPACE("pairs of up to 3 x 4 limbs, compound form", 1) {
    static const Vals V = limbVals(alpha8(), 1, 3), W = limbVals(alpha8(), 4, 4, false);
    const Val &b = mc::pick(V), &a = mc::pick(W);
    const BigInteger y(b.le.size(), b.le.data(), true), x(a.le.size(), a.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound"); BigInteger s(y); comp(op, s, x); mc::step(); MC_CHECK(eq(s, ref(op, b.z, a.z)), "compound: %s %s %s gave %s", brief(b.z).c_str(), OPN[op], brief(a.z).c_str(), show(s).c_str()); }
    mc::state(mc::mix(a.h, b.h));
    MC_NOTE("%s with %s", brief(a.z).c_str(), brief(b.z).c_str());
}
MC_SPACE_T("three-operand chains over boundary words", 1) {
    static const Vals V = limbVals(alpha5(), 0, 2);
    const Val &a = mc::pick(V), &b = mc::pick(V), &c = mc::pick(V);
    const unsigned o1 = mc::choose(3), op = mc::choose(3);
    BigInteger r = parse(a); comp(o1, r, parse(b)); comp(op, r, parse(c));
    EXPECT(r, ref(op, ref(o1, a.z, b.z), c.z), "chain");
    MC_NOTE("chain"); mc::state(mc::mix(a.h, mc::mix(b.h, c.h)));
}
MC_SPACE_T("pairs of 4 x 4 limbs over 8 boundary words, compound form", 1) {
    static const Vals W = limbVals(alpha8(), 4, 4, false);
    const Val &a = mc::pick(W), &b = mc::pick(W);
    const BigInteger y(b.le.size(), b.le.data(), true), x(a.le.size(), a.le.data(), true);
    for (unsigned op = 0; op < 3; ++op) { BigInteger r(x); comp(op, r, y); EXPECT(r, ref(op, a.z, b.z), "compound"); }
    mc::state(mc::mix(a.h, b.h));
    MC_NOTE("%s with %s", brief(a.z).c_str(), brief(b.z).c_str());
}
MC_SPACE_T("squares and neighbours, every length up to 700 limbs", 1) {
    const unsigned n = 1 + mc::choose(700), p = mc::choose(8), d = mc::choose(3), op = 2;
    const Vals A = patternVals(n, 8), B = patternVals(d ? n + d - 1 : n / 2 + 1, 8);
    const Val &a = A[p], &b = B[(p + 3) % 8];
    BigInteger r = parse(a); const BigInteger y = parse(b); r *= y;
    EXPECT(r, Z(a.z * b.z), "long product");
    mc::state(mc::mix(a.h, b.h)); MC_NOTE("%u limbs", n);
}
#define GIVES(x, want, ...) do { mc::step(); const Z w__ = (want); if (!eq((x), w__)) mc::fail(mc::strf(__VA_ARGS__) + " gave " + show(x) + ", expected " + brief(w__)); } while (0)
MC_SPACE("giant operands: carries, borrows and native factors through 255 to 70001 limbs", 2) {
    Z a = pickGiant(); const unsigned op = mc::choose(8); if (mc::choose(2)) a = -a;
    const BigInteger x = big(a); const std::string A = brief(a); mc::state(mc::mix(zhash(a), op)); MC_NOTE("%s, operation %u", A.c_str(), op);
    switch (op) {
    case 0: { BigInteger r(x); ++r; GIVES(r, a + 1, "++ on %s", A.c_str()); --r; GIVES(r, a, "-- back to %s", A.c_str()); --r; GIVES(r, a - 1, "-- on %s", A.c_str()); break; }
    case 1: for (std::int64_t d : {1ll, -1ll, 0xffffffffll, -0x100000000ll, (long long)INT64_MAX, (long long)INT64_MIN}) { BigInteger r(x); r += d; GIVES(r, a + d, "%s += %" PRId64, A.c_str(), d); r = x; r -= d; GIVES(r, a - d, "%s -= %" PRId64, A.c_str(), d); } break;
    case 2: for (unsigned k : {1u, 64u, 95u}) { const Z b = zpow2(k) - 1; const BigInteger y = big(b); GIVES(x + y, a + b, "%s + %s", A.c_str(), brief(b).c_str()); GIVES(y - x, b - a, "%s - %s", brief(b).c_str(), A.c_str()); GIVES(x - y, a - b, "%s - %s", A.c_str(), brief(b).c_str()); } break;
    case 3: { GIVES(x + x, a + a, "%s doubled", A.c_str()); GIVES(x - x, Z(0), "%s minus itself", A.c_str()); const Z b = a + 1; const BigInteger y = big(b); GIVES(x - y, Z(-1), "%s minus its successor", A.c_str()); GIVES(y - x, Z(1), "successor minus %s", A.c_str()); GIVES(x + y, a + b, "%s plus its successor", A.c_str()); break; }
    case 4: { const Z b = -zabs(giant(zbits(a) / 32 + 1, 5)); const BigInteger y = big(b); GIVES(x + y, a + b, "%s + %s", A.c_str(), brief(b).c_str()); GIVES(x - y, a - b, "%s - %s", A.c_str(), brief(b).c_str()); break; }
    case 5: for (std::int64_t d : {3ll, -1ll, 0xffffffffll, (long long)INT64_MIN}) { BigInteger r(x); r *= d; GIVES(r, a * d, "%s *= %" PRId64, A.c_str(), d); } break;
    case 6: { const Z b = zpow2(64) + 5; const BigInteger y = big(b); GIVES(x * y, a * b, "%s * (2^64 + 5)", A.c_str()); break; }
    case 7: { BigInteger r(x); r.negate(); GIVES(r, -a, "%s negated", A.c_str()); r.abs(); GIVES(r, zabs(a), "magnitude of %s", A.c_str()); break; }
    }
    MC_CHECK(eq(x, a), "operand %s became %s", A.c_str(), show(x).c_str());
}
MC_SPACE("giant products of two long operands", 1) {
    static const std::vector<std::pair<unsigned, unsigned>> L{{1024, 1024}, {1025, 1023}, {2048, 2048}, {2049, 100}, {4097, 81}, {4096, 2}, {3000, 2999}}; const auto [m, n] = mc::pick(L); const unsigned p = mc::choose(NGIANT), q = mc::choose(NGIANT); if (q < p && m == n) mc::prune();
    const Z a = giant(m, p), b = giant(n, q); const BigInteger x = big(a), y = big(b); mc::state(mc::mix(zhash(a), zhash(b))); GIVES(x * y, a * b, "%s * %s", brief(a).c_str(), brief(b).c_str());
}
MC_MAIN()
