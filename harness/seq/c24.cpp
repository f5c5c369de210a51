// C24: gcd is the mathematical greatest common divisor.
#include "giant.h"
#include "algorithm.h"
using namespace bn;
static Z binaryGcd(Z a, Z b) { // Stein's algorithm, not Euclid's
    if (a == 0) return b; if (b == 0) return a; unsigned s = 0; while (!bit_test(a, 0) && !bit_test(b, 0)) { a >>= 1; b >>= 1; ++s; }
    while (a != 0) { while (!bit_test(a, 0)) a >>= 1; while (!bit_test(b, 0)) b >>= 1; if (a >= b) a -= b; else b -= a; } return b << s;
}
static Z refGcd(const Z &a, const Z &b) { return zbits(a) > 400 ? boost::multiprecision::gcd(a, b) : binaryGcd(a, b); }
static void check(const Z &a, const Z &b, const BigInteger &x, const BigInteger &y) {
    mc::step(2); mc::state(mc::mix(zhash(a), zhash(b))); MC_NOTE("gcd(%s, %s)", brief(a).c_str(), brief(b).c_str()); const Z g = refGcd(a, b);
    const BigInteger r = pgbn::algo::gcd(x, y); MC_CHECK(eq(r, g), "gcd(%s, %s) = %s, expected %s", brief(a).c_str(), brief(b).c_str(), show(r).c_str(), brief(g).c_str());
    const BigInteger r2 = pgbn::algo::gcd(y, x); MC_CHECK(eq(r2, g), "gcd(%s, %s) = %s, expected %s", brief(b).c_str(), brief(a).c_str(), show(r2).c_str(), brief(g).c_str());
    MC_CHECK(eq(x, a) && eq(y, b), "gcd changed an argument");
}
MC_SPACE("every pair of small numbers", 1) { const unsigned B = mc::tier() ? 1500 : 400; const Z a(mc::choose(B)), b(mc::choose(B)); check(a, b, parse(a), parse(b)); }
MC_SPACE("every pair over the boundary alphabet", 1) { static const Vals V = [] { Vals v = limbVals(alpha5(), 0, mc::tier() ? 3 : 2, false); for (const Val &x : limbVals(alpha3(), 3, mc::tier() ? 5 : 4, false)) v.push_back(x); return v; }(); const Val &a = mc::pick(V), &b = mc::pick(V); check(a.z, b.z, parse(a), parse(b)); }
MC_SPACE("every provenance", 1) { static const Vals V = [] { Vals r; for (const Val &v : coreVals()) if (v.z >= 0) r.push_back(v); r.emplace_back(zpow2(64) * 15); return r; }(); const Val &a = mc::pick(V), &b = mc::pick(V); const unsigned p = mc::choose(NPROV), p2 = mc::choose(NPROV); Keep k; const BigInteger x(make(a, p, k)), y(make(b, p2, k)); check(a.z, b.z, x, y); checkKeep(k); }
MC_SPACE("the same object and shared copies", 1) { const Val &a = mc::pick(coreVals()); if (a.z < 0) mc::prune(); const BigInteger x(parse(a)), y(x); check(a.z, a.z, x, x); check(a.z, a.z, x, y); }
MC_SPACE("common factors", 1) { // g*p and g*q
    static const std::vector<Z> G{Z(1), Z(2), Z(3), zpow2(31), zpow2(32), zpow2(32) - 1, zpow2(64), zpow2(96) * 7, Z("0xfffffffffffffffffffffffe"), zpow2(200) + 1}; static const std::vector<Z> P{Z(0), Z(1), Z(2), Z(3), Z(4), Z(5), Z(6), Z(7), zpow2(32), zpow2(32) + 1, zpow2(33) - 1, zpow2(64) - 59, Z(10007) * 10009};
    const Z &g = mc::pick(G), a = g * mc::pick(P), b = g * mc::pick(P); check(a, b, parse(a), parse(b));
}
MC_SPACE("consecutive Fibonacci numbers (longest remainder sequences)", 1) { const unsigned n = mc::choose(mc::tier() ? 2000 : 500), s = 1 + mc::choose(3), m = mc::choose(2); Z a = 0, b = 1; for (unsigned i = 0; i < n; ++i) { Z t = a + b; a = b; b = t; } Z c = b; if (s > 1) { c = b * s + a; } if (m) { a *= zpow2(32) - 1; c *= zpow2(32) - 1; } check(a, c, parse(a), parse(c)); }
MC_SPACE("operands of very different lengths", 1) { static const std::vector<unsigned> L{1, 2, 3, 40, 81, 100}; const unsigned m = mc::pick(L), n = mc::pick(L); const Vals a = patternVals(m, 6), b = patternVals(n, 6); const Val &x = a[mc::choose(a.size())], &y = b[mc::choose(b.size())]; check(x.z, y.z, parse(x), parse(y)); const Z k = x.z * y.z; check(k, x.z, parse(k), parse(x)); }
MC_SPACE("very long remainder sequences", 1) { static const std::vector<unsigned> N{600, 700, 800, 900, 1000, 1023, 1024, 1025, 1200, 1500, 1750, 2000, 2047, 2048, 2049, 2500, 3000, 3500, 4000, 4096, 4500, 5000}; const unsigned n = mc::pick(N), m = mc::choose(2); Z a = 0, b = 1; for (unsigned i = 0; i < n; ++i) { Z t = a + b; a = b; b = t; } if (m) { a *= zpow2(64) - 59; b *= zpow2(64) - 59; } check(a, b, parse(a), parse(b)); }
MC_SPACE("giant operands", 1) { const Z a = pickGiant(); if (!mc::tier() && zbits(a) > 600000) mc::prune(); static const std::vector<Z> B{0, 1, 6, Z(0xffffffffu), zpow2(64) - 1, zpow2(100) * 15}; const unsigned k = mc::choose(B.size() + 3); const Z b = k < B.size() ? B[k] : k == B.size() ? a : k == B.size() + 1 ? Z(a + 1) : Z(a * 6); check(a, b, big(a), big(b)); }
MC_MAIN()
