// C20: the decimal expansion of a fraction is the truncated expansion, against digit-by-digit long division.
#include "frac.h"
#include "giant.h"
using namespace fr;
static void check(const Fraction &f, const Q &x, int n) {
    mc::step(); mc::state(mc::mix(mc::mix(zhash(x.n), zhash(x.d)), (u64)(n + 1000))); const std::string want = expansion(x, n), got = f.toDecimal(n);
    MC_CHECK(got == want, "toDecimal(%d) of %s is \"%s\", expected \"%s\"", n, shown(f).c_str(), got.c_str(), want.c_str());
    if (n == 8) MC_CHECK(f.toDecimal() == want, "toDecimal() of %s is \"%s\", expected \"%s\"", shown(f).c_str(), f.toDecimal().c_str(), want.c_str());
}
static const std::vector<int> &digits() { static std::vector<int> v{-3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 18, 19, 20, 25, 40, 100}; return v; }
MC_SPACE("every small fraction, every digit count", 2) { const int B = mc::tier() ? 130 : 40; const int n = (int)mc::choose(2 * B + 1) - B, d = (int)mc::choose(2 * B + 1) - B; if (!d) mc::prune(); const Fraction f(parse(Z(n)), parse(Z(d))); MC_NOTE("%d/%d", n, d); const Q x = q(n, d); for (int k : digits()) check(f, x, k); }
MC_SPACE("fractions near powers of ten", 1) { // leading zeros, carries that must not happen, exact ends
    static const std::vector<int> E{0, 1, 2, 7, 8, 9, 10, 19, 20, 30}; Z t = 1; const int e = mc::pick(E); for (int i = 0; i < e; ++i) t *= 10; const Z d = t + ((int)mc::choose(5) - 2); if (d == 0) mc::prune(); const int m = mc::choose(8); const Z n = m == 0 ? Z(1) : m == 1 ? Z(-1) : m == 2 ? Z(d - 1) : m == 3 ? Z(-d + 1) : m == 4 ? Z(d + 1) : m == 5 ? Z(7) : m == 6 ? Z(d * d - 1) : Z(d * 3);
    const bool flip = mc::choose(2); const Fraction f(parse(flip ? Z(-n) : n), parse(flip ? Z(-d) : d)); const Q x = q(n, d); MC_NOTE("%s", qs(x).c_str()); for (int k : digits()) check(f, x, k);
}
MC_SPACE("boundary numerators and denominators", 1) { static const std::vector<Z> V = [] { std::vector<Z> v = bigs(); for (const Val &x : limbVals(alpha3(), 1, 2)) v.push_back(x.z); return v; }(); const Z &n = mc::pick(V), &d = mc::pick(V); if (d == 0) mc::prune(); const Fraction f(parse(n), parse(d)); const Q x = q(n, d); MC_NOTE("%s", qs(x).c_str()); for (int k : digits()) check(f, x, k); }
MC_SPACE("long numerators and denominators", 1) { const Z &n = mc::pick(longs()), &d = mc::pick(longs()); const int t = (int)mc::choose(3) - 1; const Z m(n + t); const Fraction f(parse(m), parse(d)); const Q x = q(m, d); MC_NOTE("%s", qs(x).c_str()); for (int k : {0, 1, 8, 9, 100, 701}) check(f, x, k); }
MC_SPACE("fractions produced by arithmetic and setters", 1) { // the sign may sit in the denominator, whatever produced the fraction
    const int a = (int)mc::choose(9) - 4, b = (int)mc::choose(9) - 4, c = (int)mc::choose(9) - 4, d = (int)mc::choose(9) - 4; if (!b || !d) mc::prune(); Fraction f(parse(Z(a)), parse(Z(b))), g(parse(Z(c)), parse(Z(d))); Q x = q(a, b), y = q(c, d), z; const unsigned o = mc::choose(7); Fraction h;
    switch (o) { case 0: h = f + g; z = x + y; break; case 1: h = f - g; z = x - y; break; case 2: h = f * g; z = x * y; break; case 3: if (!c) mc::prune(); h = f / g; z = x / y; break; case 4: if (!a) mc::prune(); h = f.reciprocal(); z = q(b, a); break; case 5: { h = f; const Z dd = den(h); h.setNum(parse(Z(c))); z = q(c, dd); break; } case 6: { h = f; const Z nn = num(h); h.setDen(parse(Z(d))); z = q(nn, d); break; } }
    MC_NOTE("%d/%d, %d/%d, operation %u: %s", a, b, c, d, o, qs(z).c_str()); for (int k : digits()) check(h, z, k);
}
MC_SPACE("every digit count up to a bound", 1) { static const std::vector<std::pair<int, int>> F{{1, 3}, {-1, 7}, {22, -7}, {1, 1024}, {-355, 113}, {0, 5}, {5, 1}, {999999, 1000000}, {1, 1000000007}}; const auto [n, d] = mc::pick(F); const int k = (int)mc::choose(mc::tier() ? 2000 : 400) - 5; MC_NOTE("%d/%d", n, d); check(Fraction(parse(Z(n)), parse(Z(d))), q(n, d), k); }
MC_SPACE("very many digits", 1) { static const std::vector<std::pair<int, int>> F{{1, 3}, {-1, 7}, {1, 1024}, {-355, 113}, {1, 1000000007}, {0, 9}}; static const std::vector<int> K{500, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000}; const auto [n, d] = mc::pick(F); const int k = mc::pick(K); MC_NOTE("%d/%d, %d digits", n, d, k); check(Fraction(parse(Z(n)), parse(Z(d))), q(n, d), k); }
MC_MAIN()
