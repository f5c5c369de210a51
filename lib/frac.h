#pragma once
#include "bn.h"
#include "Fraction.h"
namespace fr {
using namespace bn;
using pgbn::experimental::Fraction;
struct Q { Z n, d; }; // d > 0, lowest terms
inline Z zgcd(Z a, Z b) { a = zabs(a); b = zabs(b); while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
inline Q q(Z n, Z d) { if (d < 0) { n = -n; d = -d; } Z g = zgcd(n, d); return {n / g, d / g}; }
inline Q operator+(const Q &a, const Q &b) { return q(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Q operator-(const Q &a, const Q &b) { return q(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Q operator*(const Q &a, const Q &b) { return q(a.n * b.n, a.d * b.d); }
inline Q operator/(const Q &a, const Q &b) { return q(a.n * b.d, a.d * b.n); }
inline std::string qs(const Q &x) { return brief(x.n) + "/" + brief(x.d); }
inline std::string digitsOf(Z z, int r) { z = zabs(z); if (z == 0) return "0"; std::string s; while (z != 0) { int d = (z % r).convert_to<int>(); s += "0123456789abcdefghijklmnopqrstuvwxyz"[d]; z /= r; } std::reverse(s.begin(), s.end()); return s; }
inline Z num(const Fraction &f) { return readExport(f.getNum()); }
inline Z den(const Fraction &f) { return readExport(f.getDen()); }
inline std::string shown(const Fraction &f) { return show(f.getNum()) + "/" + show(f.getDen()); }
inline void checkFrac(const Fraction &f, const Q &x, const char *what) {
    const Z n = num(f), d = den(f);
    MC_CHECK(d != 0, "%s: zero denominator (%s)", what, shown(f).c_str());
    MC_CHECK(n * x.d == x.n * d, "%s denotes %s, expected %s", what, shown(f).c_str(), qs(x).c_str());
    MC_CHECK(zgcd(n, d) == 1, "%s is not in lowest terms: %s", what, shown(f).c_str());
}
inline void checkText(const Fraction &f, const Q &x, int r) {
    const std::string want = (x.n < 0 ? "-" : "") + digitsOf(x.n, r) + "/" + digitsOf(x.d, r), got = f.toString(r);
    MC_CHECK(got == want, "toString(%d) of %s is \"%s\", expected \"%s\"", r, shown(f).c_str(), got.c_str(), want.c_str());
}
inline std::string expansion(const Q &x, int digits) {
    Z a = zabs(x.n); std::string s = (x.n < 0 ? "-" : "") + digitsOf(a / x.d, 10); if (digits <= 0) return s;
    s += '.'; Z r = a % x.d; for (int i = 0; i < digits; ++i) { r *= 10; s += char('0' + (r / x.d).convert_to<int>()); r %= x.d; } return s; // long division, digit by digit
}
inline bool statusIs(pgbn::Enum e) { return pgbn::Status::getInstance()->getInfo() == pgbn::Status::getInfo(e); }
inline const std::vector<Z> &bigs() { static std::vector<Z> v{Z(0), Z(1), Z(-1), Z(6), zpow2(32) - 1, -zpow2(32), zpow2(64) - 1, zpow2(64), -(zpow2(64) * 3), Z("1000000000000000000000"), Z("-6227020800000000000000"), zpow2(96) - 1, Z("340282366920938463463374607431768211297"), zpow2(200) * 15}; return v; }
inline const std::vector<Z> &longs() { // many words: lengths around the multiplication thresholds, with and without common factors
    static std::vector<Z> v = [] { std::vector<Z> r{Z(1), Z(-10), zpow2(32 * 40) - 1, -zpow2(32 * 41), (zpow2(32 * 40) - 1) * (zpow2(32 * 41) + 1), -((zpow2(32 * 81) - 1) * 7), zpow2(32 * 80), Z(1)}; for (int i = 0; i < 700; ++i) r.back() *= 10; return r; }(); return v;
}
} // namespace fr
