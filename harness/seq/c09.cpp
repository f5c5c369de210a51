// C09: native conversions are exact, range-checked or truncating as documented.
#include "giant.h"
using namespace bn;
template <class T> static void as(const BigInteger &x, const Z &z, const char *n) {
    const T got = x.as<T>(), want = static_cast<T>(zlow64(z)); mc::step();
    MC_CHECK(got == want, "as<%s> of %s is %lld, expected %lld", n, brief(z).c_str(), (long long)got, (long long)want);
}
static const std::string &info() { return pgbn::Status::getInstance()->getInfo(); }
static void conv(const Z &z, const BigInteger &x) {
    MC_NOTE("conversions of %s", brief(z).c_str()); mc::state(zhash(z));
    const bool fi = z >= INT64_MIN && z <= INT64_MAX, fu = z >= 0 && z < zpow2(64);
    const std::int64_t wi = fi ? z.convert_to<std::int64_t>() : INT64_MAX; const u64 wu = fu ? z.convert_to<u64>() : UINT64_MAX;
    const std::string &ovf = pgbn::Status::getInfo(pgbn::ErrCode::ARITHMETIC_OVERFLOW);
    auto clear = [] { *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; };
    { clear(); bool ok = !fi; const std::int64_t g = x.getInt64(&ok); mc::step(); MC_CHECK(g == wi && ok == fi, "getInt64 of %s gave %" PRId64 ", ok %d", brief(z).c_str(), g, ok); if (!fi) MC_CHECK(info() == ovf, "getInt64 of %s: status \"%s\"", brief(z).c_str(), info().c_str()); }
    { MC_CHECK(x.getInt64() == wi, "getInt64() of %s", brief(z).c_str()); }
    { clear(); std::int64_t r = 42; const bool ok = x.tryGetInt64(r); mc::step(); MC_CHECK(ok == fi && r == wi, "tryGetInt64 of %s gave %" PRId64 ", %d", brief(z).c_str(), r, ok); if (!fi) MC_CHECK(info() == ovf, "tryGetInt64 of %s: status \"%s\"", brief(z).c_str(), info().c_str()); }
    { clear(); bool ok = !fu; const u64 g = x.getUInt64(&ok); mc::step(); MC_CHECK(g == wu && ok == fu, "getUInt64 of %s gave %" PRIu64 ", ok %d", brief(z).c_str(), g, ok); if (!fu) MC_CHECK(info() == ovf, "getUInt64 of %s: status \"%s\"", brief(z).c_str(), info().c_str()); }
    { MC_CHECK(x.getUInt64() == wu, "getUInt64() of %s", brief(z).c_str()); }
    { clear(); u64 r = 42; const bool ok = x.tryGetUInt64(r); mc::step(); MC_CHECK(ok == fu && r == wu, "tryGetUInt64 of %s gave %" PRIu64 ", %d", brief(z).c_str(), r, ok); if (!fu) MC_CHECK(info() == ovf, "tryGetUInt64 of %s: status \"%s\"", brief(z).c_str(), info().c_str()); }
    as<char>(x, z, "char"); as<unsigned char>(x, z, "unsigned char"); as<short>(x, z, "short"); as<unsigned short>(x, z, "unsigned short"); as<int>(x, z, "int"); as<unsigned>(x, z, "unsigned");
    as<long>(x, z, "long"); as<unsigned long>(x, z, "unsigned long"); as<long long>(x, z, "long long"); as<unsigned long long>(x, z, "unsigned long long");
    mc::step(2); MC_CHECK(x.as<bool>() == (z != 0), "as<bool> of %s is %d", brief(z).c_str(), x.as<bool>());
    const std::string s = x.as<std::string>(); MC_CHECK(s == z.str(), "as<std::string> of %s is %s", brief(z).c_str(), s.substr(0, 200).c_str());
    MC_CHECK(eq(x, z), "a conversion changed %s to %s", brief(z).c_str(), show(x).c_str());
}
MC_SPACE("up to 3 limbs over 8 boundary words", 1) { static const Vals V = limbVals(alpha8(), 0, 4); const Val &a = mc::pick(V); const BigInteger x = parse(a); conv(a.z, x); }
MC_SPACE("neighbours of every power of two up to 2^140", 1) { const unsigned k = mc::choose(141); const int d = (int)mc::choose(9) - 4; const bool neg = mc::choose(2); Z z = zpow2(k) + d; if (neg) z = -z; conv(z, parse(z)); }
MC_SPACE("neighbours of every native boundary value, from native and parsed", 1) {
    const std::int64_t n = mc::pick(natives()); const BigInteger x(n); conv(Z(n), x); BigInteger y; y = n; conv(Z(n), y); BigInteger w(parse(bigK())); w.assign(n); conv(Z(n), w);
    const int d = (int)mc::choose(7) - 3; Z z = Z(n) + d; BigInteger v(n); v += d; conv(z, v); Z u = zlow64(Z(n)); conv(u, parse(u)); conv(Z(-u), parse(Z(-u)));
}
MC_SPACE("every provenance", 1) { const Val &a = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); Keep k; const BigInteger x = make(a, p, k); if (!eq(x, a.z)) mc::prune(); conv(a.z, x); checkKeep(k); }
MC_SPACE("every provenance at the range limits", 1) {
    static const Vals V = [] { Vals v; for (unsigned b : {31u, 32u, 63u, 64u}) for (int d = -2; d <= 1; ++d) { v.emplace_back(Z(zpow2(b) + d)); v.emplace_back(Z(-zpow2(b) - d)); } return v; }();
    const Val &a = mc::pick(V); const unsigned p = mc::choose(NPROV); Keep k; const BigInteger x = make(a, p, k); if (!eq(x, a.z)) mc::prune(); conv(a.z, x); checkKeep(k);
}
MC_SPACE("long numbers", 1) { const unsigned L = 1 + mc::choose(40); const Vals P = patternVals(L, 8); const Val &a = mc::pick(P); const bool neg = mc::choose(2); const Z z = neg ? Z(-a.z) : a.z; conv(z, parse(z)); }
MC_SPACE("giant numbers", 1) { Z z = pickGiant(); if (!mc::tier() && zbits(z) > 40000) mc::prune(); const unsigned d = mc::choose(3); if (d) z += d == 1 ? Z(INT64_MAX) : Z(zpow2(64) - 1); if (mc::choose(2)) z = -z; conv(z, big(z)); }
MC_MAIN()
