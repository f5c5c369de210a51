// C11: two numbers holding the same integer are indistinguishable, whatever history produced them.
// Oracle: a freshly parsed number of the same value. Everything a caller can observe of the two must be equal, and so
// must everything observable of the results of any further operation.
#include "hist.h"
#include "histimpl.h"
#include "algorithm.h"
using namespace hist;
typedef std::vector<std::string> Obs;
static std::string raw(const BigInteger &x) { std::vector<unsigned char> b(256); for (;;) { u64 n = x.copyMagDataTo(b.data(), b.size()); if (n < b.size()) return std::string((char *)b.data(), n); b.resize(b.size() * 4); } }
// a fingerprint of everything observable; level 0: cheap
static u64 fp(const BigInteger &x, int level) {
    u64 h = mc::hashStr(raw(x)); auto add = [&](u64 v) { h = mc::mix(h, v); };
    add(x.isZero() | x.isOne() << 1 | x.isNegOne() << 2 | x.isPositive() << 3 | x.isNegative() << 4 | x.isEven() << 5 | x.isOdd() << 6);
    bool ok = false; add((u64)x.getInt64(&ok)); add(ok); ok = false; add(x.getUInt64(&ok)); add(ok);
    for (unsigned i = 0; i < 8; ++i) add(x.get2sComplement(i)); add(x.get2sComplement(1000000));
    add(mc::hashStr(x.toString(16)));
    for (std::int64_t k : {0ll, 1ll, -1ll, 0xffffffffll, -0x100000000ll}) add((u64)(x.cmp(k) + 1));
    if (level) {
        for (int r : {2, 10, 36}) add(mc::hashStr(x.toString(r)));
        add(x.as<bool>()); add(x.as<char>()); add((u64)x.as<int>()); add((u64)x.as<std::uint16_t>()); add(x.as<std::uint64_t>()); add((u64)x.as<std::int64_t>()); add(mc::hashStr(x.as<std::string>()));
        std::int64_t i = 5; add(x.tryGetInt64(i)); add((u64)i); std::uint64_t u = 5; add(x.tryGetUInt64(u)); add(u);
        for (u64 c : {0ull, 1ull, 3ull, 4ull, 5ull, 9ull, 100ull}) { unsigned char b[128]; std::memset(b, 0x5a, sizeof b); u64 n = x.copyMagDataTo(b, c); add(n); for (unsigned char q : b) add(q); }
    }
    return h;
}
static void same(const BigInteger &x, const BigInteger &f, int level, const char *what) {
    MC_CHECK(x.cmp(f) == 0 && f.cmp(x) == 0 && x == f && !(x != f) && x <= f && x >= f && !(x < f) && !(x > f), "%s: not equal to a fresh number of the same value: %s vs %s", what, show(x).c_str(), show(f).c_str());
    MC_CHECK(fp(x, level) == fp(f, level), "%s: observably different from a fresh number of the same value: %s vs %s", what, show(x).c_str(), show(f).c_str());
    MC_CHECK(fp(x, level) == fp(f, level), "%s: observably different from a fresh number when observed again: %s vs %s", what, show(x).c_str(), show(f).c_str());
}
struct Follow { const char *name; void (*run)(BigInteger &x, const BigInteger &k); bool needsNonZeroX, needsNonZeroK; };
static const std::vector<Follow> &follows() {
    static const std::vector<Follow> v{
#define F(text, ...) {text, [](BigInteger &x, const BigInteger &k) { (void)k; __VA_ARGS__; }, false, false}
#define FK(text, ...) {text, [](BigInteger &x, const BigInteger &k) { (void)k; __VA_ARGS__; }, false, true}
#define FX(text, ...) {text, [](BigInteger &x, const BigInteger &k) { (void)k; __VA_ARGS__; }, true, false}
        F("x += k", x += k), F("x -= k", x -= k), F("x *= k", x *= k), F("x &= k", x &= k), F("x |= k", x |= k), F("x ^= k", x ^= k), FK("x /= k", x /= k), FK("x %= k", x %= k), FX("k / x", x = k / x), FX("k % x", x = k % x),
        F("k + x", x = k + x), F("k - x", x = k - x), F("k * x", x = k * x), F("k & x", x = k & x), F("k | x", x = k | x), F("k ^ x", x = k ^ x),
        F("++x", ++x), F("--x", --x), F("x++", x++), F("x--", x--), F("-x", x = -x), F("negate", x.negate()), F("abs", x.abs()), F("absoluted", x = x.absoluted()), F("~x", x = ~x), F("notSelf", x.notSelf()), F("notBits", x.notBits()),
        F("x <<= 1", x <<= 1), F("x <<= 31", x <<= 31), F("x <<= 32", x <<= 32), F("x <<= 65", x <<= 65), F("x >>= 1", x >>= 1), F("x >>= 31", x >>= 31), F("x >>= 32", x >>= 32), F("x >>= 33", x >>= 33), F("x >>= 96", x >>= 96), F("x << 7", x = x << 7), F("x >> 7", x = x >> 7),
        F("x += x", x += x), F("x -= x", x -= x), F("x *= x", x *= x), F("x &= x", x &= x), F("x ^= x", x ^= x), FX("x /= x", x /= x), FX("x %= x", x %= x),
        F("x += 2^32", x += 0x100000000ll), F("x -= 1", x -= 1), F("x *= -5", x *= -5), F("x /= 3", x /= 3), F("x %= 2^32", x %= 0x100000000ll), F("x |= -2^33", x |= -0x200000000ll), F("x &= 2^32-1", x &= 0xffffffffll), F("x ^= -1", x ^= -1),
        F("5 - x", x = 5 - x), F("copy", { BigInteger y(x); y += 1; x = y; }), F("move", { BigInteger y(std::move(x)); x = std::move(y); }), F("assign int", x = 7), F("assign string", x.assign("-ffffffffffffffff", 16)), F("assign bad string", x.assign("ff?", 16)), F("import", x.fromBinary("\x01\x80\xff", 3)),
        F("gcd(|x|, |k|)", { BigInteger a(x.absoluted()), b(k.absoluted()); x = pgbn::algo::gcd(a, b); })
#undef F
#undef FK
#undef FX
    };
    return v;
}
static const Vals &partners() { static Vals v = [] { Vals r; for (const char *s : {"0", "1", "-1", "0xffffffff", "-0x100000000", "0xffffffff00000000", "-0x800000000000000000000001", "0x100000000000000000000000000000000"}) r.emplace_back(Z(s)); return r; }(); return v; }

MC_SPACE("every provenance: observers", 1) {
    static const Vals V = [] { Vals v = coreVals(); for (const Val &x : limbVals(alpha3(), 1, 4)) v.push_back(x); return v; }();
    const Val &v = mc::pick(V); const unsigned p = mc::choose(NPROV), pre = mc::choose(2);
    Keep k; BigInteger x(make(v, p, k)), f(parse(v)); if (pre) query(x); MC_NOTE("%s, %s%s", brief(v.z).c_str(), provName(p), pre ? ", queried before" : ""); mc::step(); mc::state(mc::mix(v.h, p * 2 + pre));
    same(x, f, 1, provName(p)); checkKeep(k);
}
MC_SPACE("every provenance: one further operation", 2) {
    const Val &v = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); const Val &kv = mc::pick(partners()); const unsigned kp = mc::tier() ? mc::choose(NPROV) : mc::choose(2) ? (p + 1 + mc::choose(2) * 4) % NPROV : 0;
    const Follow &o = mc::pick(follows()); if ((o.needsNonZeroX && v.z == 0) || (o.needsNonZeroK && kv.z == 0)) mc::prune();
    Keep keep; BigInteger x(make(v, p, keep)), k(make(kv, kp, keep)), f(parse(v)); const BigInteger fk(parse(kv));
    MC_NOTE("x = %s (%s), k = %s (%s), %s", brief(v.z).c_str(), provName(p), brief(kv.z).c_str(), provName(kp), o.name); mc::step(); mc::state(mc::mix(v.h, mc::mix(kv.h, p * 16 + kp)));
    o.run(x, k); o.run(f, fk); same(x, f, 0, o.name); same(k, fk, 0, "the operand"); checkKeep(keep);
}
MC_SPACE_T("every provenance: two further operations", 2) {
    const Val &v = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV); const Val &kv = partners()[2 + mc::choose(4)]; const Follow &o = mc::pick(follows()), &o2 = mc::pick(follows());
    Keep keep; BigInteger x(make(v, p, keep)), f(parse(v)); const BigInteger k(parse(kv)); if (o.needsNonZeroX && x.isZero()) mc::prune();
    MC_NOTE("x = %s (%s), k = %s: %s, %s", brief(v.z).c_str(), provName(p), brief(kv.z).c_str(), o.name, o2.name); mc::step(2);
    o.run(x, k); o.run(f, k); same(x, f, 0, o.name); { Z z = readExport(f); BigInteger f2(parse(z)); if (o2.needsNonZeroX && z == 0) mc::prune(); o2.run(x, k); o2.run(f2, k); same(x, f2, 0, o2.name); } checkKeep(keep);
}
static void hist11(unsigned g, unsigned depth, unsigned ninit, bool follow, unsigned first = 0) {
    Regs s; history(s, g, depth, ninit, first);
    // the fresh twins are built from what the registers export, so that this check is about indistinguishability, not about the operations
    for (int i = 0; i < R; ++i) if (s.z[i]) { const BigInteger f(parse(readExport(*s.r[i]))); same(*s.r[i], f, 0, "register at the end of the history"); }
    if (!follow) return;
    const int i = mc::choose(R); const Follow &o = mc::pick(follows()); if (!s.z[i] || s.r[i]->isZero()) mc::prune();
    BigInteger f(parse(readExport(*s.r[i]))); const BigInteger k(parse(partners()[4])); MC_NOTE("then on %c: %s", 'a' + i, o.name);
    o.run(*s.r[i], k); o.run(f, k); same(*s.r[i], f, 0, o.name);
}
MC_SPACE("all histories of two operations, full alphabet", 2) { hist11(FULL, 2, mc::tier() ? NINIT : 3, false); }
MC_SPACE("all histories of two operations, medium alphabet, one further operation", 2) { hist11(MID, 2, mc::tier() ? NINIT : 1, true); }
MC_SPACE("all histories of three operations, core alphabet", 3) { hist11(CORE, 3, mc::tier() ? NINIT : 4, false); }
MC_SPACE_T("all histories of three operations, medium alphabet", 3) { hist11(MID, 3, NINIT, false); }
MC_SPACE_T("all histories of four operations, core alphabet", 3) { hist11(CORE, 4, 2, false); }
MC_SPACE_T("all histories of two operations, full alphabet, one further operation", 2) { hist11(FULL, 2, 2, true); }
MC_SPACE("long numbers: all histories of two operations", 2) { hist11(mc::tier() ? FULL : CORE, 2, NLONG, false, NINIT); }
// large numbers: a shrinking operation leaves a long stale tail
MC_SPACE("long numbers shrunk to every length", 1) {
    static const std::vector<unsigned> LEN{1, 2, 3, 39, 40, 41, 79, 80, 81, 100, 160, 161}; const unsigned n = mc::pick(LEN), how = mc::choose(6); const Vals pv = patternVals(n, 4); const Val &v = pv[mc::choose(pv.size())];
    const bool neg = mc::choose(2); const Z z = neg ? Z(-v.z) : v.z; BigInteger f(parse(z)); const unsigned BIG = 32 * 170; const Z top = zpow2(BIG);
    BigInteger x; mc::step();
    switch (how) { case 0: x = parse(Z(z * zpow2(3000))); x >>= 3000; break; case 1: x = parse(Z(z + top)); x -= parse(top); break; case 2: x = parse(Z(z * (zpow2(2000) + 1))); x /= parse(Z(zpow2(2000) + 1)); break; case 3: { x = parse(Z(z + (neg ? Z(-top) : top))); x %= parse(top); break; } case 4: x = parse(Z(z ^ 0)); x ^= parse(top); x ^= parse(top); break; case 5: { BigInteger y(parse(top)); x = y; x = parse(z); break; } }
    MC_NOTE("%u limbs, way %u, %s", n, how, brief(z).c_str()); same(x, f, 1, "shrunk"); { BigInteger a(x), b(f); a *= x; b *= f; same(a, b, 0, "squared"); a = x; b = f; a <<= 77; b <<= 77; same(a, b, 0, "shifted"); a = ~x; b = ~f; same(a, b, 0, "complemented"); a = x + 1; b = f + 1; same(a, b, 0, "incremented"); }
}
MC_SPACE("internal numbers: all histories of two operations, full alphabet", 2) { histi::Regs s; histi::history(s, histi::FULL, 2, mc::tier() ? 4 : 3); histi::verify(s); }
MC_SPACE_T("internal numbers: all histories of three operations, core alphabet", 3) { histi::Regs s; histi::history(s, histi::CORE, 3); histi::verify(s); }
MC_SPACE_T("internal numbers: all histories of four operations, core alphabet", 3) { histi::Regs s; histi::history(s, histi::CORE, 4, 2); histi::verify(s); }
MC_MAIN()
