// C06: number strings round-trip in every radix from 2 to 36.
#include "giant.h"
using namespace bn;
static const char DIG[] = "0123456789abcdefghijklmnopqrstuvwxyz";
static std::string refStr(const Z &z, int r) {
    if (z == 0) return "0";
    std::string s; Z a = zabs(z); // peel 8 digits at a time
    Z blk = 1; for (int i = 0; i < 8; ++i) blk *= r;
    while (a != 0) { Z q, rem; boost::multiprecision::divide_qr(a, blk, q, rem); u64 v = rem.convert_to<u64>(); for (int i = 0; i < 8; ++i) { s += DIG[v % r]; v /= r; } a = q; }
    while (s.back() == '0') s.pop_back();
    if (z < 0) s += '-';
    return std::string(s.rbegin(), s.rend());
}
static Z refParse(const std::string &s, int r) {
    size_t i = 0; bool neg = false; if (s[0] == '+' || s[0] == '-') { neg = s[0] == '-'; i = 1; }
    Z z = 0; for (; i < s.size(); ++i) { char c = s[i]; int d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; z = z * r + d; }
    return neg ? Z(-z) : z;
}
static std::string cut(const std::string &s) { return s.size() > 120 ? s.substr(0, 60) + ".." + s.substr(s.size() - 50) + "(" + std::to_string(s.size()) + ")" : s; }
static void checkStr(const BigInteger &x, const Z &z, int r, const std::string &want) {
    const std::string got = x.toString(r); mc::step();
    MC_CHECK(got == want, "toString radix %d of %s is \"%s\", expected \"%s\"", r, brief(z).c_str(), cut(got).c_str(), cut(want).c_str());
}
static void checkParse(const std::string &s, int r, const Z &z) {
    bool ok = false; mc::step();
    BigInteger x(s, r, &ok);
    MC_CHECK(eq(x, z), "parsing \"%s\" in radix %d gave %s, expected %s", cut(s).c_str(), r, show(x).c_str(), brief(z).c_str());
    MC_CHECK(ok, "parsing \"%s\" in radix %d did not set ok", cut(s).c_str(), r);
}
static std::string upper(std::string s) { for (auto &c : s) c = std::toupper(c); return s; }
static std::string mixed(std::string s) { for (size_t i = 0; i < s.size(); i += 2) s[i] = std::toupper(s[i]); return s; }
static void both(const Z &z, int r, bool all) {
    const std::string want = refStr(z, r); const BigInteger x = parse(z);
    MC_NOTE("radix %d: %s = \"%s\"", r, brief(z).c_str(), cut(want).c_str()); mc::state(mc::mix(zhash(z), r));
    checkStr(x, z, r, want); checkParse(want, r, z);
    if (r == 10) { MC_CHECK(x.toString() == want, "toString() of %s", brief(z).c_str()); MC_CHECK(eq(BigInteger(want), z), "default radix of the constructor"); }
    if (!all) return;
    checkParse(upper(want), r, z); checkParse(mixed(want), r, z);
    const std::string digits = z < 0 ? want.substr(1) : want, sign = z < 0 ? "-" : "";
    for (size_t zeros : {1, 2, 9, 33, 70}) checkParse(sign + std::string(zeros, '0') + digits, r, z);
    if (z >= 0) { checkParse("+" + want, r, z); checkParse("+00" + want, r, z); }
    if (z == 0) { checkParse("-0", r, z); checkParse("-000", r, z); checkParse(std::string(200, '0'), r, z); }
    BigInteger y(parse(bigK())); const BigInteger y2(y); bool ok = false; y.assign(want, r, &ok); MC_CHECK(ok && eq(y, z) && eq(y2, bigK()), "assign(\"%s\", %d) over a shared number gave %s", cut(want).c_str(), r, show(y).c_str());
    { BigIntegerImpl i("123456789012345678901234567890"); ok = false; i.fromString(want, r, &ok); const std::string back = i.toString(r); mc::step(); MC_CHECK(ok && back == want, "fromString/toString radix %d: \"%s\" became \"%s\"", r, cut(want).c_str(), cut(back).c_str()); }
    { // the view need not be terminated
        std::string padded = want + "1"; bool ok2 = false; BigInteger v(pgbn::StringArg(padded.data(), want.size()), r, &ok2); MC_CHECK(ok2 && eq(v, z), "string view followed by another digit: \"%s\" radix %d gave %s", cut(want).c_str(), r, show(v).c_str()); }
}
MC_SPACE("up to 3 limbs over 8 boundary words, every radix", 1) {
    static const Vals V = limbVals(alpha8(), 0, 3); const Val &a = mc::pick(V); const int r = 2 + (int)mc::choose(35); both(a.z, r, true);
}
MC_SPACE("every digit string up to a length, every radix", 2) {
    const int r = 2 + (int)mc::choose(35); static const unsigned MAXL[] = {12, 7, 6, 5, 4, 4, 4, 3, 3};
    const unsigned maxL = (r <= 10 ? MAXL[r - 2] : r <= 16 ? 3 : 2) + (mc::tier() ? 1 : 0);
    const unsigned L = 1 + mc::choose(maxL); std::string s; for (unsigned i = 0; i < L; ++i) { char c = DIG[mc::choose(r)]; s += c; }
    for (const char *sign : {"", "-", "+"}) { const Z z = refParse(sign + s, r); checkParse(sign + s, r, z); if (*sign != '+') checkStr(parse(z), z, r, refStr(z, r)); }
    mc::state(mc::mix(mc::hashStr(s), r)); MC_NOTE("radix %d: \"%s\"", r, s.c_str());
}
MC_SPACE("digit patterns of every length over several conversion blocks, every radix", 2) {
    const int r = 2 + (int)mc::choose(35); const unsigned maxDigits = (unsigned)((mc::tier() ? 700 : 330) / std::log2((double)r));
    const unsigned L = 1 + mc::choose(maxDigits), pat = mc::choose(9);
    std::string s(L, '0');
    for (unsigned i = 0; i < L; ++i) {
        int d = 0;
        switch (pat) { case 0: d = r - 1; break; case 1: d = i == 0; break; case 2: d = i == 0 || i == L - 1; break; case 3: d = i % 2 ? 0 : r - 1; break; case 4: d = (i + 1) % r; break;
        case 5: d = i < L / 2 ? r - 1 : 0; break; case 6: d = i == 0 ? 1 : i < L / 2 ? 0 : r - 1; break; case 7: d = (int)(mc::mix(i, r) % r); break; case 8: d = (i == 0 || i == L / 2) ? 1 : 0; break; }
        s[i] = DIG[d];
    }
    if (s[0] == '0') s[0] = '1';
    const Z z = refParse(s, r); both(z, r, L % 7 == 1 || pat == 0);
}
MC_SPACE("powers of the radix and their neighbours", 2) {
    const int r = 2 + (int)mc::choose(35); const unsigned k = mc::choose(150); const int d = (int)mc::choose(5) - 2; const bool neg = mc::choose(2);
    Z z = 1; for (unsigned i = 0; i < k; ++i) z *= r; z += d; if (neg) z = -z; both(z, r, false);
}
MC_SPACE("long numbers", 1) {
    static const std::vector<unsigned> L{10, 31, 32, 33, 64, 79, 80, 81, 100, 160, 161}; static const std::vector<int> R{2, 3, 7, 8, 10, 16, 27, 32, 36};
    const unsigned n = mc::pick(L); const int r = mc::pick(R); const unsigned p = mc::choose(8); const Vals P = patternVals(n, 8); both(P[p].z, r, false);
}
MC_SPACE("every provenance, every radix", 2) {
    const unsigned p = mc::choose(NPROV); const Val &a = mc::pick(coreVals()); const int r = 2 + (int)mc::choose(35);
    Keep k; const BigInteger x = make(a, p, k); if (readExport(x) != a.z) mc::prune();
    const std::string want = refStr(a.z, r); checkStr(x, a.z, r, want); checkStr(x, a.z, r, want); checkStr(BigInteger(x), a.z, r, want); checkKeep(k); mc::state(mc::mix(a.h, p * 64 + r)); MC_NOTE("%s, radix %d", provName(p), r);
    MC_CHECK(readExport(x) == a.z, "toString changed the number");
}
MC_SPACE("very long digit strings", 1) {
    static const std::vector<unsigned> L{1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537}; static const std::vector<int> R{2, 3, 8, 10, 16, 32, 36};
    const unsigned n = L[mc::choose(mc::tier() ? L.size() : L.size())]; const int r = mc::pick(R); const unsigned p = mc::choose(3); if (!mc::tier() && n > 17000 && r > 2) mc::prune(); std::string s(n, DIG[r - 1]); for (unsigned i = 0; i < n; ++i) if (p == 1) s[i] = DIG[i == 0 ? 1 : 0]; else if (p == 2) s[i] = DIG[(i * 7 + i / 3 + 1) % r]; if (s[0] == '0') s[0] = '1';
    const Z z = refParse(s, r); MC_NOTE("radix %d, %u digits, pattern %u", r, n, p); mc::state(mc::mix(mc::hashStr(s), r)); checkParse((p == 1 ? "-" : p == 2 ? "+" : "") + s, r, p == 1 ? Z(-z) : z); checkStr(big(z), z, r, s);
    if (p == 0) checkParse(std::string(n, '0') + s, r, z);
}
MC_MAIN()
