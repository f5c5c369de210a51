// C26: no memory misuse, nothing leaked. Built with MC_MEMORY_ONLY: the judge is AddressSanitizer (or valgrind) and the live-byte
// count after every execution; values are other properties' business. All buffers handed to the library are exact-size heap blocks.
#include "hist.h"
#include "exprspaces.h"
#include "frac.h"
#include "Slice.h"
#include "algorithm.h"
#include "pgbn.h"
#include "parallel/ThreadPool.h"
#include "streams/StringReadStream.h"
using namespace hist;
#ifdef MC_VALGRIND // the same spaces, smaller: valgrind sees uses of uninitialised values
constexpr bool VG = true;
#else
constexpr bool VG = false;
#endif
static unsigned size(unsigned vg, unsigned quick, unsigned thorough) { return VG ? vg : mc::tier() ? thorough : quick; }
template <class T> struct Exact { T *p; size_t n; explicit Exact(size_t k) : p((T *)std::malloc(k * sizeof(T))), n(k) { } explicit Exact(const std::string &s) : Exact(s.size()) { if (n) std::memcpy(p, s.data(), n); } ~Exact() { std::free(p); } Exact(const Exact &) = delete; };
typedef Exact<char> Buf;
static pgbn::StringArg view(const Buf &b) { return pgbn::StringArg(b.p, b.n); }
// looks at a number in every way; the output depends on every limb
static volatile u64 sink;
static void look(const BigInteger &x) {
    u64 h = x.isZero() + 2 * x.isNegative() + 4 * x.isOne() + 8 * x.isEven() + 16 * x.isNegOne() + 32 * (x < 5) + (u64)x.getInt64() + x.getUInt64();
    const Z z = readExport(x); const size_t bytes = (zbits(z) + 7) / 8, limbs = (bytes + 3) / 4;
    for (size_t i = 0; i < limbs + 2; ++i) h = mc::mix(h, x.get2sComplement(i));
    for (size_t cap : {size_t(0), size_t(1), bytes ? bytes - 1 : 0, bytes, bytes + 1, limbs * 4, limbs * 4 + 3}) { Exact<unsigned char> b(cap); u64 n = x.copyMagDataTo(b.p, cap); for (u64 i = 0; i < std::min<u64>(n, cap); ++i) h = mc::mix(h, b.p[i]); }
    h = mc::hashStr(x.toString(16), h); if (h == 12345) sink = h; else sink = sink + 1;
}
static const Vals &vals() { static const Vals v = [] { Vals r = coreVals(); if (!VG) for (unsigned n : {4u, 5u, 8u}) for (const Val &p : patternVals(n, 3)) { r.push_back(p); } return r; }(); return v; }
static void sideEffects() { quietDivBy0(); *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; }

MC_SPACE("every history over three registers", 2) { sideEffects(); Regs s; history(s, VG ? CORE : mc::tier() ? FULL : MID, VG ? 1 : 2); for (int i = 0; i < R; ++i) if (s.z[i]) look(*s.r[i]); }
MC_SPACE("deeper histories, core operations", 3) { if (VG) mc::prune(); sideEffects(); Regs s; history(s, CORE, mc::tier() ? 3 : 2); for (int i = 0; i < R; ++i) if (s.z[i]) look(*s.r[i]); }
static void binary(BigInteger &x, const BigInteger &y, unsigned o) {
    switch (o) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; case 4: x %= y; break; case 5: x &= y; break; case 6: x |= y; break; case 7: x ^= y; break; case 8: look(x + y); break; case 9: look(x * y); break; case 10: look(x / y); break; case 11: look(x % y); break; case 12: (void)x.cmp(y); break; case 13: x = y; break; case 14: std::swap(x, const_cast<BigInteger &>(y)); break; case 15: { BigInteger t(std::move(x)); x = t; break; } }
}
MC_SPACE("every operation on every pair and provenance", 2) { sideEffects(); const Val &a = mc::pick(vals()), &b = mc::pick(vals()); const unsigned o = mc::choose(16), p = mc::choose(VG ? 2 : NPROV), alias = mc::choose(2); Keep k; BigInteger x(make(a, p * (VG ? 3 : 1), k)); MC_NOTE("op %u on %s (%s) and %s", o, brief(a.z).c_str(), provName(p), brief(b.z).c_str()); mc::step(); if (alias) { if (&a != &b) mc::prune(); binary(x, x, o); look(x); return; } BigInteger y(make(b, HEX, k)); const BigInteger s(x); binary(x, y, o); look(x); look(y); look(s); }
MC_SPACE("sizes around every threshold", 2) {
    static const std::vector<unsigned> N{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 79, 80, 81, 82, 120, 159, 160, 161, 200, 321}; static const std::vector<Vals> P = [] { std::vector<Vals> v; for (unsigned n : N) v.push_back(patternVals(n, VG ? 2 : 8)); return v; }();
    const unsigned i = mc::choose(N.size()), j = mc::choose(N.size()), o = mc::choose(8); if (VG && (i % 5 || j % 4)) mc::prune(); if (!VG && !mc::tier() && (i > 20 || j > 20)) mc::prune(); const Val &a = mc::pick(P[i]), &b = P[j][VG ? 0 : mc::choose(mc::tier() ? 8 : 4)]; sideEffects(); mc::step(); MC_NOTE("op %u on %u and %u limbs", o, N[i], N[j]); BigInteger x(a.le.size(), a.le.data(), true), y(b.le.size(), b.le.data(), true); const BigInteger s(x); binary(x, y, o); look(x); if (o == 2) { x /= y; look(x); } look(y);
}
MC_SPACE("unary operations, shifts and native operands", 1) {
    sideEffects(); const Val &a = mc::pick(vals()); const unsigned p = mc::choose(VG ? 3 : NPROV), o = mc::choose(10 + 26 + 16); Keep k; BigInteger x(make(a, p, k)); const BigInteger s(x); mc::step(); MC_NOTE("op %u on %s (%s)", o, brief(a.z).c_str(), provName(p)); static const unsigned C[] = {0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 1000};
    if (o >= 36) { const std::int64_t n = mc::pick(natives()); switch (o - 36) { case 0: x += n; break; case 1: x -= n; break; case 2: x *= n; break; case 3: x /= n; break; case 4: x %= n; break; case 5: x &= n; break; case 6: x |= n; break; case 7: x ^= n; break; case 8: x = n; break; case 9: (void)x.cmp(n); break; case 10: look(n - x); break; case 11: look(n / x); break; case 12: look(n % x); break; case 13: { BigInteger t(n); look(t); t *= x; look(t); break; } case 14: look(n * x); break; case 15: look(n ^ x); break; } }
    else if (o >= 10) { const unsigned c = C[(o - 10) % 13]; if (o < 23) x <<= c; else x >>= c; }
    else switch (o) { case 0: ++x; break; case 1: --x; break; case 2: x.negate(); break; case 3: x.abs(); break; case 4: x.notSelf(); break; case 5: x.notBits(); break; case 6: look(-x); break; case 7: look(~x); break; case 8: look(x.absoluted()); break; case 9: look(x++); look(x--); break; }
    look(x); look(s);
}
MC_SPACE("texts in every radix, from exact buffers", 1) {
    sideEffects(); const int r = (VG ? std::vector<int>{2, 10, 16, 36, 0, 37} : std::vector<int>{2, 3, 7, 8, 10, 11, 16, 32, 35, 36, 0, 1, 37, -1})[mc::choose(VG ? 6 : 14)]; const unsigned len = mc::choose(size(20, 140, 400)), sign = mc::choose(3), kind = mc::choose(6); std::string s = sign == 1 ? "-" : sign == 2 ? "+" : ""; for (unsigned i = 0; i < len; ++i) s += kind == 1 ? '0' : kind == 2 && i == len - 1 ? '!' : kind == 3 && i == 0 ? ' ' : kind == 4 ? "10Z"[i % 3] : '1'; if (kind == 5) s += '\n';
    Buf b(s); mc::step(3); MC_NOTE("\"%s\" radix %d", s.substr(0, 50).c_str(), r); bool ok; BigInteger x(view(b), r, &ok); if (ok) { look(x); if (r >= 2 && r <= 36) (void)x.toString(r); } BigInteger t(parse(bigK())); const BigInteger share(t); t.assign(view(b), r, &ok); look(t); look(share); Buf z(s + std::string(1, '\0')); if (auto *h = pgbn_BigInteger_CreateWithStr(z.p, r)) pgbn_BigInteger_Destroy(h);
}
MC_SPACE("toString in every radix", 1) { const Val &a = mc::pick(vals()); const int r = 2 + (int)mc::choose(35); const unsigned p = mc::choose(VG ? 1 : 4); Keep k; BigInteger x(make(a, p, k)); mc::step(); const std::string s = x.toString(r); sink = sink + mc::hashStr(s) % 7; look(x); }
MC_SPACE("binary import of every length, from exact buffers", 1) {
    const unsigned n = mc::choose(size(20, 70, 300)), top = mc::choose(6), fill = mc::choose(4), low = mc::choose(4); const bool little = mc::choose(2); static const unsigned char T[] = {0, 1, 0x7f, 0x80, 0xff, 0xfe}; static const unsigned char F[] = {0, 0xff, 0x80, 0x5a}; Exact<unsigned char> b(n); for (unsigned i = 0; i < n; ++i) b.p[i] = F[fill]; if (n) { b.p[little ? n - 1 : 0] = T[top]; if (n > 1) b.p[little ? 0 : n - 1] = F[low]; } mc::step(2);
    BigInteger x(n, b.p, little); look(x); BigInteger t(parse(bigK())); const BigInteger share(t); t.fromBinary(b.p, n, little); look(t); look(share); auto *h = pgbn_BigInteger_CreateWithBin(n, b.p, little); pgbn_BigInteger_AssignWithBin(h, b.p, n, !little); pgbn_BigInteger_Destroy(h);
}
static void evalAll(const std::string &s, bool par) { Buf b(s); pgbn::Status st; mc::step(); MC_NOTE("%s", ref::quoteS(s).c_str()); try { look(pgbn::expr::eval(view(b), &st)); } catch (int) { } if (par) try { look(pgbn::expr::peval(view(b), 2, &st)); } catch (int) { } }
static void boom() { static bool once = [] { ref::stdEnv(); pgbn::infixExpr::Func g; g.argCount = -1; g.nativeCall = [](pgbn::infixExpr::Func::ArgType) -> BigIntegerImpl { throw 7; }; pgbn::infixExpr::SymbolTable::getInstance()->registe("boom", pgbn::infixExpr::SymbolTable::Symbol(std::move(g))); return true; }(); (void)once; sideEffects(); ref::seen().clear(); ref::seen().reserve(4096); }
MC_SPACE("expressions: every prefix and every deletion, from exact buffers", 1) {
    boom(); const std::string &s = mc::pick(exprs::longSentences()); const unsigned how = mc::choose(VG ? 2 : 3), i = mc::choose(s.size() + 1); static const std::string ADD = "()+-*!?:,=<>0x.k@ \x80"; std::string t = s; if (how == 0) t = s.substr(0, i); else if (how == 1) { if (i == s.size()) mc::prune(); t.erase(i, 1); } else t.insert(i, 1, ADD[mc::choose(ADD.size())]); if (ref::evaluate(ref::stdEnv(), t).v == ref::UNSPEC) mc::prune(); evalAll(t, !VG && mc::choose(2));
}
MC_SPACE("expressions: every short string", 2) { boom(); static const std::string A = VG ? "1(+!x" : "10(+)!?:,.=*<xkg "; const unsigned L = mc::choose(VG ? 4 : mc::tier() ? 6 : 5); std::string s; for (unsigned i = 0; i < L; ++i) s += A[mc::choose(A.size())]; if (ref::evaluate(ref::stdEnv(), s).v == ref::UNSPEC) mc::prune(); evalAll(s, false); }
MC_SPACE("expressions: every number of nodes", 1) { boom(); const unsigned n = mc::choose(size(40, 150, 600)), shape = mc::choose(6); std::string s; switch (shape) { case 0: for (unsigned i = 0; i < n; ++i) s += "1+"; s += "1"; break; case 1: s = std::string(n, '(') + "1" + std::string(n, ')'); break; case 2: s = "Sum("; for (unsigned i = 0; i < n; ++i) s += i ? ",k" : "1"; s += ")"; break; case 3: for (unsigned i = 0; i < n; ++i) s += "0?1:"; s += "2"; break; case 4: for (unsigned i = 0; i < n; ++i) s += "g("; s += "1"; for (unsigned i = 0; i < n; ++i) s += ")"; break; case 5: s = std::string(n, '-') + "1" + (n % 3 ? "" : "+boom()"); break; } evalAll(s, n < size(10, 40, 80)); }
MC_SPACE("expressions: functions that throw", 1) { boom(); static const std::vector<std::string> S{"boom()", "1+boom(2,3)", "g(boom())", "Sum(1,g(2),boom(3),4*5)", "boom()+boom()", "0?boom():3", "1?boom(k):3", "boom", "boom(", "boom(1", "boom(1,)", "2*(boom(1)", "h2(1)+boom()", "boom()!", "-boom(k*k)"}; const std::string &s = mc::pick(S); Buf b(s); const unsigned m = mc::choose(5); mc::step(); try { if (m == 0) look(pgbn::expr::eval(view(b))); else look(pgbn::expr::peval(view(b), (int)m - 1)); } catch (int) { } }
MC_SPACE("fractions", 2) {
    sideEffects(); using fr::Fraction; static const std::vector<Z> &B = fr::bigs(); const Z &a = mc::pick(B), &b = mc::pick(B); const unsigned o = mc::choose(12); if (VG && o > 7) mc::prune(); const Z &c = B[o < 8 ? mc::choose(VG ? 3 : B.size()) : 3]; bool ok = true; mc::step(); Fraction f(parse(a), parse(b), &ok); if (b == 0) { MC_NOTE("zero denominator"); return; } Fraction g(parse(c), parse(Z(7)));
    auto see = [](const Fraction &x) { look(x.getNum()); look(x.getDen()); (void)x.toString(10); };
    switch (o) { case 0: see(f + g); break; case 1: see(f - g); break; case 2: see(f * g); break; case 3: see(f / g); break; case 4: see(f.getNum()); see(Fraction(parse(a))); break; case 5: f = g; see(f); see(g); break; case 6: f = std::move(g); see(f); break; case 7: { Fraction h(f); h = h + h; see(h); see(f); break; } case 8: see(f.reciprocal(&ok)); break; case 9: (void)f.toDecimal(20); (void)f.toDecimal(0); break; case 10: f.setDen(parse(a), &ok); f.setNum(parse(b)); break; case 11: (void)f.toString(2); (void)f.toString(36); break; }
}
MC_SPACE("gcd", 1) { const Val &a = mc::pick(vals()), &b = mc::pick(vals()); if (a.z < 0 || b.z < 0) mc::prune(); BigInteger x(parse(a)), y(parse(b)); mc::step(); look(pgbn::algo::gcd(x, y)); look(x); look(y); }
MC_SPACE("windows", 2) { // three windows over shared storage
    typedef pgbn::Slice<std::uint32_t> W; W w[3]; w[0].append(1).append(2).append(3); w[1] = w[0]; w[2] = w[0].sliced(1, 3); u64 h = 0;
    for (unsigned d = 0, D = VG ? 2 : mc::tier() ? 4 : 3; d < D; ++d) { const unsigned i = mc::choose(3), j = mc::choose(3), o = mc::choose(13); if (j && o < 10) mc::prune(); W &x = w[i]; const size_t c = x.count(); mc::step();
        switch (o) { case 0: x.cloneData().append(5); break; case 1: x.cloneData().prepend(6); break; case 2: x.cloneData().preExtend(3); break; case 3: if (c < 2) mc::prune(); x.slice(1, c); break; case 4: if (c < 2) mc::prune(); x.slice(0, c - 1); break; case 5: x.slice(0, 0); break; case 6: x.cloneData().slice(0, c + 2); break; case 7: x.cloneData(); for (auto &e : x) e = 9; break; case 8: { auto p = std::make_shared<std::vector<std::uint32_t>>(4, 8u); x = W(p, 1, 3); break; } case 9: x.cloneData().preExtend(1, 4); break; case 10: x = w[j]; break; case 11: if (i == j) mc::prune(); x = std::move(w[j]); break; case 12: x.swap(w[j]); break; }
        for (W &y : w) for (size_t k = 0; k < y.count(); ++k) h = mc::mix(h, y[k]); }
    if (h == 999) sink = h; else sink = sink + 1;
}
MC_SPACE("C handles, strings and status objects", 2) {
    sideEffects(); static const std::vector<std::string> S{"0", "-ffffffffffffffff", "100000000", "zz"}; auto *a = pgbn_BigInteger_CreateWithStr(mc::pick(S).c_str(), 36), *b = mc::choose(2) ? pgbn_BigInteger_CreateWithCopying(a) : pgbn_BigInteger_CreateWithI64(-5); struct G { pgbn_BigInteger_t *&a, *&b; ~G() { pgbn_BigInteger_Destroy(a); pgbn_BigInteger_Destroy(b); } } g{a, b};
    for (unsigned d = 0, D = VG ? 1 : mc::tier() ? 3 : 2; d < D; ++d) { mc::step(); const bool rev = mc::choose(2); auto *x = rev ? b : a, *y = rev ? a : b; switch (mc::choose(26)) {
        case 0: pgbn_BigInteger_AddAssign(x, y); break; case 1: pgbn_BigInteger_SubAssign(x, y); break; case 2: pgbn_BigInteger_MulAssign(x, y); break; case 3: pgbn_BigInteger_DivAssign(x, y); break; case 4: pgbn_BigInteger_ModAssign(x, y); break; case 5: pgbn_BigInteger_AndAssign(x, y); break; case 6: pgbn_BigInteger_XorAssign(x, y); break; case 7: pgbn_BigInteger_Copy(x, y); break; case 8: pgbn_BigInteger_MulAssign(x, x); break; case 9: pgbn_BigInteger_DivAssignWithI64(x, 0); break; case 10: pgbn_BigInteger_SHLAssignWithI64(x, 65); break; case 11: pgbn_BigInteger_SHRAssignWithI64(x, 33); break;
        case 12: (void)pgbn_BigInteger_AssignWithStr(x, "-123456789012345678901234567890", 10); break; case 13: (void)pgbn_BigInteger_AssignWithStr(x, "12x", 10); break; case 14: pgbn_BigInteger_AssignWithI64(x, INT64_MIN); break; case 15: { Exact<unsigned char> z(5); std::memset(z.p, 0xff, 5); pgbn_BigInteger_AssignWithBin(x, z.p, 5, true); break; } case 16: { auto *s = pgbn_BigInteger_ToString(x, 10); u64 n = pgbn_String_Length(s); sink = sink + mc::hashStr(pgbn_String_CStr(s), n) % 5; pgbn_String_Destroy(s); break; }
        case 17: { auto *s = pgbn_Status_Create(); pgbn_Status_SetErrno(s, 1); (void)pgbn_Status_GetInfo(s); pgbn_Status_Destroy(s); break; } case 18: (void)pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); break; case 19: { auto *s = pgbn_Status_CreateWithErrno(2); pgbn_Status_Destroy(s); break; } case 20: { bool ok; (void)pgbn_BigInteger_GetInt64WithChecking(x, &ok); (void)pgbn_BigInteger_GetUInt64(x); break; } case 21: { auto *c = pgbn_BigInteger_CreateWithStr("99?", 10); if (c) pgbn_BigInteger_Destroy(c); break; } case 22: { auto *s = pgbn_String_Create("abc"); pgbn_String_Destroy(s); break; } case 23: { auto *c = pgbn_BigInteger_CreateWithCopying(x); pgbn_BigInteger_Inc(c); pgbn_BigInteger_Destroy(c); break; } case 24: pgbn_BigInteger_NotSelfBits(x); break; case 25: { Exact<unsigned char> z(3); (void)pgbn_BigInteger_GetMagData(x, z.p, 3); break; } } }
    Exact<unsigned char> z(9); size_t n = pgbn_BigInteger_GetMagData(a, z.p, 9); u64 h = 0; for (size_t i = 0; i < std::min<size_t>(n, 9); ++i) h = mc::mix(h, z.p[i]); sink = sink + h % 3;
}
MC_SPACE("character streams", 1) {
    typedef pg::base::StringReadStream St; const unsigned n = mc::choose(4), copy = mc::choose(2), kind = mc::choose(3); std::string text(n, 'a'); mc::step(); u64 h = 0; Buf raw(text + std::string(1, '\0')); auto use = [&](St &s, unsigned k) { for (unsigned i = 0; i < k; ++i) { h += s.peek() + s.eof(); h += s.get(); } }; const unsigned k = mc::choose(n + 3);
    if (kind == 0) { St s(text, copy); use(s, k); } else if (kind == 1) { St s(raw.p, copy); use(s, k); St t(std::move(s)); use(t, 2); } else { St s(raw.p, copy); St t(text, mc::choose(2)); use(t, k); t = std::move(s); use(t, n + 1); t = St(text, copy); use(t, n); }
    if (h == 1) sink = h;
}
MC_SPACE("status objects", 1) { sideEffects(); mc::step(); pgbn::Status a, b; for (unsigned d = 0; d < (VG ? 2u : 3u); ++d) switch (mc::choose(7)) { case 0: a = 1; break; case 1: b = pgbn::ErrCode::SUCCESS; break; case 2: a.setContext(std::string(50, 'x')); break; case 3: b = std::move(a); a = 2; break; case 4: pgbn::Status::registe(900, "some text that is long enough to be allocated", [] { }); a = 900; break; case 5: sink = sink + a.getInfo().size(); break; case 6: { pgbn::Status c(std::move(b)); c = 3; b = std::move(c); break; } } }
MC_SPACE("thread pools", 1) {
    if (VG) mc::prune(); const unsigned workers = 1 + mc::choose(3), tasks = mc::choose(5), kind = mc::choose(4); mc::step(); std::vector<std::future<std::string>> fs; { pgbn::parallel::ThreadPool p(workers); for (unsigned i = 0; i < tasks; ++i) fs.push_back(p.addTask([i, kind](const std::string &s) { if (kind == 1 && i == 1) throw 5; return s + std::to_string(i); }, std::string(40, 'y'))); if (kind == 2) for (auto &f : fs) f.wait(); if (kind == 3) fs.clear(); } for (auto &f : fs) try { (void)f.get(); } catch (int) { }
}
MC_MAIN()
