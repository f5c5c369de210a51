// C21: the C binding computes exactly what the C++ API computes. The oracle is the C++ API on twin numbers.
#include "bn.h"
#include "pgbn.h"
#include <thread>
using namespace bn;
typedef pgbn_BigInteger_t H;
struct Twin { H *h = nullptr; std::unique_ptr<BigInteger> x; };
static std::string cText(H *h, int r) { pgbn_String_t *s = pgbn_BigInteger_ToString(h, r); std::string t(pgbn_String_CStr(s)); MC_CHECK(pgbn_String_Length(s) == t.size(), "string length"); pgbn_String_Destroy(s); return t; }
static std::string cMag(H *h) { std::vector<unsigned char> b(4096); size_t n = pgbn_BigInteger_GetMagData(h, b.data(), b.size()); MC_CHECK(n < b.size(), "too long"); return std::string((char *)b.data(), n); }
static std::string xMag(const BigInteger &x) { std::vector<unsigned char> b(4096); size_t n = x.copyMagDataTo(b.data(), b.size()); MC_CHECK(n < b.size(), "too long"); return std::string((char *)b.data(), n); }
static void same(const Twin &t, const char *what) {
    MC_CHECK(cMag(t.h) == xMag(*t.x) && pgbn_BigInteger_IsNegative(t.h) == t.x->isNegative() && pgbn_BigInteger_IsZero(t.h) == t.x->isZero(), "%s: the handle holds %s, the C++ number is %s", what, cText(t.h, 16).c_str(), show(*t.x).c_str());
}
static void sameAll(const Twin &t, const char *what) {
    same(t, what);
    for (int r : {2, 10, 16, 36}) MC_CHECK(cText(t.h, r) == t.x->toString(r), "%s: ToString(%d)", what, r);
    MC_CHECK(pgbn_BigInteger_IsOne(t.h) == t.x->isOne() && pgbn_BigInteger_IsNegOne(t.h) == t.x->isNegOne() && pgbn_BigInteger_IsPositive(t.h) == t.x->isPositive() && pgbn_BigInteger_IsEven(t.h) == t.x->isEven() && pgbn_BigInteger_IsOdd(t.h) == t.x->isOdd(), "%s: predicates of %s", what, show(*t.x).c_str());
    for (size_t i : {0, 1, 2, 3, 4, 9, 1000}) MC_CHECK(pgbn_BigInteger_Get2sComplementBlock(t.h, i) == t.x->get2sComplement(i), "%s: block %zu of %s", what, i, show(*t.x).c_str());
    for (size_t c : {0, 1, 3, 4, 5, 8, 17}) { unsigned char a[64], b[64]; std::memset(a, 0x77, 64); std::memset(b, 0x77, 64); size_t n = pgbn_BigInteger_GetMagData(t.h, a, c), m = t.x->copyMagDataTo(b, c); MC_CHECK(n == m && !std::memcmp(a, b, 64), "%s: GetMagData(%zu) of %s", what, c, show(*t.x).c_str()); }
}
static std::string info() { return pgbn::Status::getInstance()->getInfo(); }
static void preset(unsigned s) { *pgbn::Status::getInstance() = s ? pgbn::ErrCode::ARITHMETIC_OVERFLOW : pgbn::ErrCode::SUCCESS; }
// runs both sides from the same status and compares the status they leave
template <class A, class B> static void both(A c, B cpp, const char *what) {
    for (unsigned s = 0; s < 1; ++s) { preset(s); c(); const std::string i1 = info(); preset(s); cpp(); const std::string i2 = info(); MC_CHECK(i1 == i2, "%s: the binding leaves status \"%s\", the C++ operation \"%s\"", what, i1.c_str(), i2.c_str()); }
}
static const Vals &vals() { static Vals v = [] { Vals r = coreVals(); for (const char *s : {"0x7fffffffffffffff", "-0x7fffffffffffffff", "0x8000000000000001", "-0x8000000000000001", "-0x8000000000000000", "0xffffffffffffffffffffffff", "0xdeadbeef0000000012345678", "10", "-7"}) r.emplace_back(Z(s)); return r; }(); return v; }
// a handle and its twin holding v, made in different ways
constexpr unsigned NWAYS = 6;
static Twin makeTwin(const Val &v, unsigned way) {
    Twin t; preset(0);
    switch (way) {
    case 0: t.h = pgbn_BigInteger_CreateWithStr(v.hex.c_str(), 16); break;
    case 1: t.h = pgbn_BigInteger_CreateWithBin(v.le.size(), v.le.data(), true); break;
    case 2: { std::vector<unsigned char> be(v.le.rbegin(), v.le.rend()); t.h = pgbn_BigInteger_CreateWithBin(be.size(), be.data(), false); break; }
    case 3: { H *a = pgbn_BigInteger_CreateWithStr(v.hex.c_str(), 16); t.h = pgbn_BigInteger_CreateWithCopying(a); pgbn_BigInteger_AddAssignWithI64(a, 1); pgbn_BigInteger_Destroy(a); break; }
    case 4: { t.h = pgbn_BigInteger_Create(); H *a = pgbn_BigInteger_CreateWithStr(v.hex.c_str(), 16); pgbn_BigInteger_Copy(t.h, a); pgbn_BigInteger_Destroy(a); break; }
    case 5: { t.h = pgbn_BigInteger_CreateWithI64(-123); MC_CHECK(pgbn_BigInteger_AssignWithStr(t.h, v.hex.c_str(), 16), "AssignWithStr"); break; }
    }
    MC_CHECK(t.h, "creation returned NULL"); t.x = std::make_unique<BigInteger>(v.hex, 16); return t;
}
struct Guard { std::vector<H *> hs; ~Guard() { for (H *h : hs) if (h) pgbn_BigInteger_Destroy(h); } };
#define HOLD(t) Guard guardOf_##t; guardOf_##t.hs.push_back((t).h)
struct BinOp { const char *n; void (*c)(H *, H *); void (*ci)(H *, int64_t); void (*x)(BigInteger &, const BigInteger &); void (*xi)(BigInteger &, int64_t); bool div; };
static const std::vector<BinOp> &binops() {
    static const std::vector<BinOp> v{
#define B(N, op, d) {#N, pgbn_BigInteger_##N##Assign, pgbn_BigInteger_##N##AssignWithI64, [](BigInteger &a, const BigInteger &b) { a op b; }, [](BigInteger &a, int64_t b) { a op b; }, d}
        B(Add, +=, false), B(Sub, -=, false), B(Mul, *=, false), B(Div, /=, true), B(Mod, %=, true), B(And, &=, false), B(Or, |=, false), B(Xor, ^=, false)};
#undef B
    return v;
}
struct UnOp { const char *n; void (*c)(H *); void (*x)(BigInteger &); };
static const std::vector<UnOp> &unops() {
    static const std::vector<UnOp> v{{"Inc", pgbn_BigInteger_Inc, [](BigInteger &a) { ++a; }}, {"Dec", pgbn_BigInteger_Dec, [](BigInteger &a) { --a; }}, {"NotSelf", pgbn_BigInteger_NotSelf, [](BigInteger &a) { a.notSelf(); }}, {"Negate", pgbn_BigInteger_Negate, [](BigInteger &a) { a.negate(); }}, {"AbsSelf", pgbn_BigInteger_AbsSelf, [](BigInteger &a) { a.abs(); }}, {"NotSelfBits", pgbn_BigInteger_NotSelfBits, [](BigInteger &a) { a.notBits(); }}};
    return v;
}
MC_SPACE("creation and every observer", 1) {
    const Val &v = mc::pick(vals()); const unsigned w = mc::choose(NWAYS); Twin t = makeTwin(v, w); HOLD(t); mc::step(); mc::state(mc::mix(v.h, w)); MC_NOTE("%s made in way %u", brief(v.z).c_str(), w); sameAll(t, "creation");
    const int r = 2 + (int)mc::choose(35); MC_CHECK(cText(t.h, r) == t.x->toString(r), "ToString(%d)", r);
    for (int chk = 0; chk < 2; ++chk) {
        bool o1 = false, o2 = false; int64_t a = 0, b = 0; both([&] { a = chk ? pgbn_BigInteger_GetInt64WithChecking(t.h, &o1) : pgbn_BigInteger_GetInt64(t.h); }, [&] { b = t.x->getInt64(&o2); }, "GetInt64"); MC_CHECK(a == b && (!chk || o1 == o2), "GetInt64 of %s: %" PRId64 " ok %d, C++ %" PRId64 " ok %d", brief(v.z).c_str(), a, o1, b, o2);
        o1 = o2 = false; uint64_t c = 0, d = 0; both([&] { c = chk ? pgbn_BigInteger_GetUInt64WithChecking(t.h, &o1) : pgbn_BigInteger_GetUInt64(t.h); }, [&] { d = t.x->getUInt64(&o2); }, "GetUInt64"); MC_CHECK(c == d && (!chk || o1 == o2), "GetUInt64 of %s: %" PRIu64 " ok %d, C++ %" PRIu64 " ok %d", brief(v.z).c_str(), c, o1, d, o2);
        // no flag may be set to true by a failing conversion, nor to false by a successful one
        o1 = !o2; (void)pgbn_BigInteger_GetUInt64WithChecking(t.h, &o1); MC_CHECK(o1 == o2, "GetUInt64WithChecking leaves ok at %d", o1);
    }
    same(t, "after conversions");
}
MC_SPACE("native creation and assignment", 1) { const int64_t k = mc::pick(natives()); const Val &v = mc::pick(vals()); Twin t = makeTwin(v, 0), n; n.h = pgbn_BigInteger_CreateWithI64(k); n.x = std::make_unique<BigInteger>(k); HOLD(t); HOLD(n); sameAll(n, "CreateWithI64"); pgbn_BigInteger_AssignWithI64(t.h, k); *t.x = k; sameAll(t, "AssignWithI64"); MC_CHECK(pgbn_BigInteger_CmpWithI64(t.h, k) == 0 && pgbn_BigInteger_Cmp(t.h, n.h) == 0, "Cmp"); mc::step(2); }
MC_SPACE("every binary function on every pair", 2) {
    const Val &a = mc::pick(vals()), &b = mc::pick(vals()); const unsigned w = mc::choose(2) * 3, w2 = mc::tier() ? mc::choose(NWAYS) : 0; const BinOp &o = mc::pick(binops()); if (o.div && b.z == 0) mc::prune();
    Twin x = makeTwin(a, w), y = makeTwin(b, w2); HOLD(x); HOLD(y); mc::step(); mc::state(mc::mix(a.h, mc::mix(b.h, w))); MC_NOTE("%sAssign(%s, %s)", o.n, brief(a.z).c_str(), brief(b.z).c_str());
    both([&] { o.c(x.h, y.h); }, [&] { o.x(*x.x, *y.x); }, o.n); same(x, o.n); same(y, "the second argument");
    const int c1 = pgbn_BigInteger_Cmp(x.h, y.h), c2 = x.x->cmp(*y.x); MC_CHECK(c1 == c2, "Cmp is %d, C++ %d", c1, c2); MC_CHECK(pgbn_BigInteger_Cmp(y.h, x.h) == y.x->cmp(*x.x), "Cmp the other way"); same(x, "after Cmp");
}
MC_SPACE("every binary function with a native operand", 2) {
    const Val &a = mc::pick(vals()); const int64_t k = mc::pick(natives()); const BinOp &o = mc::pick(binops()); if (o.div && k == 0) mc::prune(); Twin x = makeTwin(a, 0); HOLD(x); mc::step(); mc::state(mc::mix(a.h, (u64)k)); MC_NOTE("%sAssignWithI64(%s, %" PRId64 ")", o.n, brief(a.z).c_str(), k);
    const int c1 = pgbn_BigInteger_CmpWithI64(x.h, k), c2 = x.x->cmp(k); MC_CHECK(c1 == c2, "CmpWithI64 is %d, C++ %d", c1, c2); both([&] { o.ci(x.h, k); }, [&] { o.xi(*x.x, k); }, o.n); same(x, o.n);
}
MC_SPACE("every unary function and shift", 1) {
    const Val &a = mc::pick(vals()); const unsigned w = mc::choose(NWAYS), o = mc::choose(6 + 24); Twin x = makeTwin(a, w); HOLD(x); mc::step();
    if (o < 6) { MC_NOTE("%s(%s)", unops()[o].n, brief(a.z).c_str()); both([&] { unops()[o].c(x.h); }, [&] { unops()[o].x(*x.x); }, unops()[o].n); same(x, unops()[o].n); return; }
    static const int64_t C[] = {0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 200}; const int64_t k = C[(o - 6) % 12]; const bool l = o < 18; MC_NOTE("%s(%s, %" PRId64 ")", l ? "SHL" : "SHR", brief(a.z).c_str(), k);
    both([&] { (l ? pgbn_BigInteger_SHLAssignWithI64 : pgbn_BigInteger_SHRAssignWithI64)(x.h, k); }, [&] { if (l) *x.x <<= k; else *x.x >>= k; }, "shift"); same(x, "shift");
}
MC_SPACE("strings, well-formed and not", 1) {
    static const std::vector<std::string> S{"", "0", "-0", "+0", "000", "1", "-1", "+1", "--1", "+-1", "1-", "1+", " 1", "1 ", "12345678901234567890", "-ffffffffffffffffFFFF", "0x1", "1.5", "zz", "ZZ", "-", "+", "z", "9", "2", "19", "1z1", "123456789012345678901234567890!", "1_000"}; const std::string &s = mc::pick(S); static const std::vector<int> R{0, 1, 2, 8, 10, 16, 35, 36, 37, -3}; const int r = mc::pick(R); MC_NOTE("\"%s\" radix %d", s.c_str(), r); mc::step(2);
    Twin t; bool ok = false; both([&] { t.h = pgbn_BigInteger_CreateWithStr(s.c_str(), r); }, [&] { t.x = std::make_unique<BigInteger>(pgbn::StringArg(s), r, &ok); }, "CreateWithStr"); HOLD(t);
    MC_CHECK((t.h != nullptr) == ok, "CreateWithStr(\"%s\", %d) returned %s, the C++ constructor sets ok to %d", s.c_str(), r, t.h ? "a number" : "NULL", ok); if (t.h) sameAll(t, "CreateWithStr");
    const Val &v = mc::pick(vals()); Twin u = makeTwin(v, 3); HOLD(u); bool o1 = false, o2 = false; both([&] { o1 = pgbn_BigInteger_AssignWithStr(u.h, s.c_str(), r); }, [&] { u.x->assign(pgbn::StringArg(s), r, &o2); }, "AssignWithStr"); MC_CHECK(o1 == o2, "AssignWithStr returned %d, C++ sets ok to %d", o1, o2); same(u, "AssignWithStr");
}
MC_SPACE("binary buffers", 1) {
    const unsigned n = mc::choose(10); static const unsigned char A[] = {0, 1, 0x7f, 0x80, 0xff}; std::vector<unsigned char> b(n + 1); const unsigned pat = mc::choose(25), fill = mc::choose(5); for (unsigned i = 0; i < n; ++i) b[i] = A[fill]; if (n) { b[0] = A[pat % 5]; b[n - 1] = A[pat / 5]; } const bool little = mc::choose(2); const std::vector<unsigned char> before = b; mc::step(2);
    Twin t; t.h = pgbn_BigInteger_CreateWithBin(n, b.data(), little); t.x = std::make_unique<BigInteger>((pgbn::SizeType)n, (const void *)b.data(), little); HOLD(t); sameAll(t, "CreateWithBin"); Twin u = makeTwin(vals()[3], 3); HOLD(u); pgbn_BigInteger_AssignWithBin(u.h, b.data(), n, little); u.x->fromBinary(b.data(), n, little); same(u, "AssignWithBin"); MC_CHECK(b == before, "the buffer changed");
}
// histories over three handles, including the same handle in both positions
struct HOp { std::string n; std::function<bool(Twin *)> f; };
static const std::vector<HOp> &hops() {
    static const std::vector<HOp> v = [] {
        std::vector<HOp> v; auto nm = [](int i) { return std::string(1, 'a' + i); };
        for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) {
                for (const BinOp &o : binops()) v.push_back({std::string(o.n) + "Assign(" + nm(i) + ", " + nm(j) + ")", [i, j, &o](Twin *t) { if (o.div && t[j].x->isZero()) return false; o.c(t[i].h, t[j].h); o.x(*t[i].x, *t[j].x); return true; }});
                v.push_back({"Copy(" + nm(i) + ", " + nm(j) + ")", [i, j](Twin *t) { pgbn_BigInteger_Copy(t[i].h, t[j].h); if (i != j) *t[i].x = *t[j].x; return true; }});
                if (i != j) v.push_back({nm(i) + " = CreateWithCopying(" + nm(j) + ")", [i, j](Twin *t) { pgbn_BigInteger_Destroy(t[i].h); t[i].h = nullptr; t[i].h = pgbn_BigInteger_CreateWithCopying(t[j].h); t[i].x = std::make_unique<BigInteger>(*t[j].x); return true; }});
            }
            for (const UnOp &o : unops()) v.push_back({std::string(o.n) + "(" + nm(i) + ")", [i, &o](Twin *t) { o.c(t[i].h); o.x(*t[i].x); return true; }});
            v.push_back({"SHL(" + nm(i) + ", 33)", [i](Twin *t) { pgbn_BigInteger_SHLAssignWithI64(t[i].h, 33); *t[i].x <<= 33; return true; }}); v.push_back({"SHR(" + nm(i) + ", 40)", [i](Twin *t) { pgbn_BigInteger_SHRAssignWithI64(t[i].h, 40); *t[i].x >>= 40; return true; }});
            v.push_back({"AssignWithI64(" + nm(i) + ")", [i](Twin *t) { pgbn_BigInteger_AssignWithI64(t[i].h, -4294967296ll); *t[i].x = -4294967296ll; return true; }}); v.push_back({"AssignWithStr(" + nm(i) + ")", [i](Twin *t) { bool o = pgbn_BigInteger_AssignWithStr(t[i].h, "-fffffffff00", 16); MC_CHECK(o, "AssignWithStr"); t[i].x->assign("-fffffffff00", 16); return true; }}); v.push_back({"bad AssignWithStr(" + nm(i) + ")", [i](Twin *t) { bool o = pgbn_BigInteger_AssignWithStr(t[i].h, "12/", 10); MC_CHECK(!o, "bad string accepted"); return true; }});
            v.push_back({"observe " + nm(i), [i](Twin *t) { (void)pgbn_BigInteger_IsOdd(t[i].h); (void)pgbn_BigInteger_Get2sComplementBlock(t[i].h, 1); (void)cText(t[i].h, 10); return true; }});
        }
        return v;
    }();
    return v;
}
MC_SPACE("every history over three handles", 3) {
    Twin t[3]; static const char *S[2][3] = {{"-0x1ffffffff00000000", "0xffffffff", "3"}, {"0", "-1", "0x8000000000000000"}}; const unsigned s = mc::choose(2);
    const unsigned shareFirst = mc::choose(2); for (int i = 0; i < 3; ++i) { if (shareFirst && i == 1) { t[1].h = pgbn_BigInteger_CreateWithCopying(t[0].h); t[1].x = std::make_unique<BigInteger>(*t[0].x); } else t[i] = makeTwin(Val(Z(S[s][i])), 0); }
    struct G { Twin *t; ~G() { for (int i = 0; i < 3; ++i) if (t[i].h) pgbn_BigInteger_Destroy(t[i].h); } } gg{t};
    for (unsigned d = 0, D = mc::tier() ? 3 : 2 + (s == 0 && shareFirst); d < D; ++d) { const HOp &o = mc::pick(hops()); MC_NOTE("%s", o.n.c_str()); if (!o.f(t)) mc::prune(); mc::step(); }
    for (int i = 0; i < 3; ++i) { same(t[i], "at the end of the history"); mc::state(mc::hashStr(xMag(*t[i].x))); }
}
// status functions
static int cbCount; static void *cbArg; static void cb(void *a) { ++cbCount; cbArg = a; }
MC_SPACE("status functions", 1) {
    const unsigned op = mc::choose(8), code = 500 + mc::choose(4), other = 500 + mc::choose(4); static int token; mc::step(); std::string text = "text " + std::to_string(code);
    for (unsigned c = 500; c < 504; ++c) pgbn_Status_Register(c, ("initial " + std::to_string(c)).c_str());
    auto infoOf = [](unsigned c) { return std::string(pgbn_Status_GetInfoByErrno(c)); };
    switch (op) {
    case 0: pgbn_Status_Register(code, text.c_str()); MC_CHECK(infoOf(code) == text && pgbn::Status::getInfo(code) == text, "Register"); if (other != code) MC_CHECK(infoOf(other) == "initial " + std::to_string(other), "another code changed"); break;
    case 1: { pgbn_Status_RegisterWithCallback(code, text.c_str(), cb, &token); cbCount = 0; pgbn_Status_t *s = pgbn_Status_Create(); MC_CHECK(cbCount == 0, "callback ran early"); pgbn_Status_SetErrno(s, code); const int n = cbCount; std::string i = pgbn_Status_GetInfo(s); pgbn_Status_Destroy(s); MC_CHECK(n == 1 && cbArg == &token, "the callback ran %d times", n); MC_CHECK(i == text, "GetInfo is \"%s\"", i.c_str()); break; }
    case 2: { pgbn_Status_t *s = pgbn_Status_Create(); std::string i = pgbn_Status_GetInfo(s); pgbn_Status_Destroy(s); MC_CHECK(i == pgbn::Status::getInfo(0), "a created status is \"%s\"", i.c_str()); break; }
    case 3: { pgbn_Status_RegisterWithCallback(code, text.c_str(), cb, &cbCount); cbCount = 0; pgbn_Status_t *s = pgbn_Status_CreateWithErrno(code); std::string i = pgbn_Status_GetInfo(s); const int n = cbCount; pgbn_Status_Destroy(s); MC_CHECK(i == text && n == 1, "CreateWithErrno: \"%s\", %d callbacks", i.c_str(), n); break; }
    case 4: { preset(0); pgbn_Status_t *g = pgbn_Status_GetGlobalInstance(); MC_CHECK(std::string(pgbn_Status_GetInfo(g)) == info(), "global status"); pgbn_Status_SetErrno(g, code); MC_CHECK(info() == infoOf(code), "setting the global status"); preset(1); MC_CHECK(std::string(pgbn_Status_GetInfo(g)) == info(), "global status after C++ set it"); MC_CHECK(pgbn_Status_GetGlobalInstance() != nullptr && std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) == info(), "global status asked again"); break; }
    case 5: { preset(0); pgbn_Status_t *g = pgbn_Status_GetGlobalInstance(); std::string i1, i2, i3; std::thread([&] { pgbn_Status_t *m = pgbn_Status_GetGlobalInstance(); pgbn_Status_SetErrno(m, code); i1 = pgbn_Status_GetInfo(m); i3 = pgbn::Status::getInstance()->getInfo(); }).join(); i2 = pgbn_Status_GetInfo(g); MC_CHECK(i1 == infoOf(code) && i3 == i1, "the other thread's status is \"%s\" / \"%s\"", i1.c_str(), i3.c_str()); MC_CHECK(i2 == pgbn::Status::getInfo(0) && info() == i2, "this thread's status became \"%s\"", i2.c_str()); break; }
    case 6: { pgbn_Status_t *a = pgbn_Status_CreateWithErrno(code), *b = pgbn_Status_CreateWithErrno(other); preset(0); pgbn_Status_SetErrno(a, 503); std::string i = pgbn_Status_GetInfo(b), j = pgbn_Status_GetInfo(a), k = info(); pgbn_Status_Destroy(a); pgbn_Status_Destroy(b); MC_CHECK(i == infoOf(other) && j == infoOf(503) && k == pgbn::Status::getInfo(0), "setting one status changed another"); break; }
    case 7: for (unsigned c = 0; c <= 16; ++c) MC_CHECK(infoOf(c) == pgbn::Status::getInfo(c), "built-in code %u", c); MC_CHECK(infoOf(77777) == pgbn::Status::getInfo(77777), "unregistered code"); break;
    }
}
MC_SPACE("string objects", 1) { static const std::vector<std::string> S{"", "a", "hello", std::string(100, 'x')}; const std::string &s = mc::pick(S); char buf[200]; std::strcpy(buf, s.c_str()); pgbn_String_t *t = pgbn_String_Create(buf); std::memset(buf, '#', sizeof buf - 1); const std::string got = pgbn_String_CStr(t); const size_t n = pgbn_String_Length(t); pgbn_String_Destroy(t); mc::step(); MC_CHECK(got == s && n == s.size(), "string object holds \"%s\"", got.c_str()); }
MC_SPACE("failures on one thread leave another thread's status alone", 1) { preset(0); const unsigned k = mc::choose(3); std::string i1; std::thread([&] { if (k == 0) { H *h = pgbn_BigInteger_CreateWithStr("?", 10); if (h) pgbn_BigInteger_Destroy(h); } else { H *h = pgbn_BigInteger_CreateWithStr("99999999999999999999999", 10); if (k == 1) (void)pgbn_BigInteger_GetInt64(h); else (void)pgbn_BigInteger_GetUInt64(h); pgbn_BigInteger_Destroy(h); } i1 = pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); }).join(); mc::step(); MC_CHECK(i1 == pgbn::Status::getInfo(k == 0 ? pgbn::ErrCode::NUMBER_STRING_PARSE2NUM_ERROR : pgbn::ErrCode::ARITHMETIC_OVERFLOW), "the failing thread's status is \"%s\"", i1.c_str()); MC_CHECK(std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) == pgbn::Status::getInfo(0), "this thread's status changed"); }
MC_MAIN()
