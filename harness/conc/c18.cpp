// C18: threads working on their own numbers (copies that share storage) or reading shared ones never interfere. Every pair of operations
// runs on every sharing arrangement under every schedule up to the preemption bound, with a happens-before race detector; each result is
// compared with that of the same operation run alone on an unshared number.
#include "conc.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Fraction.h"
#include "Slice.h"
#include "Status.h"
#include "algorithm.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include "infixExpr/Token.h"
#include "pgbn.h"
#include <memory>
#include <thread>
#include <vector>
using namespace conc; using pgbn::BigInteger; using pgbn::experimental::Fraction; typedef pgbn::BigIntegerImpl Impl;
CC_REDUCE();
namespace {
std::string hex(const unsigned char *p, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += strf("%02x", p[i]); return s; }
// what a number is, without the library's own printing
std::string dump(const BigInteger &x) { unsigned char b[256]; const size_t n = x.copyMagDataTo(b, sizeof b); std::string s = (x.isNegative() ? "-" : x.isZero() ? "0" : "+") + hex(b, n); for (unsigned i = 0; i < 4; ++i) s += strf(" %x", x.get2sComplement(i)); return s; }
// ---- operations -------------------------------------------------------------------------------------------------------
typedef BigInteger B;
struct Op { const char *name; std::string (*f)(B &mine); };   // changes or replaces the thread's own number
struct Read { const char *name; std::string (*f)(const B &shared); };
const B &operand() { static const B b = [] { return B("123456789abcdef0123456789", 16); }(); return b; }
const Op ops[] = {
    {"x += 1", [](B &x) { x += 1; return std::string(); }}, {"x += big", [](B &x) { x += B("fedcba9876543210ffffffff", 16); return std::string(); }}, {"x -= big", [](B &x) { x -= B("fedcba9876543210ffffffff", 16); return std::string(); }},
    {"x += x", [](B &x) { x += x; return std::string(); }}, {"x -= x", [](B &x) { x -= x; return std::string(); }}, {"x *= 3", [](B &x) { x *= 3; return std::string(); }}, {"x *= big", [](B &x) { x *= B("fedcba9876543210ffffffff", 16); return std::string(); }}, {"x *= x", [](B &x) { x *= x; return std::string(); }},
    {"x /= 7", [](B &x) { x /= 7; return std::string(); }}, {"x /= big", [](B &x) { x /= B("100000001", 16); return std::string(); }}, {"x %= big", [](B &x) { x %= B("100000001", 16); return std::string(); }}, {"x <<= 5", [](B &x) { x <<= 5; return std::string(); }}, {"x <<= 96", [](B &x) { x <<= 96; return std::string(); }},
    {"x >>= 33", [](B &x) { x >>= 33; return std::string(); }}, {"x >>= 200", [](B &x) { x >>= 200; return std::string(); }}, {"x &= big", [](B &x) { x &= B("-fedcba9876543210ffffffff", 16); return std::string(); }}, {"x |= -4", [](B &x) { x |= -4; return std::string(); }}, {"x ^= big", [](B &x) { x ^= B("fedcba9876543210ffffffff", 16); return std::string(); }},
    {"x.notSelf()", [](B &x) { x.notSelf(); return std::string(); }}, {"x.notBits()", [](B &x) { x.notBits(); return std::string(); }}, {"x.negate()", [](B &x) { x.negate(); return std::string(); }}, {"x.abs()", [](B &x) { x.abs(); return std::string(); }}, {"++x; x--", [](B &x) { ++x; x--; return std::string(); }},
    {"x = int64", [](B &x) { x = std::int64_t(-77); return std::string(); }}, {"x.assign(text)", [](B &x) { bool ok; x.assign("-123456789012345678901234567890", 10, &ok); return std::string(ok ? "ok" : "no"); }}, {"x.fromBinary", [](B &x) { x.fromBinary("\x01\x02\x03\x04\x05\x86", 6); return std::string(); }}, {"x = copy; x += 1", [](B &x) { B y(x); y += 1; x = y; y += 5; return dump(y); }},
    {"destroy", [](B &x) { x = B(); return std::string(); }},
};
const Read reads[] = {
    {"toString(10)", [](const B &x) { return x.toString(10); }}, {"toString(16)", [](const B &x) { return x.toString(16); }}, {"toString(2)", [](const B &x) { return x.toString(2); }}, {"toString(36)", [](const B &x) { return x.toString(36); }}, {"getInt64", [](const B &x) { bool ok; const auto v = x.getInt64(&ok); return strf("%ld %d", (long)v, ok); }}, {"getUInt64", [](const B &x) { bool ok; const auto v = x.getUInt64(&ok); return strf("%lu %d", (unsigned long)v, ok); }},
    {"get2sComplement", [](const B &x) { return strf("%x %x %x %x", x.get2sComplement(0), x.get2sComplement(1), x.get2sComplement(3), x.get2sComplement(9)); }}, {"copyMagDataTo", [](const B &x) { unsigned char b[64]; const size_t n = x.copyMagDataTo(b, 64); return hex(b, n); }}, {"predicates", [](const B &x) { return strf("%d%d%d%d%d%d%d", x.isZero(), x.isOne(), x.isNegOne(), x.isPositive(), x.isNegative(), x.isEven(), x.isOdd()); }},
    {"cmp", [](const B &x) { const B y("fedcba9876543210ffffffff", 16); return strf("%d %d %d %d %d", x.cmp(y), x.cmp(5), x < y, x == x, x.cmp(B(x))); }}, {"x + x", [](const B &x) { return dump(x + x); }}, {"x - 1", [](const B &x) { return dump(x - 1); }}, {"x * x", [](const B &x) { return dump(x * x); }}, {"x / 7", [](const B &x) { return dump(x / 7); }}, {"big % x", [](const B &x) { return x.isZero() ? std::string("-") : dump(B("fedcba9876543210ffffffff", 16) % x); }}, {"x & -8", [](const B &x) { return dump(x & -8); }}, {"x | big", [](const B &x) { return dump(x | B("fedcba9876543210ffffffff", 16)); }}, {"x ^ x", [](const B &x) { return dump(x ^ x); }}, {"x << 40", [](const B &x) { return dump(x << 40); }}, {"x >> 40", [](const B &x) { return dump(x >> 40); }},
    {"-x", [](const B &x) { return dump(-x); }}, {"~x", [](const B &x) { return dump(~x); }}, {"absoluted", [](const B &x) { return dump(x.absoluted()); }}, {"copy, change the copy", [](const B &x) { B y(x); y += 1; y.negate(); return dump(y); }}, {"copy, drop the copy", [](const B &x) { { B y(x); B z(y); } return std::string(); }}, {"assign, change", [](const B &x) { B y; y = x; y <<= 3; B z; z = y; z |= 1; return dump(y) + dump(z); }}, {"gcd", [](const B &x) { return dump(pgbn::algo::gcd(x, B("fedcba9876543210ffffffff", 16))); }}, {"fraction", [](const B &x) { Fraction f(x, B(12)); return f.toString() + " " + f.toDecimal(5); }},
};
enum { NOPS = sizeof ops / sizeof *ops, NREADS = sizeof reads / sizeof *reads };
const char *const values[] = {"123456789abcdef00000000000000000", "-ffffffff00000000ffffffff", "0", "5", "-80000000"};
std::string expectOp(int k, const char *v) { B x(v, 16); const std::string r = ops[k].f(x); return r + "|" + dump(x); }
std::string expectRead(int k, const char *v) { const B x(v, 16); return reads[k].f(x); }
struct Result { std::string text; };
void doOp(int k, B &x, Result &r) { const std::string t = ops[k].f(x); const std::string d = dump(x); Hide h; r.text = t + "|" + d; }
void doRead(int k, const B &x, Result &r) { const std::string t = reads[k].f(x); Hide h; r.text = t; }
void verify(const char *who, const char *what, const Result &r, const std::string &want) { CC_CHECK(r.text == want, "%s: %s gives %s, alone it gives %s", who, what, r.text.c_str(), want.c_str()); }
// the library's tables are used before the threads start, so that these spaces are about the numbers (first uses have their own space)
void warm() { Hide h; B x("123456789abcdef0123456789", 16); (void)x.toString(10); bool ok; (void)x.getUInt64(&ok); (void)pgbn::expr::eval("1+2"); }
void lowIndex(B &x) { (void)x.toString(10); bool ok; (void)x.getInt64(&ok); (void)x.get2sComplement(0); B y(x); y -= 1; } // what is computed lazily has been computed
}
// two threads own copies of one number; main keeps or gives up the original
static void copies(int nv) {
    unsigned a, b, v, keep, cached; { Hide h; v = choose(nv); keep = choose(2); cached = choose(2); a = choose(NOPS); b = choose(NOPS); if (b < a) mcs_prune(); CC_NOTE("copies of 0x%s, the original is %s%s: %s / %s", values[v], keep ? "kept" : "dropped", cached ? ", index cached" : "", ops[a].name, ops[b].name); }
    warm(); Result ra, rb; auto original = std::make_unique<B>(values[v], 16); if (cached) lowIndex(*original); B x(*original), y(*original);
    if (!keep) original.reset();
    std::thread t([&] { doOp(a, x, ra); }), u([&] { doOp(b, y, rb); }); t.join(); u.join();
    Hide h; verify("thread 1", ops[a].name, ra, expectOp(a, values[v])); verify("thread 2", ops[b].name, rb, expectOp(b, values[v])); if (keep) { const std::string d = dump(*original), w = dump(B(values[v], 16)); CC_CHECK(d == w, "the original became %s, it was %s", d.c_str(), w.c_str()); } mcs_state(a * 64 + b);
}
CC_SPACE("two threads change copies of one number", 1, 3) { copies(2); }
CC_SPACE_T("two threads change copies of one number, more values", 2) { copies(5); }
// const operations on one shared number
CC_SPACE("two threads read one number", 2, 4) {
    unsigned a, b, v, cached; { Hide h; v = choose(tier() ? 5 : 2); cached = choose(2); a = choose(NREADS); b = choose(NREADS); if (b < a) mcs_prune(); CC_NOTE("shared 0x%s%s: %s / %s", values[v], cached ? ", index cached" : "", reads[a].name, reads[b].name); }
    warm(); Result ra, rb; B x(values[v], 16); if (cached) lowIndex(x); const B &s = x;
    std::thread t([&] { doRead(a, s, ra); }), u([&] { doRead(b, s, rb); }); t.join(); u.join();
    Hide h; verify("thread 1", reads[a].name, ra, expectRead(a, values[v])); verify("thread 2", reads[b].name, rb, expectRead(b, values[v])); const std::string d = dump(x), w = dump(B(values[v], 16)); CC_CHECK(d == w, "the number became %s, it was %s", d.c_str(), w.c_str()); mcs_state(a * 64 + b);
}
// one thread changes its copy while the other reads the number it was copied from
CC_SPACE("one thread changes its copy, another reads the original", 1, 3) {
    unsigned a, b, v, cached; { Hide h; v = choose(tier() ? 5 : 2); cached = choose(2); a = choose(NOPS); b = choose(NREADS); CC_NOTE("shared 0x%s%s: %s / %s", values[v], cached ? ", index cached" : "", ops[a].name, reads[b].name); }
    warm(); Result ra, rb; B x(values[v], 16); if (cached) lowIndex(x); B mine(x); const B &s = x;
    std::thread t([&] { doOp(a, mine, ra); }), u([&] { doRead(b, s, rb); }); t.join(); u.join();
    Hide h; verify("thread 1", ops[a].name, ra, expectOp(a, values[v])); verify("thread 2", reads[b].name, rb, expectRead(b, values[v])); const std::string d = dump(x), w = dump(B(values[v], 16)); CC_CHECK(d == w, "the original became %s, it was %s", d.c_str(), w.c_str()); mcs_state(a * 64 + b);
}
// the main thread changes, replaces or destroys the number it made a copy of while the thread that owns the copy works
CC_SPACE("main goes on with the original while a thread works on its copy", 2, 5) {
    unsigned a, b, v; { Hide h; v = choose(tier() ? 5 : 2); a = choose(NOPS); b = choose(NOPS); CC_NOTE("0x%s: main %s, thread 1 %s", values[v], ops[a].name, ops[b].name); }
    warm(); Result ra, rb; B x(values[v], 16); B mine(x);
    std::thread t([&rb, b](B y) { doOp(b, y, rb); }, mine); doOp(a, x, ra); mine += 1; t.join();
    Hide h; verify("main", ops[a].name, ra, expectOp(a, values[v])); verify("thread 1", ops[b].name, rb, expectOp(b, values[v])); B w(values[v], 16); w += 1; const std::string d = dump(mine), e = dump(w); CC_CHECK(d == e, "another copy became %s, expected %s", d.c_str(), e.c_str()); mcs_state(a * 64 + b);
}
// three threads
CC_SPACE("three threads: two change copies, one reads the original", 0, 1) {
    unsigned a, b, c, v; const unsigned sub[] = {0, 3, 5, 8, 12, 13, 18, 20, 26, 27}; const unsigned sr[] = {0, 1, 9, 23, 25}; { Hide h; v = choose(2); a = sub[choose(10)]; b = sub[choose(10)]; c = sr[choose(5)]; if (b < a) mcs_prune(); CC_NOTE("0x%s: %s / %s / %s", values[v], ops[a].name, ops[b].name, reads[c].name); }
    warm(); Result ra, rb, rc; B x(values[v], 16), p(x), q(x); const B &s = x;
    std::thread t([&] { doOp(a, p, ra); }), u([&] { doOp(b, q, rb); }), w([&] { doRead(c, s, rc); }); t.join(); u.join(); w.join();
    Hide h; verify("thread 1", ops[a].name, ra, expectOp(a, values[v])); verify("thread 2", ops[b].name, rb, expectOp(b, values[v])); verify("thread 3", reads[c].name, rc, expectRead(c, values[v]));
}
// sequences: each thread performs two operations on its own copy and hands a further copy to the end
CC_SPACE("two operations in each of two threads", 1, 2) {
    const unsigned sub[] = {0, 5, 8, 13, 18, 26, 27}; unsigned a[2], b[2], keep; { Hide h; for (auto &k : a) k = sub[choose(7)]; for (auto &k : b) k = sub[choose(7)]; keep = choose(2); CC_NOTE("%s; %s / %s; %s", ops[a[0]].name, ops[a[1]].name, ops[b[0]].name, ops[b[1]].name); }
    warm(); Result r[4]; const char *v = values[0]; B last[2]; auto x = std::make_unique<B>(v, 16); B p(*x), q(*x);
    std::thread t([&] { doOp(a[0], p, r[0]); if (keep) last[0] = p; doOp(a[1], p, r[1]); }), u([&] { doOp(b[0], q, r[2]); if (keep) last[1] = q; doOp(b[1], q, r[3]); }); x.reset(); t.join(); u.join();
    Hide h; for (int i = 0; i < 2; ++i) { const unsigned *k = i ? b : a; B y(v, 16); Result w[2]; std::string mid; doOp(k[0], y, w[0]); mid = dump(y); doOp(k[1], y, w[1]); for (int j = 0; j < 2; ++j) verify(i ? "thread 2" : "thread 1", ops[k[j]].name, r[2 * i + j], w[j].text); if (keep) CC_CHECK(dump(last[i]) == mid, "a copy taken by thread %d became %s, it was %s", i + 1, dump(last[i]).c_str(), mid.c_str()); }
}
// ---- first uses of everything that is initialised lazily -----------------------------------------------------------------
namespace {
typedef pgbn::infixExpr::SymbolTable Table; typedef pgbn::infixExpr::Func Func; typedef pgbn::infixExpr::Value Value;
struct Use { const char *name; std::string (*f)(); };
std::string cText(pgbn_BigInteger_t *h, int r) { pgbn_String_t *s = pgbn_BigInteger_ToString(h, r); std::string t(pgbn_String_CStr(s), pgbn_String_Length(s)); pgbn_String_Destroy(s); return t; }
const Use uses[] = {
    {"toString(10)", [] { return B("-123456789abcdef0123456789", 16).toString(10); }}, {"toString(7)", [] { return B("123456789abcdef0123456789", 16).toString(7); }}, {"parse decimal", [] { bool ok; B x("123456789012345678901234567890", 10, &ok); return dump(x) + (ok ? "ok" : "no"); }}, {"failing parse", [] { bool ok; B x("12x", 10, &ok); return std::string(ok ? "ok" : "no") + pgbn::Status::getInstance()->getInfo(); }},
    {"getUInt64", [] { bool ok; B x("ffffffffffffffff", 16); const auto v = x.getUInt64(&ok); return strf("%lx %d", (unsigned long)v, ok); }}, {"getUInt64 too large", [] { bool ok; B x("10000000000000000", 16); const auto v = x.getUInt64(&ok); return strf("%lx %d ", (unsigned long)v, ok) + pgbn::Status::getInstance()->getInfo(); }}, {"getInt64 too large", [] { bool ok; B x("-8000000000000001", 16); const auto v = x.getInt64(&ok); return strf("%lx %d ", (unsigned long)v, ok) + pgbn::Status::getInstance()->getInfo(); }},
    {"eval", [] { pgbn::Status s; s = pgbn::Enum(0); return pgbn::expr::eval("(1+2)*0x10 - 7", &s).toString(10) + s.getInfo(); }}, {"eval with symbols", [] { pgbn::Status s; s = pgbn::Enum(0); return pgbn::expr::eval("twice(K)+K", &s).toString(10) + s.getInfo(); }}, {"eval of an unknown symbol", [] { pgbn::Status s; s = pgbn::Enum(0); const auto v = pgbn::expr::eval("nosuch(1)", &s); return s.getInfo(); }}, {"malformed eval", [] { pgbn::Status s; s = pgbn::Enum(0); (void)pgbn::expr::eval("1+*", &s); return s.getInfo(); }},
    {"symbol lookup", [] { const Table *t = Table::getInstance(); const auto *s = t->get("K"); const auto *n = t->get("none"); return strf("%d %d", s != nullptr, n != nullptr); }}, {"status", [] { pgbn::Status s(pgbn::Enum(6)); return s.getInfo() + pgbn::Status::getInfo(12) + pgbn::Status::getInfo(4444); }}, {"fraction", [] { Fraction f(B(6), B(-4)), g(B(1), B(3)); return (f + g).toString() + (f * g).toDecimal(6); }}, {"gcd", [] { return dump(pgbn::algo::gcd(B("123456789abcdef012", 16), B(270))); }},
    {"C: print", [] { pgbn_BigInteger_t *h = pgbn_BigInteger_CreateWithStr("-98765432109876543210", 10); pgbn_BigInteger_MulAssignWithI64(h, 12345); const std::string s = cText(h, 10); pgbn_BigInteger_Destroy(h); return s; }}, {"C: status", [] { pgbn_Status_t *s = pgbn_Status_GetGlobalInstance(); pgbn_Status_SetErrno(s, 5); return std::string(pgbn_Status_GetInfo(s)) + pgbn_Status_GetInfoByErrno(9); }}, {"C: GetUInt64", [] { pgbn_BigInteger_t *h = pgbn_BigInteger_CreateWithStr("ffffffffffffffff", 16); bool ok; const auto v = pgbn_BigInteger_GetUInt64WithChecking(h, &ok); pgbn_BigInteger_Destroy(h); return strf("%lx %d", (unsigned long)v, ok); }},
    {"divide", [] { return dump(B("123456789abcdef0123456789", 16) / B("fedcba9876543210f", 16)); }}, {"factorial and power", [] { return pgbn::expr::eval("12! + 3**40").toString(16); }},
};
enum { NUSES = sizeof uses / sizeof *uses };
void symbols() { Hide h; Func g; g.argCount = 1; g.nativeCall = [](Func::ArgType a) { Value r(a[0]); r.addAssign(a[0]); return r; }; Table::getInstance()->registe("twice", Table::Symbol(std::move(g))); Table::getInstance()->registe("K", Table::Symbol(Value(0x123456789))); }
void firstUses(int n, bool mainToo, const unsigned *from, unsigned nfrom) {
    unsigned k[3]; { Hide h; for (int i = 0; i < n; ++i) { k[i] = from ? from[choose(nfrom)] : choose(NUSES); if (i && k[i] < k[i - 1]) mcs_prune(); } for (int i = 0; i < n; ++i) CC_NOTE("%s: %s", i == 0 && mainToo ? "main" : "thread", uses[k[i]].name); }
    bool needs = false; for (int i = 0; i < n; ++i) needs |= k[i] == 8 || k[i] == 11; if (needs) symbols(); // registered by main, before the threads; otherwise the table is used for the first time too
    Result r[3]; std::vector<std::thread> t; { Hide h; t.reserve(4); }
    auto run = [&](int i) { const std::string s = uses[k[i]].f(); Hide h; r[i].text = s; };
    for (int i = mainToo ? 1 : 0; i < n; ++i) t.emplace_back([i, &run] { run(i); }); if (mainToo) run(0); for (auto &x : t) x.join();
    Hide h; for (int i = 0; i < n; ++i) verify("a thread", uses[k[i]].name, r[i], uses[k[i]].f()); mcs_state(k[0] * 100 + k[1]);
}
}
CC_SPACE("first uses by main and a thread", 1, 2) { firstUses(2, true, nullptr, 0); }
CC_SPACE("first uses by two threads", 0, 1) { firstUses(2, false, nullptr, 0); }
CC_SPACE_T("first uses by three threads", 0) { const unsigned some[] = {0, 4, 8, 12, 13, 16}; firstUses(3, false, some, 6); }
// ---- the storage itself ----------------------------------------------------------------------------------------------------
namespace {
typedef pgbn::Slice<std::uint32_t> S;
std::string text(const S &s) { std::string t; for (size_t i = 0; i < s.count(); ++i) t += strf("%u ", (unsigned)*(s.begin() + i)); return t; }
S five() { return S(std::make_shared<std::vector<std::uint32_t>>(std::vector<std::uint32_t>{1, 2, 3, 4, 5}), 1, 4); }
struct SOp { const char *name; void (*f)(S &); };
const SOp sops[] = {{"clone, write", [](S &s) { s.cloneData(); *s.begin() = 77; }}, {"clone, append", [](S &s) { s.cloneData(); s.append(9); }}, {"clone, prepend", [](S &s) { s.cloneData(); s.prepend(8); s.prepend(7); }}, {"narrow", [](S &s) { s.slice(1, 2); }}, {"clone, widen", [](S &s) { s.cloneData(); s.slice(0, 9); }}, {"copy, clone the copy", [](S &s) { S t(s); t.cloneData(); *t.begin() = 5; s = t; }}, {"drop", [](S &s) { s = S(); }}, {"clone twice", [](S &s) { s.cloneData(); { S t(s); t.cloneData(); t.append(1); } s.cloneData(); *s.begin() = 4; }}, {"read", [](S &s) { (void)text(s); }}, {"move out and in", [](S &s) { S t(std::move(s)); t.cloneData(); t.append(3); s = std::move(t); }}};
enum { NSOPS = sizeof sops / sizeof *sops };
}
CC_SPACE("windows on shared storage", 3, 99) {
    unsigned a, b, keep; { Hide h; keep = choose(2); a = choose(NSOPS); b = choose(NSOPS); if (b < a) mcs_prune(); CC_NOTE("%s / %s, original %s", sops[a].name, sops[b].name, keep ? "kept" : "dropped"); }
    auto o = std::make_unique<S>(five()); S x(*o), y(*o); if (!keep) o.reset(); std::string ra, rb;
    std::thread t([&] { sops[a].f(x); const std::string s = text(x); Hide h; ra = s; }), u([&] { sops[b].f(y); const std::string s = text(y); Hide h; rb = s; }); t.join(); u.join();
    Hide h; S p = five(), q = five(); sops[a].f(p); sops[b].f(q); CC_CHECK(ra == text(p), "thread 1: %s gives %s, alone %s", sops[a].name, ra.c_str(), text(p).c_str()); CC_CHECK(rb == text(q), "thread 2: %s gives %s, alone %s", sops[b].name, rb.c_str(), text(q).c_str()); if (keep) CC_CHECK(text(*o) == text(five()), "the original became %s", text(*o).c_str());
}
