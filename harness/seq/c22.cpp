// C22: division by zero is always reported and never corrupts; division by anything else never reports it.
#include "bn.h"
#include "Fraction.h"
#include "expr.h"
#include "pgbn.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace bn;
using pgbn::experimental::Fraction;
static unsigned reports;
static void arm() { reports = 0; pgbn::Status::registe(pgbn::ErrCode::DIVBY0, "div by zero", [] { ++reports; }); *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; }
// a number whose value is unspecified still has to be a number: consistent with itself and reusable
static void usable(BigInteger &x, const char *what) {
    const Z z = readExport(x); MC_CHECK(x.toString(16) == zhex(z), "%s: toString(16) is %s, the exported value %s", what, show(x).c_str(), brief(z).c_str());
    BigInteger c(x); c += 1; MC_CHECK(eq(c, Z(z + 1)), "%s + 1 is %s", what, show(c).c_str()); c = x; c *= c; MC_CHECK(eq(c, Z(z * z)), "%s squared is %s", what, show(c).c_str()); c = x - x; MC_CHECK(eq(c, Z(0)) && c.isZero(), "%s - itself is %s", what, show(c).c_str()); MC_CHECK(x == x && (x.isZero() + x.isPositive() + x.isNegative()) == 1 && x.isZero() == (z == 0) && x.isNegative() == (z < 0), "%s: predicates", what);
    c = x; c <<= 40; MC_CHECK(eq(c, Z(z << 40)), "%s << 40", what); c = x; c /= 3; MC_CHECK(eq(c, Z(z / 3)), "%s / 3", what); x = std::int64_t(-5); MC_CHECK(eq(x, Z(-5)), "assigning to %s gives %s", what, show(x).c_str()); x %= 3; MC_CHECK(eq(x, Z(-2)), "%s computes after an assignment: %s", what, show(x).c_str());
}
// ways of getting zero
constexpr unsigned NZEROWAYS = 13;
static BigInteger zero(unsigned w) {
    switch (w) {
    case 0: return BigInteger(); case 1: return BigInteger(std::int64_t(0)); case 2: return BigInteger("-000", 10); case 3: return BigInteger(0, "", true); case 4: return BigInteger(5, "\0\0\0\0\0", false);
    case 5: { BigInteger x("123456789012345678901234567890"); return x - x; } case 6: { BigInteger x("ffffffffffffffff", 16); x >>= 64; return x; } case 7: { BigInteger x("-ffffffffffffffff", 16); x *= 0; return x; } case 8: { BigInteger x("100000000000000000", 16); x %= BigInteger("10000000000000000", 16); return x; }
    case 9: { BigInteger x(std::int64_t(7)); x /= BigInteger("100000000000000000", 16); return x; } case 10: { BigInteger x(std::int64_t(-1)); x.notSelf(); return x; } case 11: { BigInteger x("ff", 16); x.notBits(); return x; } case 12: { BigInteger x("-1", 10); ++x; BigInteger y(x); y += 1; return x; }
    }
    return BigInteger();
}
struct Entry { const char *name; void (*run)(BigInteger &x, const BigInteger &z, BigInteger &out); bool native; bool changesX; };
static const std::vector<Entry> &entries() {
    static const std::vector<Entry> v{
        {"x / z", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = x / z; }, false, false}, {"x % z", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = x % z; }, false, false},
        {"x /= z", [](BigInteger &x, const BigInteger &z, BigInteger &) { x /= z; }, false, true}, {"x %= z", [](BigInteger &x, const BigInteger &z, BigInteger &) { x %= z; }, false, true},
        {"x / 0", [](BigInteger &x, const BigInteger &, BigInteger &o) { o = x / 0; }, true, false}, {"x % 0", [](BigInteger &x, const BigInteger &, BigInteger &o) { o = x % 0; }, true, false},
        {"x /= 0", [](BigInteger &x, const BigInteger &, BigInteger &) { x /= 0; }, true, true}, {"x %= 0", [](BigInteger &x, const BigInteger &, BigInteger &) { x %= 0; }, true, true},
        {"5 / z", [](BigInteger &, const BigInteger &z, BigInteger &o) { o = std::int64_t(5) / z; }, false, false}, {"INT64_MIN % z", [](BigInteger &, const BigInteger &z, BigInteger &o) { o = INT64_MIN % z; }, false, false},
        {"divideAssignAndReminder", [](BigInteger &x, const BigInteger &z, BigInteger &o) { auto i = std::make_unique<BigIntegerImpl>(x.toString(16), 16); BigIntegerImpl d(z.toString(16), 16), r; i->divideAssignAndReminder(d, r); o = BigInteger(std::move(i)); }, false, false},
        {"divideAssignAndReminder(0)", [](BigInteger &x, const BigInteger &, BigInteger &o) { auto i = std::make_unique<BigIntegerImpl>(x.toString(16), 16); BigIntegerImpl r; i->divideAssignAndReminder(0, r); o = BigInteger(std::move(i)); }, true, false},
        {"modAssignAndQuotient", [](BigInteger &x, const BigInteger &z, BigInteger &o) { auto i = std::make_unique<BigIntegerImpl>(x.toString(16), 16); BigIntegerImpl d(z.toString(16), 16), q; i->modAssignAndQuotient(d, q); o = BigInteger(std::make_unique<BigIntegerImpl>(q)); }, false, false},
        {"modAssignAndQuotient(0)", [](BigInteger &x, const BigInteger &, BigInteger &o) { auto i = std::make_unique<BigIntegerImpl>(x.toString(16), 16); BigIntegerImpl q; i->modAssignAndQuotient(0, q); o = BigInteger(std::make_unique<BigIntegerImpl>(q)); }, true, false},
        {"BigIntegerImpl::div", [](BigInteger &x, const BigInteger &z, BigInteger &o) { BigIntegerImpl a(x.toString(16), 16), d(z.toString(16), 16), r; auto q = std::make_unique<BigIntegerImpl>(); BigIntegerImpl::div(*q, r, a, d); o = BigInteger(std::move(q)); }, false, false},
        {"BigIntegerImpl::div(0)", [](BigInteger &x, const BigInteger &, BigInteger &o) { BigIntegerImpl a(x.toString(16), 16), r; auto q = std::make_unique<BigIntegerImpl>(); BigIntegerImpl::div(*q, r, a, std::int64_t(0)); o = BigInteger(std::move(q)); }, true, false},
        {"C DivAssign, ModAssign", [](BigInteger &x, const BigInteger &z, BigInteger &) { auto *a = pgbn_BigInteger_CreateWithStr(x.toString(10).c_str(), 10), *b = pgbn_BigInteger_CreateWithStr(z.toString(10).c_str(), 10); const unsigned n = reports; pgbn_BigInteger_DivAssign(a, b); const bool first = reports > n; const bool zb = pgbn_BigInteger_IsZero(b); pgbn_BigInteger_AssignWithI64(a, 9); pgbn_BigInteger_ModAssign(a, b); const bool second = reports > n + first; pgbn_BigInteger_Destroy(a); pgbn_BigInteger_Destroy(b); MC_CHECK(!zb || (first && second), "DivAssign reported %d, ModAssign %d", first, second); }, false, false},
        {"C DivAssignWithI64(0), ModAssignWithI64(0)", [](BigInteger &x, const BigInteger &, BigInteger &) { auto *a = pgbn_BigInteger_CreateWithStr(x.toString(10).c_str(), 10); const unsigned n = reports; pgbn_BigInteger_DivAssignWithI64(a, 0); const unsigned m = reports; pgbn_BigInteger_AssignWithI64(a, 9); pgbn_BigInteger_ModAssignWithI64(a, 0); const unsigned k = reports; pgbn_BigInteger_Destroy(a); MC_CHECK(m > n && k > m, "DivAssignWithI64 reported %u, ModAssignWithI64 %u", m - n, k - m); }, true, false},
        {"eval(x / z)", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = pgbn::expr::eval(x.toString() + "/(" + z.toString() + ")"); }, false, false}, {"eval(x % z)", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = pgbn::expr::eval(x.toString() + "%(" + z.toString() + ")"); }, false, false},
        {"eval in a branch", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = pgbn::expr::eval("1 ? 3 + " + x.toString() + " % (" + z.toString() + ") : 5"); }, false, false}, {"peval(x / z, 0)", [](BigInteger &x, const BigInteger &z, BigInteger &o) { o = pgbn::expr::peval("(" + x.toString() + ")/(" + z.toString() + ")", 0); }, false, false},
        {"Fraction(x, z)", [](BigInteger &x, const BigInteger &z, BigInteger &) { bool ok = true; Fraction f(x, z, &ok); MC_CHECK(ok == !z.isZero(), "ok is %d", ok); }, false, false}, {"Fraction::setDen(z)", [](BigInteger &x, const BigInteger &z, BigInteger &) { Fraction f(x); bool ok = true; f.setDen(z, &ok); MC_CHECK(ok == !z.isZero(), "ok is %d", ok); MC_CHECK(f.getDen() != 0, "zero denominator"); }, false, false},
        {"Fraction / Fraction(z)", [](BigInteger &x, const BigInteger &z, BigInteger &) { Fraction f(x), g(z); (void)(f / g); }, false, false}, {"Fraction(z).reciprocal()", [](BigInteger &, const BigInteger &z, BigInteger &) { Fraction g(z); bool ok = true; Fraction h = g.reciprocal(&ok); MC_CHECK(ok == !z.isZero() && h.getDen() != 0, "reciprocal: ok %d", ok); }, false, false}};
    return v;
}
static void run(const Val &v, unsigned p, BigInteger &z, const Z &zv, const Entry &e) {
    Keep k; BigInteger x(make(v, p, k)); const BigInteger sharer(x), zs(z); BigInteger out(std::int64_t(3)), bystander(parse(v)); const bool expect = e.native || zv == 0; arm();
    MC_NOTE("%s with x = %s (%s), z = %s", e.name, brief(v.z).c_str(), provName(p), brief(zv).c_str()); mc::step(); mc::state(mc::mix(v.h, mc::mix(zhash(zv), p)));
    e.run(x, z, out); const unsigned n = reports;
    if (expect) MC_CHECK(n >= 1, "%s: divide-by-zero was not reported", e.name); else MC_CHECK(n == 0, "%s: divide-by-zero was reported for a divisor of %s", e.name, brief(zv).c_str());
    MC_CHECK(eq(z, zv) && eq(zs, zv), "%s changed the divisor to %s", e.name, show(z).c_str()); MC_CHECK(eq(sharer, v.z) && eq(bystander, v.z), "%s changed a copy of the dividend to %s", e.name, show(sharer).c_str()); if (!e.changesX) MC_CHECK(eq(x, v.z), "%s changed its dividend to %s", e.name, show(x).c_str());
    checkKeep(k); usable(out, "the result"); usable(x, "the dividend"); usable(z, "the divisor"); { BigInteger q(parse(Z(v.z * 6 + (v.z < 0 ? -1 : 1)))); reports = 0; q /= 6; MC_CHECK(eq(q, v.z) && reports == 0, "a division afterwards gives %s", show(q).c_str()); }
}
// the report nobody has replaced: a message about the division and the end of the process, seen from outside a forked child
static const std::tuple<std::string, pgbn::Callback> &builtinReport() { static const std::tuple<std::string, pgbn::Callback> t = [] { std::tuple<std::string, pgbn::Callback> *p = nullptr; if (!pgbn::Status::find(pgbn::ErrCode::DIVBY0, &p)) std::_Exit(96); return *p; }(); return t; }
static const bool builtinKept = (builtinReport(), true);
MC_SPACE("the built-in report ends the process", 1) {
    const Entry &e = mc::pick(entries()); const unsigned w = mc::choose(3); static const std::vector<Val> X{Val(Z(0)), Val(Z(-7)), Val(bigK())}; const Val &v = mc::pick(X); if (e.native && w) mc::prune();
    MC_NOTE("%s with x = %s, built-in report", e.name, brief(v.z).c_str()); mc::step(); mc::state(mc::mix(v.h, mc::hashStr(e.name) + w)); int fd[2]; if (pipe(fd)) std::_Exit(96);
    const pid_t pid = fork();
    if (!pid) {
        dup2(fd[1], 2); std::tuple<std::string, pgbn::Callback> *p = nullptr; pgbn::Status::find(pgbn::ErrCode::DIVBY0, &p); *p = builtinReport(); alarm(30);
        BigInteger x(parse(v)), z(zero(w)), o; e.run(x, z, o); _exit(0);
    }
    close(fd[1]); std::string err; char b[512]; for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) err.append(b, n); close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == pgbn::ErrCode::DIVBY0, "%s: the process %s %d, expected it to end with exit code 1", e.name, WIFEXITED(st) ? "ended with exit code" : "died by signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    MC_CHECK(err.find("Divide By Zero") != std::string::npos, "%s: the message is \"%s\"", e.name, err.c_str());
}
MC_SPACE("every entry point, dividend and way of making zero", 2) { const Val &v = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV), w = mc::choose(NZEROWAYS); const Entry &e = mc::pick(entries()); if (e.native && w) mc::prune(); BigInteger z(zero(w)); if (mc::choose(2)) query(z); run(v, p, z, Z(0), e); }
MC_SPACE("every entry point with a non-zero divisor", 2) { const Val &v = mc::pick(coreVals()), &d = mc::pick(coreVals()); if (d.z == 0) mc::prune(); const unsigned p = mc::choose(mc::tier() ? NPROV : 3), p2 = mc::choose(mc::tier() ? NPROV : 4); const Entry &e = mc::pick(entries()); if (e.native) mc::prune(); Keep k; BigInteger z(make(d, p2, k)); run(v, p, z, d.z, e); checkKeep(k); }
MC_SPACE("x / x and x % x for zero x", 1) { const unsigned w = mc::choose(NZEROWAYS), o = mc::choose(4); BigInteger x(zero(w)); const BigInteger s(x); arm(); mc::step(); if (o == 0) x /= x; else if (o == 1) x %= x; else if (o == 2) (void)(x / x); else (void)(x % x); MC_CHECK(reports >= 1, "0 / 0 was not reported"); MC_CHECK(eq(s, Z(0)), "a copy changed"); usable(x, "the number divided by itself"); }
MC_SPACE("native divisors", 1) { const Val &v = mc::pick(coreVals()); const std::int64_t d = mc::pick(natives()); const unsigned o = mc::choose(4); BigInteger x(parse(v)); const BigInteger s(x); arm(); mc::step(); MC_NOTE("%s by %" PRId64 " op %u", brief(v.z).c_str(), d, o); if (o == 0) x /= d; else if (o == 1) x %= d; else if (o == 2) (void)(x / d); else (void)(x % d); MC_CHECK((reports >= 1) == (d == 0), "division by %" PRId64 ": %u reports", d, reports); MC_CHECK(eq(s, v.z), "a copy changed"); usable(x, "the dividend"); }
MC_SPACE("native dividends", 1) { const std::int64_t n = mc::pick(natives()); const unsigned w = mc::choose(NZEROWAYS), o = mc::choose(2); BigInteger z(zero(w)), r; arm(); mc::step(); if (o) r = n / z; else r = n % z; MC_CHECK(reports >= 1, "%" PRId64 " by zero was not reported", n); usable(r, "the result"); usable(z, "the divisor"); }
MC_SPACE("repeated divisions by zero in a history", 1) { // zero divisions interleaved with other work on two numbers
    BigInteger a(parse(bigK())), b(a); Z za = bigK(), zb = za; arm(); unsigned expect = 0;
    for (unsigned d = 0; d < (mc::tier() ? 6u : 4u); ++d) { const unsigned before = reports; switch (mc::choose(10)) {
        case 0: (void)(a / 0); ++expect; break; case 1: (void)(b % (a - a)); ++expect; break; case 2: a += b; za += zb; break; case 3: b = a; zb = za; break; case 4: b -= a; zb -= za; break; case 5: a /= 0; ++expect; za = readExport(a); break; case 6: a.negate(); za = -za; break;
        case 7: if (zb == 0) { a %= b; ++expect; za = readExport(a); } else { a %= b; za %= zb; } break; case 8: a = std::int64_t(12345); za = 12345; break; case 9: a *= 3; za *= 3; break; }
        mc::step(); MC_CHECK((reports > before) == (expect > 0), "reports: %u", reports - before); expect = 0; MC_CHECK(eq(a, za) && eq(b, zb), "a is %s (expected %s), b is %s (expected %s)", show(a).c_str(), brief(za).c_str(), show(b).c_str(), brief(zb).c_str()); }
    usable(a, "a"); MC_CHECK(eq(b, zb), "b changed"); usable(b, "b");
}
MC_MAIN()
