// C29: the literal conversion hook sees every literal exactly as written and decides its value; it belongs to its thread.
#include "exprspaces.h"
#include "infixExpr/fwd.h"
#include "infixExpr/Token.h"
#include <thread>
using namespace ref;
typedef pgbn::infixExpr::SymbolTable Table; typedef pgbn::infixExpr::Func Func; typedef pgbn::infixExpr::Hooks Hooks; typedef pgbn::infixExpr::Value Value;
struct Lit { std::string text; int radix; std::string before, after; };
static std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::vector<Lit> makeLits() {
    std::vector<Lit> v; auto add = [&](std::string t, int r, std::string b, std::string a = "") { v.push_back({t, r, lower(b), lower(a)}); };
    for (const char *d : {"0", "5", "9", "10", "123456789012345678901234567890"}) { add(d, 10, d); for (const char *f : {"0", "5", "000", "25", "9999999999999999999999"}) add(std::string(d) + "." + f, 10, d, f); }
    for (const char *d : {"00", "01", "07", "012", "0777", "01234567", "000"}) add(d, 8, d + 1);
    for (const char *d : {"0", "f", "F", "1A", "00ff", "DeadBeefDeadBeefDeadBeef"}) add(std::string("0x") + d, 16, d);
    for (int r = 2; r <= 36; ++r) for (int two = 0; two < 2; ++two) { if (!two && r > 9) continue; std::string p = "0"; if (two && r < 10) p += '0'; p += std::to_string(r) + "x"; const char top = r <= 10 ? char('0' + r - 1) : char('a' + r - 11); for (std::string d : {std::string("0"), std::string("1"), std::string(1, top), std::string("10"), "1" + std::string(40, top), std::string(1, (char)std::toupper(top)) + "0"}) add(p + d, r, d); }
    add("5z", 10, "5z"); add("12x3", 10, "12x3"); add("08", 8, "8"); add("0xg", 16, "g"); add("02x2", 2, "2"); add("1.5a", 10, "1", "5a"); for (const char *f : {"A", "5Bc", "zZ9", "0Q0"}) { add(std::string("1.") + f, 10, "1", f); add(std::string("0.") + f, 10, "0", f); add(std::string("12X.") + f, 10, "12X", f); } // left to the hook; the default one rejects them (or ignores the part after the point)
    return v;
}
static const std::vector<Lit> &lits() { static const auto v = makeLits(); return v; }
static const std::vector<Lit> &few() { static const std::vector<Lit> v{{"7", 10, "7", ""}, {"0", 10, "0", ""}, {"0x1F", 16, "1f", ""}, {"017", 8, "17", ""}, {"036xZz", 36, "zz", ""}, {"3.25", 10, "3", "25"}, {"0.5", 10, "0", "5"}, {"02x101", 2, "101", ""}}; return v; }
static Z defaultValue(const Lit &l, bool &ok) { Z z = 0; ok = true; for (char c : l.before) { if (dig(c) >= l.radix) ok = false; z = z * l.radix + dig(c); } return z; }
static std::string infoOf(pgbn::Enum c) { return pgbn::Status::getInfo(c); }
static bool is(const std::string &st, pgbn::Enum c) { return st == infoOf(c); }
struct Saved { std::function<bool(Value &, int, const std::string &, const std::string &)> f = Hooks::getInstance()->literal2Value; ~Saved() { Hooks::getInstance()->literal2Value = f; } };
struct Seen { int radix; std::string before, after; bool zero; };
static std::vector<Seen> got; static unsigned calls = 0;
static Z valueOf(unsigned i) { return i % 3 == 0 ? Z(100 + i) : i % 3 == 1 ? Z(-Z(7 + i)) : Z(zpow2(70) + i); }
static std::vector<Z> valuesAre; static int failAt = -1; // the values the hook gives, in order
static bool recording(Value &v, int radix, const std::string &b, const std::string &a) { const unsigned i = got.size(); got.push_back({radix, b, a, v.isZero()}); if ((int)i == failAt) return false; v = implOf(i < valuesAre.size() ? valuesAre[i] : Z(0)); return true; }
static void setup() { static bool once = false; if (once) return; once = true; Func f; f.argCount = -1; f.nativeCall = [](Func::ArgType a) { ++calls; Z r = 1; for (auto &x : a) r = r * 3 + zOf(x); return implOf(r); }; Table::getInstance()->registe("hookF", Table::Symbol(std::move(f))); Table::getInstance()->registe("hookK", Table::Symbol(implOf(zpow2(66)))); }
// a sentence over its literals and its value given theirs
struct Shape { unsigned n; std::string (*text)(const std::vector<std::string> &); Z (*value)(const std::vector<Z> &); };
typedef const std::vector<std::string> &T; typedef const std::vector<Z> &V;
static const Shape shapes[] = {
    {1, [](T t) { return t[0]; }, [](V v) { return v[0]; }}, {1, [](T t) { return "-" + t[0]; }, [](V v) { return Z(-v[0]); }}, {1, [](T t) { return "hookF(" + t[0] + ")"; }, [](V v) { return Z(3 + v[0]); }},
    {2, [](T t) { return t[0] + "+" + t[1]; }, [](V v) { return Z(v[0] + v[1]); }}, {2, [](T t) { return t[0] + " - " + t[1] + "*hookK"; }, [](V v) { return Z(v[0] - v[1] * zpow2(66)); }}, {2, [](T t) { return "(" + t[0] + ")*" + t[1]; }, [](V v) { return Z(v[0] * v[1]); }},
    {2, [](T t) { return "hookF(" + t[0] + "," + t[1] + ")"; }, [](V v) { return Z((3 + v[0]) * 3 + v[1]); }}, {3, [](T t) { return t[0] + " ? " + t[1] + " : " + t[2]; }, [](V v) { return v[0] != 0 ? v[1] : v[2]; }}, {3, [](T t) { return t[0] + "+" + t[1] + "*" + t[2]; }, [](V v) { return Z(v[0] + v[1] * v[2]); }},
    {3, [](T t) { return "hookF(" + t[0] + ", hookF(" + t[1] + "), " + t[2] + ")"; }, [](V v) { return Z(((3 + v[0]) * 3 + 3 + v[1]) * 3 + v[2]); }}};
static BigInteger run(const std::string &s, unsigned mode, std::string &info) { mc::step(); pgbn::Status st; st = pgbn::ErrCode::SUCCESS; *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; BigInteger r = mode == 0 ? pgbn::expr::eval(s, &st) : mode == 1 ? pgbn::expr::peval(s, 2, &st) : pgbn::expr::eval(s); info = mode == 2 ? pgbn::Status::getInstance()->getInfo() : st.getInfo(); return r; }
static void expectSeen(const std::string &s, const std::vector<Lit> &want, size_t n) {
    MC_CHECK(got.size() == n, "%s: the hook ran %zu times, expected %zu", quoteS(s).c_str(), got.size(), n);
    for (size_t i = 0; i < n; ++i) { MC_CHECK(got[i].radix == want[i].radix && got[i].before == want[i].before && got[i].after == want[i].after, "%s: literal %zu reached the hook as radix %d \"%s\" . \"%s\", expected %d \"%s\" . \"%s\"", quoteS(s).c_str(), i, got[i].radix, got[i].before.c_str(), got[i].after.c_str(), want[i].radix, want[i].before.c_str(), want[i].after.c_str()); MC_CHECK(got[i].zero, "%s: the value given to the hook for literal %zu is not zero", quoteS(s).c_str(), i); }
}
static void sentence(const Shape &sh, const std::vector<Lit> &l, int fail, unsigned mode, unsigned policy = 0) { // policy 0: unrelated values, 1: the literal's own value, 2: the same value for every literal
    std::vector<std::string> t; valuesAre.clear(); for (unsigned i = 0; i < sh.n; ++i) { t.push_back(l[i].text); bool ok; valuesAre.push_back(policy == 0 ? valueOf(i + (unsigned)l[i].text.size()) : policy == 1 ? defaultValue(l[i], ok) : Z(l[0].before.size() + 4)); } const std::string s = sh.text(t); failAt = fail; got.clear(); calls = 0; MC_NOTE("%s, hook refuses literal %d, mode %u", s.c_str(), fail, mode);
    Saved keep; Hooks::getInstance()->literal2Value = recording; std::string st; const BigInteger x = run(s, mode, st); mc::state(mc::hashStr(s, fail + 2));
    expectSeen(s, l, fail < 0 ? sh.n : fail + 1);
    if (fail < 0) { MC_CHECK(is(st, pgbn::ErrCode::SUCCESS), "%s is well-formed but set status \"%s\"", quoteS(s).c_str(), st.c_str()); const Z w = sh.value(valuesAre); MC_CHECK(eq(x, w), "%s is %s, expected %s from the hook's values", quoteS(s).c_str(), show(x).c_str(), brief(w).c_str()); }
    else { MC_CHECK(!is(st, pgbn::ErrCode::SUCCESS), "%s: refused literal %d gives status \"%s\"", quoteS(s).c_str(), fail, st.c_str()); MC_CHECK(calls == 0, "%s: a function was called although a literal was refused", quoteS(s).c_str()); }
}
MC_SPACE("every kind of literal reaches the hook as written", 1) { setup(); const Lit &l = mc::pick(lits()); sentence(shapes[mc::choose(3)], {l}, (int)mc::choose(2) - 1, mc::choose(3)); }
MC_SPACE("every shape, literals, refused literal and entry point", 3) {
    setup(); const Shape &sh = shapes[mc::choose(10)]; std::vector<Lit> l; for (unsigned i = 0; i < sh.n; ++i) l.push_back(mc::pick(few())); const int fail = (int)mc::choose(sh.n + 1) - 1; const unsigned mode = mc::choose(3); sentence(sh, l, fail, mode, mc::choose(3));
}
MC_SPACE("the default conversion of every kind of literal", 1) {
    setup(); const Lit &l = mc::pick(lits()); const unsigned mode = mc::choose(3), w = mc::choose(3); bool ok; const Z z = defaultValue(l, ok); const std::string s = w == 0 ? l.text : w == 1 ? "1+" + l.text : "hookF(" + l.text + ")"; calls = 0; std::string st; const BigInteger x = run(s, mode, st); MC_NOTE("%s", s.c_str());
    if (ok) MC_CHECK(eq(x, w == 0 ? z : w == 1 ? Z(z + 1) : Z(z + 3)) && is(st, pgbn::ErrCode::SUCCESS), "%s is %s", s.c_str(), show(x).c_str()); else MC_CHECK(!is(st, pgbn::ErrCode::SUCCESS) && calls == 0, "%s has an invalid literal but gives status \"%s\"", s.c_str(), st.c_str());
}
MC_SPACE("every history of hooks", 2) { // 0 default, 1 recording, 2 none, 3 refusing; each takes effect at once, for literals only
    setup(); Saved keep; const auto initial = keep.f; unsigned cur = 0; const unsigned D = mc::tier() ? 6 : 5;
    for (unsigned d = 0; d < D; ++d) {
        const unsigned op = mc::choose(6); auto &h = Hooks::getInstance()->literal2Value;
        if (op < 4) { cur = op; MC_NOTE("hook %u", op); if (op == 0) h = initial; else if (op == 1) h = recording; else if (op == 2) h = nullptr; else h = [](Value &v, int, const std::string &, const std::string &) { v = Value(5); return false; }; }
        else if (op == 4) { MC_NOTE("another thread installs a hook of its own"); bool sawOther = false; std::thread([&] { bool ok = true; pgbn::Status st; st = pgbn::ErrCode::SUCCESS; sawOther = !eq(pgbn::expr::eval(std::string("6*7"), &st), Z(42)) || !is(st.getInfo(), pgbn::ErrCode::SUCCESS); Hooks::getInstance()->literal2Value = [](Value &v, int, const std::string &, const std::string &) { v = Value(9); return true; }; ok = eq(pgbn::expr::eval(std::string("1+1")), Z(18)); sawOther |= !ok; }).join(); MC_CHECK(!sawOther, "a new thread does not start with the default hook or does not use its own"); }
        else MC_NOTE("evaluate");
        failAt = -1; got.clear(); valuesAre = {Z(3), Z(-4)}; std::string st; const BigInteger x = run("20 + 0x10", d % 3, st); mc::state(mc::mix(cur, d));
        if (cur < 2) { const Z w = cur == 0 ? Z(36) : Z(-1); MC_CHECK(is(st, pgbn::ErrCode::SUCCESS) && eq(x, w), "with hook %u, 20 + 0x10 is %s (status %s)", cur, show(x).c_str(), st.c_str()); MC_CHECK(got.size() == (cur ? 2 : 0), "the hook ran %zu times", got.size()); }
        else MC_CHECK(!is(st, pgbn::ErrCode::SUCCESS), "with %s hook the status is %s", cur == 2 ? "no" : "a refusing", st.c_str());
        const BigInteger k = run("hookK - hookK + hookF()", d % 3, st); MC_CHECK(is(st, pgbn::ErrCode::SUCCESS) && eq(k, Z(1)), "an expression without literals is affected by the hook: %s", show(k).c_str());
    }
}
MC_MAIN()
