// C14: peval equals eval under every schedule. The real parser, thread pool, per-node promises and big-integer operations run under the
// explorer; eval's outcome in the same execution (and a hand-written expectation) is the oracle.
#include "conc.h"
#include "BigInteger.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include "infixExpr/Token.h"
#include <algorithm>
#include <stdexcept>
#include <vector>
using namespace conc;
CC_REDUCE();
namespace {
typedef pgbn::infixExpr::SymbolTable Table; typedef pgbn::infixExpr::Func Func; typedef Func::ArgType Args; typedef pgbn::infixExpr::Value Value;
struct Boom : std::runtime_error { int n; explicit Boom(int k) : std::runtime_error("boom"), n(k) {} };
std::vector<std::string> *called;
void log(const char *name, Args a) { Hide h; std::string s = name; for (auto &v : a) s += " " + v.toString(16); called->push_back(s); }
void def(const char *name, int argc, Value (*f)(Args), bool record = true) { Func g; g.argCount = argc; g.nativeCall = [name, f, record](Args a) { if (record) log(name, a); return f(a); }; Table::getInstance()->registe(name, Table::Symbol(std::move(g))); }
void constant(const char *name, const char *hex) { const std::string s(hex); std::string bin; for (size_t i = s.size(); i; i = i > 2 ? i - 2 : 0) bin += (char)std::stoi(s.substr(i > 2 ? i - 2 : 0, i > 2 ? 2 : i), nullptr, 16); bin += (char)0; Value v; v.assign(bin.data(), bin.size()); Table::getInstance()->registe(name, Table::Symbol(std::move(v))); }
struct Outcome { std::string text; std::vector<std::string> calls; bool threw; };
template <class F> Outcome outcome(F f) {
    std::vector<std::string> calls; { Hide h; called = &calls; }
    Outcome o; o.threw = false; std::string v; int boom = -1; std::string what; bool other = false, done = false;
    try { auto r = f(); done = true; Hide h; v = r.toString(16); } catch (const Boom &b) { boom = b.n; } catch (const std::exception &e) { Hide h; other = true; what = e.what(); } catch (const int &i) { boom = -2 - i; }
    Hide h; o.text = done ? v : boom != -1 ? strf("exception Boom %d", boom) : "exception " + what; o.threw = !done; (void)other; o.calls = calls; std::sort(o.calls.begin(), o.calls.end()); return o;
}
void prepare() {
    def("f", -1, [](Args a) { Value r(1); for (auto &v : a) { r.mulAssign(Value(10)); r.addAssign(v); } return r; });
    def("id", 1, [](Args a) { return a[0]; }); def("boom", -1, [](Args) -> Value { throw Boom(1); }); def("bang", -1, [](Args) -> Value { throw Boom(2); }); def("seven", 0, [](Args) { return Value(7); });
    def("thrower", 0, [](Args) -> Value { throw 5; });
    def("yielding", 1, [](Args a) { mcs_yield(); return a[0]; });
    constant("K", "ffffffffffffffffffffffff"); constant("one", "1");
}
void run(const char *s, int threads, const char *want) {
    Outcome a, b; std::string infoA, infoB;
    { Hide h; prepare(); pgbn::Status st; st = pgbn::ErrCode::SUCCESS; a = outcome([&] { return pgbn::expr::eval(std::string(s), &st); }); infoA = st.getInfo(); CC_NOTE("%s with %d threads; eval gives %s", s, threads, a.text.c_str()); }
    pgbn::Status st; st = pgbn::ErrCode::SUCCESS; b = outcome([&] { return pgbn::expr::peval(std::string(s), threads, &st); });
    Hide h; infoB = st.getInfo(); mcs_state(std::hash<std::string>()(b.text));
    CC_CHECK(a.text == want, "eval(%s) is %s, expected %s", s, a.text.c_str(), want);
    CC_CHECK(b.text == a.text, "peval(%s) is %s, eval gives %s", s, b.text.c_str(), a.text.c_str());
    CC_CHECK(infoA == infoB, "peval(%s) sets status %s, eval %s", s, infoB.c_str(), infoA.c_str());
    if (!a.threw) { std::string x, y; for (auto &c : a.calls) x += c + "; "; for (auto &c : b.calls) y += c + "; "; CC_CHECK(x == y, "peval(%s) calls %s eval calls %s", s, y.c_str(), x.c_str()); }
    else for (auto &c : a.calls) CC_CHECK(std::count(b.calls.begin(), b.calls.end(), c) >= std::count(a.calls.begin(), a.calls.end(), c), "peval(%s) does not call %s", s, c.c_str());
}
struct Case { const char *s, *want; };
const Case tiny[] = {{"5", "5"}, {"K", "ffffffffffffffffffffffff"}, {"boom()", "exception Boom 1"}, {"-5", "-5"}, {"seven()", "7"}, {"id(9)", "9"}, {"id(boom())", "exception Boom 1"}};
const Case small[] = {{"1+2", "3"}, {"K+K", "1fffffffffffffffffffffffe"}, {"K-K", "0"}, {"1+boom()", "exception Boom 1"}, {"boom()+bang()", "exception Boom 1"}, {"bang()-K", "exception Boom 2"}, {"f(1,2)", "70"}, {"one ? K : boom()", "ffffffffffffffffffffffff"}, {"0 ? boom() : 4", "4"}, {"boom() ? 1 : 2", "exception Boom 1"}, {"1 ? bang() : 2", "exception Boom 2"},
    {"thrower()+1", "exception Boom -7"}, {"2<<3", "10"}, {"7/2", "3"}, {"2**3", "8"}, {"3!", "6"}, {"seven()==7", "1"}};
const Case medium[] = {{"(1+2)*(3-5)", "-6"}, {"K*K-K", "fffffffffffffffffffffffd000000000000000000000002"}, {"f(seven(),id(3))+1", "ae"}, {"1+(0 ? boom() : id(4))*2", "9"}, {"(boom()+1)*(bang()+2)", "exception Boom 1"}, {"f(1,boom(),bang())", "exception Boom 1"}, {"(1 ? 0 : boom()) ? bang() : seven()", "7"}, {"yielding(1)+yielding(2)+yielding(3)", "6"}, {"-(-(-(1)))", "-1"}, {"f()+f(f())", "c"}, {"K&K|K^K", "ffffffffffffffffffffffff"}, {"1+2+3+4", "a"}};
const Case conditions[] = {{"seven() ? 1 : 2", "1"}, {"id(0) ? 1 : id(2)", "2"}, {"id(K) ? seven() : boom()", "7"}, {"(id(1) ? id(0) : 1) ? 3 : seven()", "7"}, {"(id(2) > one) ? id(4) : 5", "4"}, {"f(id(1) ? 2 : 3, 4)", "7c"}, {"id(one) + (id(0) ? 1 : seven())", "8"}};
const Case operators[] = {{"5-7", "-2"}, {"K*3", "2fffffffffffffffffffffffd"}, {"-7/2", "-3"}, {"-7%2", "-1"}, {"K<<5", "1fffffffffffffffffffffffe0"}, {"K>>64", "ffffffff"}, {"-1>>3", "-1"}, {"12&10", "8"}, {"12|3", "f"}, {"12^10", "6"}, {"~5", "-6"}, {"3<4", "1"}, {"3>4", "0"}, {"4<=4", "1"}, {"3>=4", "0"}, {"3==4", "0"}, {"3!=4", "1"}, {"5!", "78"}, {"3**4", "51"}, {"1<2==1", "1"}, {"+5", "5"}};
std::string chain(unsigned n) { std::string e = "1"; for (unsigned i = 1; i < n; ++i) e += i % 2 ? "+1" : "-2"; return e; }
template <int N> void all(const Case (&cs)[N], std::vector<int> threads) { unsigned i, t; { Hide h; i = choose(N); t = choose((unsigned)threads.size()); } run(cs[i].s, threads[t], cs[i].want); }
}
CC_SPACE("one-node and two-node expressions, 1 and 2 threads", 2, 3) { all(tiny, {1, 2}); }
CC_SPACE("one-node and two-node expressions, 3 threads", 0, 1) { all(tiny, {3}); }
CC_SPACE("expressions of up to three tasks, 1 and 2 threads", 1, 2) { all(small, {1, 2}); }
CC_SPACE("expressions of up to three tasks, 3 threads", 0, 1) { all(small, {3}); }
CC_SPACE("larger expressions, 1 and 2 threads", 0, 1) { all(medium, {1, 2}); }
CC_SPACE_SPURIOUS("spurious wake-ups, 1 and 2 threads", 0, 1, 1, 2) { const Case c[] = {{"1+2", "3"}, {"id(K)", "ffffffffffffffffffffffff"}}; all(c, {1, 2}); }
CC_SPACE_T("larger expressions, 3 threads", 0) { all(medium, {3}); }
CC_SPACE("calls inside conditions, 1 and 2 threads", 0, 1) { all(conditions, {1, 2}); }
CC_SPACE("every operator, 1 and 2 threads", 0, 1) { all(operators, {1, 2}); }
CC_SPACE("many tasks, 1 thread", 0, 0) { unsigned n, t; { Hide h; const unsigned N[] = {15, 16, 17, 18, 31, 32, 33, 34}; n = N[choose(8)]; t = 1; } const int v = 1 + int(n / 2) - 2 * int((n - 1) / 2); char want[16]; std::snprintf(want, sizeof want, v < 0 ? "-%x" : "%x", v < 0 ? -v : v); run(chain(n).c_str(), t, want); }
