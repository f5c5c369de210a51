// C25: registered constants and functions are found under exactly their name and called exactly as written.
#include "exprspaces.h"
#include <mutex>
using namespace ref;
typedef pgbn::infixExpr::SymbolTable Table; typedef pgbn::infixExpr::Func Func; typedef Func::ArgType Args;
// every call of a registered function, from whichever thread
static std::mutex logLock; static std::vector<Call> logged;
static void put(const std::string &name, int argc, std::function<Z(const std::vector<Z> &)> f, int tag = 0) {
    Func g; g.argCount = argc; const std::string id = name + "#" + std::to_string(tag);
    g.nativeCall = [id, f](Args a) { Call c{id, {}}; for (auto &x : a) c.args.push_back(zOf(x)); { std::lock_guard<std::mutex> l(logLock); logged.push_back(c); } return implOf(f(c.args)); };
    Table::getInstance()->registe(name, Table::Symbol(std::move(g)));
}
static void putConst(const std::string &name, const Z &z) { Table::getInstance()->registe(name, Table::Symbol(implOf(z))); }
static std::string okInfo() { return pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS); }
// evaluates s and compares value, status and calls with the reference
static void expectEval(const std::string &s, const Env &env, const std::map<std::string, int> &tags, int mode) {
    Result r = evaluate(env, s); if (r.v == UNSPEC) mc::prune();
    for (Call &c : r.calls) { auto t = tags.find(c.name); c.name += "#" + std::to_string(t == tags.end() ? 0 : t->second); }
    if (r.v == MALFORMED) r.calls.clear();
    logged.clear(); pgbn::Status st; st = pgbn::ErrCode::SUCCESS; *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; mc::step();
    BigInteger x; std::string info;
    switch (mode) { case 0: x = pgbn::expr::eval(s, &st); info = st.getInfo(); break; case 1: x = pgbn::expr::eval(s); info = pgbn::Status::getInstance()->getInfo(); break; case 2: x = pgbn::expr::peval(s, 2, &st); info = st.getInfo(); break; case 3: x = pgbn::expr::peval(s, 0, &st); info = st.getInfo(); break; }
    auto calls = logged, want = r.calls; std::sort(calls.begin(), calls.end()); std::sort(want.begin(), want.end());
    if (r.v == VALUE) { MC_CHECK(info == okInfo(), "%s is well-formed but set status \"%s\"", quoteS(s).c_str(), info.c_str()); MC_CHECK(eq(x, r.z), "%s is %s, expected %s", quoteS(s).c_str(), show(x).c_str(), brief(r.z).c_str()); }
    else MC_CHECK(info != okInfo(), "%s must be reported, but the status is success (value %s)", quoteS(s).c_str(), show(x).c_str());
    MC_CHECK(calls == want, "%s: %zu calls, expected %zu%s", quoteS(s).c_str(), calls.size(), want.size(), calls.empty() ? "" : (" (the first made is " + calls[0].name + " with " + std::to_string(calls[0].args.size()) + " arguments)").c_str());
}
// a fresh family of related names for every execution: the table has no removal
static std::string id() { static u64 n = 0; std::string s; u64 k = ++n; while (k) { s += (char)('a' + k % 26); k /= 26; } return s; }
static Z weigh(const std::vector<Z> &a, int tag) { Z r = tag; for (size_t i = 0; i < a.size(); ++i) r = r * 10 + a[i] + 1; return r; }
static void registrationHistory(unsigned depth, int mode, bool probeAlways) {
    const std::string b = "q" + id() + "_"; const std::string N[4] = {b + "N", b + "Nn", b + "n", "_" + b + "N"}; Env env; std::map<std::string, int> tags; int tag = 0; u64 h = 1;
    for (unsigned d = 0; d < depth; ++d) {
        const unsigned i = mc::choose(3), kind = mc::choose(7); ++tag; h = mc::mix(h, i * 7 + kind); const std::string &n = N[i]; env.consts.erase(n); env.fns.erase(n); tags[n] = tag;
        if (kind < 2) { const Z z = kind ? Z(-tag) : zpow2(64) + tag; putConst(n, z); env.consts[n] = z; MC_NOTE("%s = %s", n.c_str(), brief(z).c_str()); }
        else if (kind == 6) { Table::getInstance()->registe(n, Table::Symbol()); MC_NOTE("%s = neither", n.c_str()); } // using it is an error
        else { const int argc = (int)kind - 3; auto f = [tag](const std::vector<Z> &a) { return weigh(a, tag); }; put(n, argc, f, tag); env.fns[n] = {argc, f}; MC_NOTE("%s = function of %d arguments, version %d", n.c_str(), argc, tag); }
        if (!probeAlways && d + 1 < depth) continue;
        for (unsigned j = 0; j < 4; ++j) for (const char *form : {"", "()", "(3)", "(5, 3)"}) expectEval(N[j] + form, env, tags, mode);
        expectEval(N[0] + "+" + N[0], env, tags, mode);
    }
    mc::state(h);
}
MC_SPACE("every history of registrations under related names", 2) { registrationHistory(mc::tier() ? 4 : 3, 0, true); }
MC_SPACE("every history of registrations, parallel evaluation", 2) { registrationHistory(2, 2, false); }
MC_SPACE("every declared count against every number of arguments", 3) {
    // the call stands alone, inside an operator, inside another call, in an untaken branch; arguments are literals, expressions, calls
    const int argc = (int)mc::choose(6) - 1; const unsigned n = mc::choose(6), kind = mc::choose(4), where = mc::choose(7), mode = mc::choose(4); Env env; auto F = [](int t) { return [t](const std::vector<Z> &a) { return weigh(a, t); }; };
    static const std::string name = "c" + id() + "F", dyn = name + "d", one = name + "1"; put(name, argc, F(3)); env.fns[name] = {argc, F(3)}; static bool once = (put(dyn, -1, F(5)), put(one, 1, F(7)), true); (void)once; env.fns[dyn] = {-1, F(5)}; env.fns[one] = {1, F(7)};
    std::string call = name + "("; for (unsigned i = 0; i < n; ++i) { if (i) call += ", "; const std::string k = std::to_string(i + 2); call += kind == 0 ? k : kind == 1 ? "(" + k + " * 3 - " + k + ")" : kind == 2 ? one + "(" + k + ")" : dyn + "(" + k + ", " + dyn + "())"; } call += ")";
    const std::string s = where == 0 ? call : where == 1 ? "1 + " + call + " * 2" : where == 2 ? dyn + "(1, " + call + ", 2)" : where == 3 ? one + "(" + call + ")" : where == 4 ? "1 ? 4 : " + call : where == 5 ? "0 ? 4 : " + call : call + " - " + call;
    MC_NOTE("%s with %s declared with %d", s.c_str(), name.c_str(), argc); expectEval(s, env, {}, (int)mode); mc::state(mc::hashStr(s, argc + 9));
}
MC_SPACE("every call sentence up to a length", 4) {
    static const Env env = [] { Env e; auto F = [](int t) { return [t](const std::vector<Z> &a) { return weigh(a, t); }; }; const int A[] = {-1, 1, 2}; const char *N[] = {"vD", "vU", "vB"}; for (int i = 0; i < 3; ++i) { put(N[i], A[i], F(i)); e.fns[N[i]] = {A[i], F(i)}; } putConst("vC", 6); e.consts["vC"] = 6; return e; }();
    static exprs::Alphabet a{{"2", "vC"}, {}, {}, {"-"}, false, false, {"vD", "vU", "vB"}}; const std::string s = exprs::sentence(a, mc::tier() ? 17 : 15); MC_NOTE("%s", s.c_str()); expectEval(s, env, {}, 0); mc::state(mc::hashStr(s));
}
MC_SPACE("long argument lists", 1) {
    static const std::vector<unsigned> N = [] { std::vector<unsigned> v; for (unsigned i = 0; i < (mc::tier() ? 200u : 70u); ++i) v.push_back(i); for (unsigned i : {100u, 126u, 127u, 128u, 129u, 253u, 254u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u}) if (i >= v.size()) v.push_back(i); return v; }(); static const int OFF[] = {0, 1, -1, 128, 256, -128, -256, 512, 65536, 1 << 24};
    const unsigned n = mc::pick(N), mode = mc::choose(4); const bool fixedCount = mc::choose(2); const int off = fixedCount ? OFF[mc::choose(10)] : 0; if (n > 200 && mode > 1) mc::prune(); Env env; auto f = [](const std::vector<Z> &a) { Z r = 0; for (size_t i = 0; i < a.size(); ++i) r += a[i] * (i + 1); return r; };
    const int argc = fixedCount ? (int)n + off : -1; if (fixedCount && argc < 0) mc::prune(); static const std::string name = "l" + id(); put(name, argc, f); env.fns[name] = {argc, f}; std::string s = name + "("; for (unsigned i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(i * i + 1); s += ")"; MC_NOTE("%u arguments, declared %d", n, argc); expectEval(s, env, {}, (int)mode);
}
MC_SPACE("every name shape is its own symbol", 1) {
    // all names up to three characters over this alphabet get distinct constants; each is then looked up, next to others
    static const std::string A = "aZ_90"; static const std::vector<std::string> names = [] { std::vector<std::string> v; for (unsigned l = 1; l <= 3; ++l) { unsigned t = 1; for (unsigned i = 0; i < l; ++i) t *= 5; for (unsigned k = 0; k < t; ++k) { std::string s; unsigned x = k; for (unsigned i = 0; i < l; ++i) { s += A[x % 5]; x /= 5; } if (s[0] != '9' && s[0] != '0') v.push_back(s); } } return v; }();
    static const Env env = [] { Env e; int i = 1000; for (auto &n : names) { ++i; if (i % 7 == 0) continue; putConst(n, i); e.consts[n] = i; } return e; }();
    const std::string &n = mc::pick(names); const unsigned form = mc::choose(6); std::string s;
    switch (form) { case 0: s = n; break; case 1: s = n + "+" + n; break; case 2: s = " " + n + " "; break; case 3: s = n + "-" + mc::pick(names); break; case 4: s = "(" + n + ")"; break; case 5: s = n + " " + mc::pick(names); break; }
    MC_NOTE("%s", s.c_str()); expectEval(s, env, {}, 0); mc::state(mc::hashStr(s));
}
MC_SPACE("long names", 1) {
    static const std::vector<unsigned> L{15, 16, 17, 31, 32, 33, 63, 64, 100, 255, 256, 257, 1000}; static u64 uniq = 0; const unsigned l = mc::pick(L); std::string n = id() + "L" + std::to_string(++uniq); while (n.size() < l) n += "xY_7"[n.size() % 4]; std::string other = n; other.back() = other.back() == 'q' ? 'r' : 'q'; Env env; putConst(n, 5); env.consts[n] = 5; expectEval(n + "*3", env, {}, 0); expectEval(other + "*3", env, {}, 0); putConst(other, 9); env.consts[other] = 9; expectEval(n + "*10+" + other, env, {}, 0); expectEval(n.substr(0, n.size() - 1), env, {}, 0); expectEval(n + "z", env, {}, 0);
}
// a function that scribbles over its argument vector, and one that evaluates expressions itself
MC_SPACE("functions that modify their arguments", 1) {
    static const std::string scrib = "s" + id(), cst = scrib + "c", oth = scrib + "o"; const unsigned how = mc::choose(4), mode = mc::choose(4), reps = 1 + mc::choose(2); const std::vector<std::string> E{cst, "7", cst + "*1", "(7+" + cst + ")"}; const std::string e = mc::pick(E), e2 = mc::pick(E); putConst(cst, 41); putConst(oth, 12);
    Func g; g.argCount = -1; static std::mutex m; static std::vector<Z> got; g.nativeCall = [how](Args a) { Z r = 0; for (auto &x : a) r = r * 1000 + zOf(x); { std::lock_guard<std::mutex> l(m); got.push_back(r); } for (auto &x : a) switch (how) { case 0: x = implOf(99); break; case 1: x.mulAssign(implOf(3)); break; case 2: x.negate(); break; case 3: { BigIntegerImpl t(std::move(x)); (void)t; break; } } if (how == 3) a.clear(); return implOf(r); };
    Table::getInstance()->registe(scrib, Table::Symbol(std::move(g)));
    const std::map<std::string, Z> V{{E[0], 41}, {E[1], 7}, {E[2], 41}, {E[3], 48}}; std::string s; Z want = 0; for (unsigned i = 0; i < reps; ++i) { s += (i ? "+" : "") + scrib + "(" + e + "," + e2 + ")"; want += V.at(e) * 1000 + V.at(e2); } s += "+" + cst + "*1000000"; want += 41000000; MC_NOTE("%s, variant %u", s.c_str(), how);
    for (int again = 0; again < 2; ++again) { got.clear(); BigInteger x = mode == 0 ? pgbn::expr::eval(s) : pgbn::expr::peval(s, (int)mode - 1); mc::step(); MC_CHECK(eq(x, want), "%s is %s, expected %s", s.c_str(), show(x).c_str(), brief(want).c_str()); MC_CHECK(got.size() == reps, "%zu calls", got.size()); MC_CHECK(eq(pgbn::expr::eval(cst + "*100+" + oth), Z(4112)), "a constant changed"); }
}
MC_SPACE("functions that evaluate or register", 1) {
    static const std::string inner = "e" + id(), cst = inner + "c"; const unsigned mode = mc::choose(4), im = mc::choose(4), what = mc::choose(4); static const std::vector<std::string> I{"2+3*4", "1/", "g9zz(1)", "(8)"}; const std::string in = I[what]; putConst(cst, 3);
    Func g; g.argCount = 1; static std::mutex m; static std::vector<std::string> seenInfo; g.nativeCall = [in, im](Args a) { pgbn::Status st; st = pgbn::ErrCode::SUCCESS; BigInteger r = im == 0 ? pgbn::expr::eval(in, &st) : pgbn::expr::peval(in, (int)im - 1, &st); { std::lock_guard<std::mutex> l(m); seenInfo.push_back(st.getInfo()); } Z v = readExport(r); return implOf(st.getInfo() == okInfo() ? v * 100 + zOf(a[0]) : Z(-1)); };
    Table::getInstance()->registe(inner, Table::Symbol(std::move(g))); seenInfo.clear(); const std::string s = "10000*" + inner + "(5)+" + cst; pgbn::Status st; st = pgbn::ErrCode::SUCCESS; BigInteger x = mode == 0 ? pgbn::expr::eval(s, &st) : pgbn::expr::peval(s, (int)mode - 1, &st); mc::step(); const bool good = what == 0 || what == 3; const Z want = (good ? Z(what == 0 ? 1405 : 805) : Z(-1)) * 10000 + 3; MC_CHECK(eq(x, want), "%s with an inner evaluation of %s is %s, expected %s", s.c_str(), in.c_str(), show(x).c_str(), brief(want).c_str()); MC_CHECK(seenInfo.size() == 1 && (seenInfo[0] == okInfo()) == good, "inner status"); if (mode) MC_CHECK(st.getInfo() == okInfo(), "outer status \"%s\"", st.getInfo().c_str());
}
struct Boom { int k; };
MC_SPACE("functions that throw", 1) {
    static const std::string thr = "t" + id(), ok = thr + "k"; const unsigned mode = mc::choose(4), form = mc::choose(6); static std::atomic<int> calls, okCalls; calls = okCalls = 0; Func g; g.argCount = -1; g.nativeCall = [](Args a) -> BigIntegerImpl { ++calls; throw Boom{(int)a.size() + 40}; }; Table::getInstance()->registe(thr, Table::Symbol(std::move(g))); Func h; h.argCount = 1; h.nativeCall = [](Args a) { ++okCalls; return a[0]; }; Table::getInstance()->registe(ok, Table::Symbol(std::move(h)));
    struct F { std::string s; bool thrown; int calls; long val; int ok; }; const F fs[] = {{thr + "()", true, 1, 40, 0}, {"1+" + thr + "(2,3)", true, 1, 42, -1}, {ok + "(" + thr + "(7))", true, 1, 41, 0}, {"0?" + thr + "():6", false, 0, 6, 0}, {"1?" + ok + "(8):" + thr + "()", false, 0, 8, 1}, {"1?" + thr + "(1,1,1):2", true, 1, 43, 0}};
    const F &f = fs[form]; MC_NOTE("%s mode %u", f.s.c_str(), mode); bool thrown = false; int k = 0; BigInteger x; try { x = mode == 0 ? pgbn::expr::eval(f.s) : pgbn::expr::peval(f.s, (int)mode - 1); } catch (const Boom &b) { thrown = true; k = b.k; } mc::step(); MC_CHECK(thrown == f.thrown, "%s", thrown ? "an exception reached the caller" : "the exception was lost"); MC_CHECK(calls == f.calls, "%d calls", calls.load()); if (f.ok >= 0) MC_CHECK(okCalls == f.ok, "%d calls of the other function", okCalls.load()); if (thrown) MC_CHECK(k == f.val, "another exception arrived: %d", k); else MC_CHECK(eq(x, Z(f.val)), "value %s", show(x).c_str()); MC_CHECK(eq(pgbn::expr::eval("2*" + ok + "(21)"), Z(42)), "later evaluations are affected");
}
MC_MAIN()
