// C13: malformed expressions are reported, never evaluated or fatal.
#include "exprspaces.h"
using namespace exprs;
static bool isErr(const std::string &i) { return i != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS) && i != "<ERROR_INFO>"; }
static void setOk(pgbn::Status &s) { s = pgbn::ErrCode::SUCCESS; }
static void bad(const std::string &s, int mode) {
    // the characters after the view would complete many of the expressions
    static const std::string GARBAGE[] = {"", "1", ")", "1)", ":1", "=1", "(2)", "x1"}; static unsigned g = 0; const std::string buf = s + GARBAGE[g = (g + 1) % 8]; const pgbn::StringArg v(buf.data(), s.size());
    seen().clear(); setOk(*pgbn::Status::getInstance()); pgbn::Status st; setOk(st); BigInteger x(std::int64_t(99)); mc::step();
    switch (mode) { case 0: x = pgbn::expr::eval(v); break; case 1: x = pgbn::expr::eval(v, &st); break; case 2: x = pgbn::expr::peval(v, 2, &st); break; case 3: x = pgbn::expr::peval(v, 2); break; case 4: x = pgbn::expr::peval(v, 0, &st); break; }
    const bool own = mode == 1 || mode == 2 || mode == 4; const std::string &info = own ? st.getInfo() : pgbn::Status::getInstance()->getInfo();
    MC_CHECK(isErr(info), "%s is malformed, but the %s status is \"%s\" (mode %d)", quoteS(s).c_str(), own ? "given" : "thread's", info.c_str(), mode);
    MC_CHECK(x.isZero() && eq(x, Z(0)), "%s is malformed, but evaluates to %s", quoteS(s).c_str(), show(x).c_str());
    MC_CHECK(seen().empty(), "%s is malformed, but a function in it was called", quoteS(s).c_str());
}
static void later() { setOk(*pgbn::Status::getInstance()); seen().clear(); const BigInteger y(pgbn::expr::eval("h2(2, 3) * 0x1f + (1 ? g(4) : 5)")); MC_CHECK(eq(y, Z(98)), "a well-formed expression evaluated afterwards gives %s instead of 98", show(y).c_str()); MC_CHECK(!isErr(pgbn::Status::getInstance()->getInfo()), "a well-formed expression evaluated afterwards sets an error status"); }
static void one(const std::string &s, unsigned modes = 2, bool after = false) {
    const Result r = evaluate(stdEnv(), s, false); if (r.v != MALFORMED) mc::prune();
    MC_NOTE("%s", quoteS(s).c_str()); mc::state(mc::hashStr(s)); for (unsigned m = 0; m < modes; ++m) bad(s, m); if (after) later();
}
static std::string seq(const std::vector<std::string> &T, unsigned n, const char *sep) { std::string s; for (unsigned i = 0; i < n; ++i) { if (i) s += sep; s += mc::pick(T); } return s; }
static const std::vector<std::string> &tokens() { static std::vector<std::string> v{"1", "k", "f", "g", "Sum", "nope", "(", ")", ",", "?", ":", "+", "-", "*", "!", "~", "**", "<", "=="}; return v; }
MC_SPACE("every token sequence up to a length", 3) { const unsigned n = mc::choose(mc::tier() ? 7 : 6); const auto &T = tokens(); if (n == 6) { static const std::vector<std::string> S{"1", "g", "Sum", "(", ")", ",", "?", ":", "-", "!"}; one(seq(S, n, " ")); } else one(seq(T, n, " "), n < 5 ? 5 : 1, n < 4); }
MC_SPACE("every token sequence without spaces up to a length", 3) { const unsigned n = 1 + mc::choose(4); static const std::vector<std::string> T = [] { auto t = tokens(); for (const char *x : {"=", "<=", ">", ">>", "!=", "&", "|", "^", "/", "%", "0x", "09", "1.5", "_", "99x1"}) t.push_back(x); return t; }(); one(seq(T, n, ""), n < 4 ? 2 : 1); }
MC_SPACE("every character string up to a length", 2) {
    static const std::string A = std::string("0189axX._kf+*/!~<>=&(),?: \n$#\x80\xff\"'", 35) + '\0'; const unsigned n = mc::choose(mc::tier() ? 5 : 4) + (mc::tier() ? 1 : 0); std::string s; for (unsigned i = 0; i < n; ++i) s += A[mc::choose(A.size())]; one(s, n < 4 ? 5 : 1, n < 3);
}
MC_SPACE("every single byte, alone and inside an expression", 1) { const unsigned c = mc::choose(256), sh = mc::choose(8); std::string b(1, (char)c); one(sh == 0 ? b : sh == 1 ? "1" + b : sh == 2 ? b + "1" : sh == 3 ? "1 " + b + " 2" : sh == 4 ? "(" + b + ")" : sh == 5 ? "g(" + b + ")" : sh == 6 ? "1 ?" + b + ": 2" : "1+2" + b + b, 5, true); }
MC_SPACE("every one-character edit of longer expressions", 2) {
    const std::string &s = mc::pick(longSentences()); const unsigned kind = mc::choose(4), i = mc::choose(s.size() + 1); static const std::string A = std::string("01a x.()+-*!?:,<=k_#\x80", 22) + '\0'; std::string t = s;
    if (kind < 2) { const char c = A[mc::choose(A.size())]; if (kind == 0) t.insert(i, 1, c); else { if (i == s.size()) mc::prune(); t[i] = c; } } else if (i == s.size()) mc::prune(); else if (kind == 2) t.erase(i, 1); else t.erase(i); // truncated
    one(t, 3, true);
}
MC_SPACE_T("every pair of one-character edits of longer expressions", 2) {
    const std::string &s = mc::pick(longSentences()); std::string t = s; static const std::string A = "1(),?:-! x";
    for (int e = 0; e < 2; ++e) { if (t.empty()) mc::prune(); const unsigned i = mc::choose(t.size()), c = mc::choose(A.size() + 1); if (c == A.size()) t.erase(i, 1); else if (e == 0) t.insert(i, 1, A[c]); else t[i] = A[c]; }
    one(t, 1);
}
MC_SPACE("every literal string up to a length", 2) { static const std::string A = "0178xaFzZ. "; const unsigned L = 1 + mc::choose(mc::tier() ? 6 : 5); std::string s; s += "0189"[mc::choose(4)]; for (unsigned i = 1; i < L; ++i) s += A[mc::choose(A.size())]; one(s, 1); if (L < 4) one("1+" + s + "*2", 2, true); }
MC_SPACE("literals of every radix prefix and digit", 1) { const unsigned hi = mc::choose(10), lo = mc::choose(10); const char d = "0123456789abcdefghijklmnopqrstuvwxyzGZ._"[mc::choose(40)]; const std::string s = std::string("0") + char('0' + hi) + char('0' + lo) + "x" + (mc::choose(2) ? "1" : "") + d; one(s, 2); }
MC_SPACE("calls with every argument count and malformed argument lists", 1) {
    static const std::vector<std::string> F{"f", "g", "h2", "Sum", "k", "nope", "F", "G"}, A{"", "1", "1,2", "1,2,3", ",", "1,", ",1", "1,,2", "1 2", "(1,2)", "1,(2", "f", "f(", "g(),1", "h2(1),2", "1?2", "1?2:", ":", "k()", "g(1)(2)", "f()f()"}, E{")", "", "))", ") 1", ")(", "),"}; const std::string s = mc::pick(F) + (mc::choose(2) ? "(" : " (") + mc::pick(A) + mc::pick(E); one(s, 5, true);
}
MC_SPACE("malformed parts in branches that would not be evaluated", 1) { static const std::vector<std::string> X{"1 ? 2 : nope", "0 ? nope : 1", "1 ? 2 : 3 +", "0 ? f( : 2", "1 ? 2 : g()", "0 ? h2(1) : 2", "1 ? f() : (2", "0 ? ) : 1", "0 ? : 1", "1 ? 1 :", "? 1 : 2", "1 ? 2 ? 3 : 4", "1 ? 2 : 3 : 4", "f() + g()", "g(f()) nope", "Sum(f(), nope)", "f() 1", "f() )", "( f()", "f() ? g(1) :", "f() +", "f() # 1", "f() + 09", "f() + 1 2"}; one(mc::pick(X), 5, true); }
static std::string longBad(unsigned shape, unsigned n) {
    std::string s;
    switch (shape) { case 0: s = std::string(n, '(') + "1" + std::string(n - 1, ')'); break; case 1: s = std::string(n, '(') + "1" + std::string(n + 1, ')'); break; case 2: s = "1" + std::string(n, '+'); break; case 3: for (unsigned i = 0; i < n; ++i) s += "g("; s += std::string(n, ')'); break; case 4: for (unsigned i = 0; i < n; ++i) s += "1?"; s += "1"; break; case 5: s = std::string(n, ' '); break; case 6: s = std::string(n, '9') + "x"; break; case 7: for (unsigned i = 0; i < n; ++i) s += "1+"; break; case 8: for (unsigned i = 0; i < n; ++i) s += "1,"; s += "1"; break; case 9: s = "Sum(" + std::string(n, ',') + ")"; break; }
    return s;
}
MC_SPACE("long malformed expressions", 1) { const unsigned n = 1 + mc::choose(mc::tier() ? 400 : 100); one(longBad(mc::choose(10), n), 5, true); }
MC_SPACE("very long malformed expressions", 1) {
    static const std::vector<unsigned> N{127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4000};
    const unsigned n = mc::pick(N); one(longBad(mc::choose(10), n), n <= 520 ? 5 : 2, true);
}
MC_SPACE("calls with very many arguments", 1) { static const std::vector<unsigned> N{5, 15, 16, 17, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514, 1024, 1025, 1026}; static const std::vector<std::string> F{"f", "g", "h2", "Sum", "k"}; const unsigned n = mc::pick(N), where = mc::choose(3); std::string s = mc::pick(F) + "("; for (unsigned i = 0; i < n; ++i) s += i ? ",1" : "1"; s += ")"; one(where == 0 ? s : where == 1 ? "1 ? 2 : " + s : s + "+1", n <= 300 ? 5 : 2, true); }
MC_MAIN()
