// C12: evaluating a well-formed infix expression gives the exact integer the grammar defines.
#include "exprspaces.h"
using namespace exprs;
static const std::string GARBAGE[] = {"7", "!", "+1", "**2", " ?0:9", "x", ".5", "=1", ")", ""};

static bool isErr(const std::string &i) { return i != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS); }
static void setOk(pgbn::Status &s) { s = pgbn::ErrCode::SUCCESS; }
// evaluates s through the library, embedded in a larger buffer
static void checkOn(const std::string &s, const Result &r, int mode) {
    static unsigned g = 0; const std::string buf = s + GARBAGE[g = (g + 1) % 10];
    const pgbn::StringArg v(buf.data(), s.size()); seen().clear(); bool div0 = false; quietDivBy0(&div0);
    setOk(*pgbn::Status::getInstance()); pgbn::Status st; setOk(st); BigInteger x; mc::step();
    switch (mode) { case 0: x = pgbn::expr::eval(v); break; case 1: x = pgbn::expr::eval(v, &st); break; case 2: x = pgbn::expr::peval(v, 0); break; case 3: x = pgbn::expr::peval(v, 1, &st); break; case 4: x = pgbn::expr::peval(v, 3); break; }
    const bool err = mode == 1 || mode == 3 ? isErr(st.getInfo()) : isErr(pgbn::Status::getInstance()->getInfo());
    MC_CHECK(eq(x, r.z), "%s evaluates to %s, expected %s", quoteS(s).c_str(), show(x).c_str(), brief(r.z).c_str());
    MC_CHECK(!err, "%s is well-formed but set an error status: %s", quoteS(s).c_str(), (mode == 1 || mode == 3 ? st.getInfo() : pgbn::Status::getInstance()->getInfo()).c_str());
    MC_CHECK(!div0, "%s reported a division by zero", quoteS(s).c_str());
    if (mode < 3) { auto a = seen(), b = r.calls; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(a == b, "%s made %zu function calls, the grammar selects %zu (or other arguments)", quoteS(s).c_str(), a.size(), b.size()); }
}
static void one(const std::string &s, bool mustBeWellFormed, unsigned modes = 1) {
    const Result r = evaluate(stdEnv(), s); MC_NOTE("%s", quoteS(s).c_str());
    if (r.v == MALFORMED && mustBeWellFormed) { std::fprintf(stderr, "generator produced a malformed sentence %s\n", s.c_str()); std::_Exit(96); }
    if (r.v != VALUE) mc::prune();
    mc::state(mc::hashStr(s)); for (unsigned m = 0; m < modes; ++m) checkOn(s, r, m);
}
static std::string joined(const std::string &a, const std::string &op, const std::string &b, bool sp) { return sp ? a + " " + op + " " + b : a + op + b; }

MC_SPACE("every pair of operators over every operand triple", 2) {
    static const std::vector<std::string> O{"0", "1", "2", "3", "7", "k", "K_1", "(-5)"}; const auto &B = binops(); const bool sp = mc::choose(2);
    const std::string &p = mc::pick(B), &q = mc::pick(B); const std::string a = mc::pick(O), b = mc::pick(O), c = mc::pick(O); one(joined(joined(a, p, b, sp), q, c, sp), true, 2);
}
MC_SPACE("every triple of operators", 3) {
    static const std::vector<std::string> O{"2", "3", "7"}; const auto &B = binops(); std::string s;
    const unsigned n = mc::tier() ? 3 : 2; std::string op[3]; for (auto &o : op) o = mc::pick(B);
    for (int i = 0; i < 4; ++i) { s += O[mc::choose(n)]; if (i < 3) s += op[i]; }
    one(s, true);
}
MC_SPACE("every placement of brackets around three operators", 3) {
    static const char *SH[] = {"(a)pbqcrd", "(apb)qcrd", "ap(bqc)rd", "apbq(crd)", "(apbqc)rd", "ap(bqcrd)", "(apb)q(crd)", "((apb)qc)rd", "ap(bq(crd))", "(ap(bqc))rd", "ap((bqc)rd)"};
    const auto &B = binops(); std::string op[3]; for (auto &o : op) o = mc::pick(B); const char *sh = SH[mc::choose(11)]; const unsigned var = mc::choose(mc::tier() ? 4 : 1); static const char *VALS[4][4] = {{"13", "2", "3", "5"}, {"2", "3", "2", "2"}, {"0", "1", "1", "4"}, {"k", "7", "1", "2"}};
    std::string s; for (const char *c = sh; *c; ++c) { if (*c >= 'a' && *c <= 'd') s += VALS[var][*c - 'a']; else if (*c >= 'p' && *c <= 'r') s += op[*c - 'p']; else s += *c; }
    one(s, true);
}
MC_SPACE("prefix and postfix operators around every operator pair", 2) {
    static const std::vector<std::string> PRE{"", "-", "~", "+", "- -", "-~", "~-"}, POST{"", "!", "!!"}; const auto &B = binops();
    const std::string &p = mc::pick(B), &q = mc::pick(B); std::string s;
    s = mc::pick(PRE) + "3" + mc::pick(POST) + " " + p + " " + mc::pick(PRE) + "2" + POST[mc::choose(2)] + " " + q + " " + PRE[mc::choose(3)] + "3" + POST[mc::choose(2)]; one(s, true);
}
static const Alphabet &small() { static Alphabet a{{"2", "5"}, {"-"}, {"!"}, {"+", "**", "<"}, true, true, {}}; return a; }
MC_SPACE("every sentence of the core grammar up to a length", 4) { one(sentence(small(), mc::tier() ? 12 : 10), true); }
MC_SPACE("every sentence with conditionals and calls up to a length", 4) { static Alphabet a{{"0", "1"}, {}, {}, {"-"}, true, true, {"f", "Sum"}}; one(sentence(a, mc::tier() ? 15 : 13), false); }
MC_SPACE("every sentence with calls of every arity up to a length", 4) { static Alphabet a{{"2", "k"}, {"-"}, {}, {"*"}, false, true, {"f", "g", "h2", "Sum"}}; one(sentence(a, mc::tier() ? 12 : 11), false); }
MC_SPACE("nested conditionals select one branch", 2) { // c ? a : b with every part again conditional, division by zero in the branches not taken
    static const std::vector<std::string> C{"0", "1", "g(-1)", "g(0)", "2-2", "k", "!" }; static const std::vector<std::string> L{"f()", "g(4)", "1/0", "(5%0)", "0 ? f() : g(1)", "1 ? g(2) : 1/0", "(1 ? 0 : 3) ? 6 : 7", "Sum(1, 0 ? f() : 2)"};
    const std::string c = C[mc::choose(6)], a = mc::pick(L), b = mc::pick(L), c2 = C[mc::choose(6)], d = L[mc::choose(3)]; const unsigned sh = mc::choose(4);
    std::string s = sh == 0 ? c + " ? " + a + " : " + b : sh == 1 ? c + "?(" + a + "):" + c2 + "?" + b + ":" + d : sh == 2 ? "(" + c + "?" + c2 + ":" + a + ")?" + b + ":" + d : c + " ? " + c2 + " ? " + a + " : " + b + " : " + d;
    one(s, true, 3);
}
MC_SPACE("every literal string up to a length", 2) {
    static const std::string A = "017890xaFzZ.9"; const unsigned L = 1 + mc::choose(mc::tier() ? 6 : 5); std::string s; s += "0123789"[mc::choose(7)]; for (unsigned i = 1; i < L; ++i) s += A[mc::choose(A.size() - 1)];
    one(s, false);
}
MC_SPACE("literals of every radix and length", 1) {
    const int r = 2 + (int)mc::choose(35); const unsigned n = 1 + mc::choose(40), style = mc::choose(4), pat = mc::choose(3); std::string d;
    for (unsigned i = 0; i < n; ++i) { int v = pat == 0 ? r - 1 : pat == 1 ? (i == 0 ? 1 : 0) : (int)((i * 7 + 3) % r); char c = v < 10 ? '0' + v : (style & 1 ? 'A' : 'a') + v - 10; d += c; }
    if (pat == 2 && d[0] == '0') d[0] = '1'; std::string pre;
    if (style < 2) pre = r == 16 && pat == 1 ? "0x" : r < 10 ? (style ? "0" : "00") + std::to_string(r) + "x" : "0" + std::to_string(r) + "x"; else if (r == 10) pre = ""; else if (r == 8) pre = "0"; else if (r == 16) pre = "0x"; else mc::prune();
    if (r == 10 && style >= 2) { if (d[0] == '0') mc::prune(); if (style == 3) d += "." + std::string(1 + mc::choose(3), '9'); }
    one(pre + d, true, 2); one("-(" + pre + d + ")+" + pre + d + "*2", true);
}
MC_SPACE("white space in every gap", 2) {
    static const std::vector<std::vector<std::string>> T{{"1", "+", "2"}, {"-", "3", "!"}, {"2", "**", "3"}, {"h2", "(", "1", ",", "2", ")"}, {"1", "?", "2", ":", "3"}, {"0x1f", "<<", "2"}, {"7", "<=", "k"}, {"1.5", "*", "(", "4", ")"}, {"f", "(", ")"}, {"3", "!", "==", "6"}, {"3", "!=", "6"}};
    static const std::vector<std::string> W{"", " ", "\t", "\n", "\r", "\r\n  \t"}; const auto &t = mc::pick(T); const bool two = t.size() > 4 && !mc::tier(); std::string s;
    for (unsigned i = 0; i <= t.size(); ++i) { s += W[mc::choose(two ? 3 : W.size())]; if (i < t.size()) s += t[i]; }
    one(s, false);
}
MC_SPACE("big operands under every operator", 2) {
    static const std::vector<std::string> O{"0", "1", "0xffffffff", "k", "0xffffffffffffffff", "18446744073709551616", "123456789012345678901234567890123456789", "0x8000000000000000000000000000000000000000", "02x1000000000000000000000000000000000000001", "64"};
    static const std::vector<std::string> PRE{"", "-", "~"}; const std::string s = mc::pick(PRE) + mc::pick(O) + mc::pick(binops()) + mc::pick(PRE) + mc::pick(O); one(s, true, 3);
}
struct Wide { ref::Limits old = ref::lim(); Wide() { ref::lim() = {200000, 600, 200000, 400000, 800000, 400000}; } ~Wide() { ref::lim() = old; } };
static std::string longShape(unsigned shape, unsigned n) {
    std::string s;
    switch (shape) {
    case 0: for (unsigned i = 0; i < n; ++i) s += (i ? i % 2 ? "-" : "+" : "") + std::to_string(i * i + 1); break;
    case 1: s = std::string(n, '(') + "42" + std::string(n, ')'); break;
    case 2: for (unsigned i = 0; i < n; ++i) s += i % 3 == 0 ? "-" : i % 3 == 1 ? "~" : "+"; s += "5"; break;
    case 3: for (unsigned i = 0; i < n; ++i) s += "g("; s += "1"; s += std::string(n, ')'); break;
    case 4: s = "Sum("; for (unsigned i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(i); s += ")"; break;
    case 5: for (unsigned i = 0; i < n; ++i) s += "0?1:"; s += "9"; break;
    case 6: for (unsigned i = 0; i < n; ++i) s += "1?"; s += "9"; for (unsigned i = 0; i < n; ++i) s += ":" + std::to_string(i); break;
    case 7: for (unsigned i = 0; i < n; ++i) s += "(" + std::to_string(i) + "-"; s += "1"; s += std::string(n, ')'); break;
    case 8: s = "1"; for (unsigned i = 0; i < n; ++i) s += binops()[i % 6] + std::to_string(i % 5); break;
    case 9: s = std::to_string(n % 30) + "!/" + std::to_string(n / 2 % 20) + "!"; break;
    }
    return s;
}
MC_SPACE("long and deep expressions", 1) { const unsigned n = 1 + mc::choose(mc::tier() ? 300 : 80); one(longShape(mc::choose(10), n), true, n % 16 == 1 ? 5 : 3); }
MC_SPACE("very long and very deep expressions", 1) { // the sizes at which a fixed table, an 8-bit or a page-sized count would run out, and their neighbours
    static const std::vector<unsigned> N{100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4000};
    Wide w; ref::lim().shiftBits = 20000; const unsigned n = mc::pick(N), shape = mc::choose(9); one(longShape(shape, n), true, n <= 520 ? 5 : 2);
}
MC_SPACE("the same expression through eval and peval", 1) { const std::string &s = mc::pick(longSentences()); one(s, true, 5); }
MC_SPACE("large exponents", 2) {
    Wide w; static const std::vector<std::string> B{"0", "1", "2", "3", "10", "(-1)", "(-2)", "(-7)", "0xffffffff", "0x100000000"}; const std::string &b = mc::pick(B); unsigned e;
    if (mc::choose(2)) { e = mc::choose(mc::tier() ? 1100 : 600); if (b.size() > 6 && e > 300) mc::prune(); } else { static const std::vector<unsigned> E{1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072}; e = mc::pick(E); if (!mc::tier() && (b == "3" || b == "10" || b == "(-7)") && e > 4097) mc::prune(); if (b.size() > 6 && e > 4097) mc::prune(); }
    one(b + "**" + std::to_string(e), true); 
}
MC_SPACE("large factorials", 1) { Wide w; const unsigned n = mc::choose(mc::tier() ? 600 : 300); one(std::to_string(n) + "!", true); }
MC_SPACE("large shift counts", 2) {
    Wide w; static const std::vector<std::string> A{"0", "1", "(-1)", "0xffffffff", "(-0x100000000)", "0x123456789abcdef0123456789", "(2**1000)", "(-(2**1000)-1)", "(3**700)"}; const std::string &a = mc::pick(A); const char *op = mc::choose(2) ? "<<" : ">>"; unsigned k;
    if (mc::choose(2)) k = mc::choose(1100); else { static const std::vector<unsigned> K{2047, 2048, 4095, 4096, 8192, 16383, 32767, 32768, 65504, 65535, 65536, 65537, 100000, 131072}; k = mc::pick(K); }
    one(a + op + std::to_string(k), true);
}
MC_SPACE("very long literals", 1) {
    Wide w; static const std::vector<unsigned> N{60, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000}; static const std::vector<int> R{2, 8, 10, 16, 36}; const unsigned n = mc::pick(N); const int r = mc::pick(R); const unsigned pat = mc::choose(3); std::string d;
    for (unsigned i = 0; i < n; ++i) { const int v = pat == 0 ? r - 1 : pat == 1 ? (i == 0 ? 1 : 0) : (int)((i * 7 + i / 5 + 1) % r); d += "0123456789abcdefghijklmnopqrstuvwxyz"[v]; } if (d[0] == '0') d[0] = '1';
    const std::string lit = (r == 10 ? "" : r == 8 ? "0" : r == 16 ? "0x" : "0" + std::to_string(r) + "x") + d; MC_NOTE("radix %d, %u digits, pattern %u", r, n, pat); one(lit, true, n <= 600 ? 5 : 2); if (r == 10) one(lit + "." + d, true, 2); one("1+" + lit + "-" + lit, true, 2);
}
MC_MAIN()
