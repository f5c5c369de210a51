// Independent reference for infix expressions: a maximal-munch lexer, precedence climbing to a tree, lazy evaluation on
// cpp_int. The verdict is a value, malformed, or unspecified (the documentation does not say what happens: negative or
// huge exponents and shift counts, factorials of negatives, a point without digits after it, an upper-case 0X prefix, x/0).
#pragma once
#include "bn.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"

namespace ref {
using namespace bn;
struct Call { std::string name; std::vector<Z> args; bool operator<(const Call &o) const { return std::tie(name, args) < std::tie(o.name, o.args); } bool operator==(const Call &o) const { return name == o.name && args == o.args; } };
struct Fn { int argc; std::function<Z(const std::vector<Z> &)> f; };
struct Env { std::map<std::string, Z> consts; std::map<std::string, Fn> fns; };

enum Verdict { VALUE, MALFORMED, UNSPEC };
struct Malformed { }; struct Unspec { };
enum Kind { NUM, CONST, FUNC, OP, END };
struct Tok { Kind k; std::string s; Z z; };
struct Node { std::string op; Z z; std::vector<int> ch; }; // op: "#" literal, "$" constant, "u-", "u+", "u~", "!", "?:", "call:<name>", binary operators

inline int dig(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
inline bool isD(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool isA(unsigned char c) { return dig(c) < 36; }

struct Limits { unsigned pow = 130, fact = 40, shift = 3000; size_t shiftBits = 6000, mulBits = 9000, powBits = 9000; };
inline Limits &lim() { static Limits l; return l; } // beyond these the reference says "unspecified", to keep the numbers small
struct Eval {
    const Env &env; std::string s; std::vector<Tok> t; std::vector<Node> n; size_t p = 0; std::vector<Call> calls; bool unspecLex = false; bool divByZero = false;
    Eval(const Env &e, const std::string &str) : env(e), s(str) { }

    Z number(const std::string &d, int radix) { if (d.empty() || radix < 2 || radix > 36) throw Malformed{}; Z z = 0; for (char c : d) { if (dig(c) >= radix) throw Malformed{}; z = z * radix + dig(c); } return z; }
    void lex() {
        static const char *two[] = {"**", "<<", ">>", "<=", ">=", "==", "!="};
        size_t i = 0; const size_t N = s.size();
        while (i < N) {
            const unsigned char c = s[i];
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ++i; continue; }
            if (isD(c)) {
                size_t j = i; while (j < N && isA(s[j])) ++j;
                const std::string w = s.substr(i, j - i); bool decimal = false; Z z;
                if (w == "0") { decimal = true; z = 0; }
                else if (w[0] != '0') { decimal = true; z = number(w, 10); }
                else if (w[1] == 'x') z = number(w.substr(2), 16);
                else if (w[1] == 'X') { unspecLex = true; throw Unspec{}; }
                else if (isD(w[1]) && w.size() > 2 && w[2] == 'x') z = number(w.substr(3), dig(w[1]));
                else if (isD(w[1]) && w.size() > 3 && isD(w[2]) && w[3] == 'x') z = number(w.substr(4), dig(w[1]) * 10 + dig(w[2]));
                else z = number(w.substr(1), 8);
                if (j < N && s[j] == '.') {
                    if (!decimal) throw Malformed{};
                    size_t k = j + 1; while (k < N && isA(s[k])) ++k;
                    if (k == j + 1) { unspecLex = true; throw Unspec{}; }
                    j = k;
                }
                t.push_back({NUM, "", z}); i = j; continue;
            }
            if (isA(c) || c == '_') {
                size_t j = i; while (j < N && (isA(s[j]) || s[j] == '_')) ++j;
                const std::string w = s.substr(i, j - i); i = j;
                auto it = env.consts.find(w); if (it != env.consts.end()) { t.push_back({CONST, w, it->second}); continue; }
                if (env.fns.count(w)) { t.push_back({FUNC, w, 0}); continue; }
                throw Malformed{};
            }
            bool got = false;
            for (const char *o : two) if (s.compare(i, 2, o) == 0) { t.push_back({OP, o, 0}); i += 2; got = true; break; }
            if (got) continue;
            if (c && std::strchr("+-*/%!&|^~<>(),?:", c)) { t.push_back({OP, std::string(1, (char)c), 0}); ++i; continue; }
            throw Malformed{};
        }
        t.push_back({END, "", 0});
    }
    int mk(const std::string &op, std::vector<int> ch = {}, const Z &z = 0) { n.push_back({op, z, std::move(ch)}); return (int)n.size() - 1; }
    bool is(const char *o) const { return t[p].k == OP && t[p].s == o; }
    static int level(const std::string &o) { static const std::map<std::string, int> m{{"|", 1}, {"^", 2}, {"&", 3}, {"==", 4}, {"!=", 4}, {"<", 5}, {"<=", 5}, {">", 5}, {">=", 5}, {"<<", 6}, {">>", 6}, {"+", 7}, {"-", 7}, {"*", 8}, {"/", 8}, {"%", 8}, {"**", 9}}; auto i = m.find(o); return i == m.end() ? 0 : i->second; }
    int expr() {
        int c = binary(1); if (!is("?")) return c; ++p;
        int a = expr(); if (!is(":")) throw Malformed{}; ++p;
        int b = expr(); return mk("?:", {c, a, b});
    }
    int binary(int min) {
        int l = unary();
        while (t[p].k == OP) { const std::string o = t[p].s; const int lv = level(o); if (!lv || lv < min) break; ++p; int r = binary(lv + 1); l = mk(o, {l, r}); }
        return l;
    }
    int unary() { if (is("-") || is("+") || is("~")) { std::string o = "u" + t[p].s; ++p; int c = unary(); return mk(o, {c}); } int x = prim(); while (is("!")) { ++p; x = mk("!", {x}); } return x; }
    int prim() {
        const Tok k = t[p];
        if (k.k == NUM) { ++p; return mk("#", {}, k.z); }
        if (k.k == CONST) { ++p; return mk("$", {}, k.z); }
        if (k.k == FUNC) {
            ++p; if (!is("(")) throw Malformed{}; ++p; std::vector<int> a;
            if (is(")")) ++p; else while (true) { a.push_back(expr()); if (is(",")) { ++p; continue; } if (is(")")) { ++p; break; } throw Malformed{}; }
            const int argc = env.fns.at(k.s).argc; if (argc != -1 && argc != (int)a.size()) throw Malformed{};
            return mk("call:" + k.s, a);
        }
        if (is("(")) { ++p; int x = expr(); if (!is(")")) throw Malformed{}; ++p; return x; }
        throw Malformed{};
    }
    Z run(int i) {
        const Node &x = n[i]; const std::string &o = x.op;
        if (o == "#" || o == "$") return x.z;
        if (o == "?:") return run(x.ch[0]) != 0 ? run(x.ch[1]) : run(x.ch[2]);
        if (o.compare(0, 5, "call:") == 0) { std::vector<Z> a; for (int c : x.ch) a.push_back(run(c)); const std::string name = o.substr(5); calls.push_back({name, a}); return env.fns.at(name).f(a); }
        Z a = run(x.ch[0]);
        if (o == "u-") return -a; if (o == "u+") return a; if (o == "u~") return znot(a);
        if (o == "!") { if (a < 0 || a > lim().fact) throw Unspec{}; Z r = 1; for (int k = 2; k <= a; ++k) r *= k; return r; }
        Z b = run(x.ch[1]);
        if (o == "|") return zor(a, b); if (o == "^") return zxor(a, b); if (o == "&") return zand(a, b);
        if (o == "==") return a == b; if (o == "!=") return a != b; if (o == "<") return a < b; if (o == "<=") return a <= b; if (o == ">") return a > b; if (o == ">=") return a >= b;
        if (o == "<<" || o == ">>") { if (b < 0 || b > lim().shift || (o == "<<" && zbits(a) > lim().shiftBits)) throw Unspec{}; u64 k = b.convert_to<u64>(); return o == "<<" ? Z(a * zpow2(k)) : zfloorshift(a, k); }
        if (o == "+") return a + b; if (o == "-") return a - b; if (o == "*") { if (zbits(a) + zbits(b) > lim().mulBits) throw Unspec{}; return a * b; }
        if (o == "/" || o == "%") { if (b == 0) { divByZero = true; throw Unspec{}; } return o == "/" ? Z(a / b) : Z(a % b); }
        if (o == "**") { if (b < 0 || b > lim().pow || zbits(a) * b > lim().powBits) throw Unspec{}; return boost::multiprecision::pow(a, b.convert_to<unsigned>()); }
        std::abort();
    }
};
struct Result { Verdict v; Z z; std::vector<Call> calls; bool divByZero = false; bool lexOk = true; };
inline Result evaluate(const Env &env, const std::string &s, bool runIt = true) {
    Eval e(env, s); Result r;
    try { e.lex(); int root = e.expr(); if (e.t[e.p].k != END) throw Malformed{}; if (runIt) r.z = e.run(root); r.v = VALUE; }
    catch (Malformed &) { r.v = e.unspecLex ? UNSPEC : MALFORMED; }
    catch (Unspec &) { r.v = UNSPEC; }
    r.calls = e.calls; r.divByZero = e.divByZero; return r;
}

// ---- the library under the same environment ---------------------------------------------------------------------------
inline std::vector<Call> &seen() { static thread_local std::vector<Call> v; return v; }
inline Z zOf(const BigIntegerImpl &v) { return readExport(BigInteger(std::make_unique<BigIntegerImpl>(v))); }
inline BigIntegerImpl implOf(const Z &z) { return BigIntegerImpl(zhex(z), 16); }
inline void registe(const std::string &name, const Fn &f) {
    pgbn::infixExpr::Func g; g.argCount = f.argc;
    g.nativeCall = [name, f](pgbn::infixExpr::Func::ArgType a) { Call c{name, {}}; for (auto &x : a) c.args.push_back(zOf(x)); seen().push_back(c); return implOf(f.f(c.args)); };
    pgbn::infixExpr::SymbolTable::getInstance()->registe(name, pgbn::infixExpr::SymbolTable::Symbol(std::move(g)));
}
inline void registe(const std::string &name, const Z &z) { pgbn::infixExpr::SymbolTable::getInstance()->registe(name, pgbn::infixExpr::SymbolTable::Symbol(implOf(z))); }
inline const Env &stdEnv() { // also registers it with the library
    static const Env e = [] {
        Env e; e.consts = {{"k", zpow2(32)}, {"K_1", Z(-3)}, {"_", Z(0)}};
        e.fns["f"] = {0, [](const std::vector<Z> &) { return Z(7); }};
        e.fns["g"] = {1, [](const std::vector<Z> &a) { return Z(a[0] + 1); }};
        e.fns["h2"] = {2, [](const std::vector<Z> &a) { return Z(a[0] * 3 - a[1]); }};
        e.fns["Sum"] = {-1, [](const std::vector<Z> &a) { Z r = 1; for (size_t i = 0; i < a.size(); ++i) r += a[i] * (i + 1); return r; }};
        for (auto &c : e.consts) registe(c.first, c.second);
        for (auto &f : e.fns) registe(f.first, f.second);
        return e;
    }();
    return e;
}
inline std::string quoteS(const std::string &s) { return mc::jstr(s.size() > 200 ? s.substr(0, 120) + " .. " + s.substr(s.size() - 60) : s); }
} // namespace ref
