// C28: text formatting substitutes exactly the arguments named by the placeholders.
#include "mc.h"
#include "pgdebug.h"
#include <array>
#include <cmath>
#include <cfloat>
#include <list>
#include <map>
#include <set>
#include <climits>
struct Limit { bool minus = false, plus = false, space = false, zero = false; int width = -1, prec = -1; std::string text() const { std::string s; if (minus) s += '-'; if (plus) s += '+'; if (space) s += ' '; if (zero) s += '0'; if (width >= 0) s += std::to_string(width); if (prec >= 0) s += '.' + std::to_string(prec); return s; } bool empty() const { return text().empty(); } };
// -- the oracle: conversions written from the definition of the printf conversions
static std::string pad(const Limit &l, const std::string &prefix, const std::string &body, bool zeros) { const size_t n = prefix.size() + body.size(), w = l.width < 0 ? 0 : l.width; if (n >= w) return prefix + body; const std::string fill(w - n, zeros && !l.minus ? '0' : ' '); return l.minus ? prefix + body + fill : zeros ? prefix + fill + body : fill + prefix + body; }
static std::string showInt(const Limit &l, bool neg, unsigned long long mag, bool isSigned) {
    std::string d; for (unsigned long long m = mag; m; m /= 10) d.insert(d.begin(), char('0' + m % 10)); if (d.empty() && l.prec != 0) d = "0"; while (l.prec > 0 && d.size() < (size_t)l.prec) d.insert(d.begin(), '0');
    return pad(l, neg ? "-" : isSigned && l.plus ? "+" : isSigned && l.space ? " " : "", d, l.zero && l.prec < 0);
}
static std::string showStr(const Limit &l, std::string s) { if (!l.empty()) s = s.substr(0, std::min(s.find('\0'), s.size())); if (l.prec >= 0) s = s.substr(0, l.prec); return pad(l, "", s, false); }
// exact decimal digits of a finite binary floating value (a non-negative m * 2^e), rounded to nearest even at `prec` digits
static std::string showReal(const Limit &l, long double v) {
    const bool neg = std::signbit(v); const std::string sign = neg ? "-" : l.plus ? "+" : l.space ? " " : ""; if (!std::isfinite(v)) return pad(l, sign, std::isnan(v) ? "nan" : "inf", false);
    int e; long double m = std::frexp(std::fabs(v), &e); std::vector<unsigned> ip{0}, fp; // decimal digits, ip least significant first, fp most significant first
    for (int i = 0; i < 64; ++i) { m *= 2; const unsigned bit = m >= 1; m -= bit; unsigned c = bit; for (auto &d : ip) { d = d * 2 + c; c = d / 10; d %= 10; } if (c) ip.push_back(c); } // ip = mantissa as 64-bit integer
    for (e -= 64; e > 0; --e) { unsigned c = 0; for (auto &d : ip) { d = d * 2 + c; c = d / 10; d %= 10; } if (c) ip.push_back(c); }
    for (; e < 0; ++e) { unsigned r = 0; for (size_t i = ip.size(); i--;) { const unsigned t = r * 10 + ip[i]; ip[i] = t / 2; r = t % 2; } for (auto &d : fp) { const unsigned t = r * 10 + d; d = t / 2; r = t % 2; } if (r) fp.push_back(5); while (ip.size() > 1 && !ip.back()) ip.pop_back(); }
    const size_t P = l.prec < 0 ? 6 : l.prec; bool up = false; if (fp.size() > P) { const bool more = std::any_of(fp.begin() + P + 1, fp.end(), [](unsigned d) { return d != 0; }); const unsigned last = P ? fp[P - 1] : ip[0]; up = fp[P] > 5 || (fp[P] == 5 && (more || last % 2)); fp.resize(P); } else fp.resize(P, 0);
    if (up) { size_t i = P; while (i && fp[i - 1] == 9) fp[--i] = 0; if (i) ++fp[i - 1]; else { size_t k = 0; while (k < ip.size() && ip[k] == 9) ip[k++] = 0; if (k == ip.size()) ip.push_back(1); else ++ip[k]; } }
    while (ip.size() > 1 && !ip.back()) ip.pop_back();
    std::string body; for (size_t i = ip.size(); i--;) body += char('0' + ip[i]); if (P) { body += '.'; for (unsigned d : fp) body += char('0' + d); }
    return pad(l, sign, body, l.zero);
}
struct Opaque { int x; };
static std::string show(const Limit &, bool v) { return v ? "true" : "false"; }
static std::string show(const Limit &, char v) { return std::string(1, v); }
static std::string show(const Limit &, uint8_t v) { return showInt({}, false, v, false); }
static std::string show(const Limit &l, uint16_t v) { return showInt(l, false, v, false); }
static std::string show(const Limit &l, uint32_t v) { return showInt(l, false, v, false); }
static std::string show(const Limit &l, uint64_t v) { return showInt(l, false, v, false); }
static std::string show(const Limit &l, int64_t v) { return showInt(l, v < 0, v < 0 ? 0 - (uint64_t)v : v, true); }
static std::string show(const Limit &l, int16_t v) { return show(l, (int64_t)v); }
static std::string show(const Limit &l, int32_t v) { return show(l, (int64_t)v); }
static std::string show(const Limit &l, float v) { return showReal(l, v); }
static std::string show(const Limit &l, double v) { return showReal(l, v); }
static std::string show(const Limit &l, long double v) { return showReal(l, v); }
static std::string show(const Limit &l, const std::string &v) { return showStr(l, v); }
static std::string show(const Limit &l, const char *v) { return showStr(l, v); }
static std::string show(const Limit &, const Opaque &) { return "<default-string>"; }
template <class A, class B> static std::string show(const Limit &, const std::pair<A, B> &p);
template <class C, class = typename C::iterator, class = std::enable_if_t<!std::is_same_v<C, std::string>>> static std::string show(const Limit &, const C &c) { std::string s = "["; bool first = true; for (const auto &e : c) { if (!first) s += ", "; first = false; s += show(Limit{}, e); } return s + "]"; }
template <class A, class B> static std::string show(const Limit &, const std::pair<A, B> &p) { return show(Limit{}, p.first) + " : " + show(Limit{}, p.second); }
static std::string vis(const std::string &s) { std::string r; for (char c : s.substr(0, 300)) if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } else r += c; return r; }
static void same(const std::string &got, const std::string &want, const char *what) { mc::step(); mc::state(mc::hashStr(want)); MC_CHECK(got == want, "%s gives \"%s\" (%zu characters), expected \"%s\" (%zu)", what, vis(got).c_str(), got.size(), vis(want).c_str(), want.size()); }
template <class T> static void one(const Limit &l, const T &v) {
    const std::string ph = l.empty() ? "{0}" : "{0:" + l.text() + "}", want = show(l, v); MC_NOTE("format(\"<%s>\")", ph.c_str());
    same(pgfmt::format("<" + ph + ">", v), "<" + want + ">", "format"); same(pgfmt::format(ph, v), want, "format"); std::string r = "q"; pgfmt::formatAppend(r, ph + "#", v); same(r, "q" + want + "#", "formatAppend");
}
static Limit limit(bool flags, bool prec, bool text = false) {
    Limit l; if (flags) { if (text) l.minus = mc::choose(2); else { const unsigned f = mc::choose(16); l.minus = f & 1; l.plus = f & 2; l.space = f & 4; l.zero = f & 8; } }
    static const std::vector<int> W{-1, 1, 2, 5, 18, 19, 20, 21, 39, 40, 41, 49, 50, 51, 99, 100, 1000}; l.width = mc::pick(W); if (prec) { static const std::vector<int> PR{-1, 0, 1, 3, 6, 19, 20, 40, 60, 400}; l.prec = mc::pick(PR); } return l;
}
MC_SPACE("every integer type, value, width, precision and flags", 2) {
    const unsigned t = mc::choose(9); const Limit l = limit(t < 6, t < 6);
    switch (t) {
    case 0: one(l, mc::pick(std::vector<int16_t>{0, 1, -1, 9, 10, 12345, INT16_MAX, INT16_MIN})); break;
    case 1: one(l, mc::pick(std::vector<uint16_t>{0, 1, 9, 10, 12345, UINT16_MAX})); break;
    case 2: one(l, mc::pick(std::vector<int32_t>{0, 1, -1, -10, 99999, INT32_MAX, INT32_MIN})); break;
    case 3: one(l, mc::pick(std::vector<uint32_t>{0, 1, 10, 99999, 0x80000000u, UINT32_MAX})); break;
    case 4: one(l, mc::pick(std::vector<int64_t>{0, 1, -1, -10, 4294967296, INT64_MAX, INT64_MIN})); break;
    case 5: one(l, mc::pick(std::vector<uint64_t>{0, 1, 10, 4294967296, 1ull << 63, UINT64_MAX})); break;
    case 6: one(l, mc::pick(std::vector<uint8_t>{0, 1, 65, 127, 128, 255})); break;
    case 7: one(l, char(mc::choose(256))); break;
    case 8: one(l, (bool)mc::choose(2)); break;
    }
}
MC_SPACE("every text, width and precision", 2) {
    static const std::vector<std::string> T{"", "a", "ab", "abc", "{0}", "}{", "%d%s%n", "a:b", " ", std::string(19, 'x'), std::string(20, 'y'), std::string(200, 'z'), std::string(5000, 'w'), "\xe4\xb8\xad", std::string("a\0b", 3), std::string(1, '\0')};
    const Limit l = limit(true, true, true); const std::string &s = mc::pick(T); if (mc::choose(2)) one(l, s); else { if (s.find('\0') != std::string::npos) mc::prune(); one(l, s.c_str()); }
}
template <class T> static std::vector<T> reals() { std::vector<T> v{0, -T(0), 1, -1, T(0.5), T(1.5), T(2.5), T(-2.5), T(0.1), T(0.125), T(-0.0625), T(0.9999999), T(9.5), T(99.99999951), T(0.00000049), T(0.0000005), T(1e10), T(-123456.789), T(1) / 3, 4294967296.0, std::numeric_limits<T>::max(), -std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}; return v; }
MC_SPACE("every real type, value, width, precision and flags", 2) {
    const unsigned t = mc::choose(3); const Limit l = limit(true, true); const auto &d = t == 0 ? 0 : 1; (void)d;
    static const auto F = reals<float>(); static const auto D = reals<double>(); static const auto L = [] { auto v = reals<long double>(); v.erase(std::remove_if(v.begin(), v.end(), [](long double x) { return std::isfinite(x) && x != 0 && (std::fabs(x) > DBL_MAX || std::fabs(x) < DBL_MIN); }), v.end()); v.push_back(1e300L * 1e100L); return v; }(); // the oracle is quadratic in the exponent
    if (t == 0) one(l, mc::pick(F)); else if (t == 1) one(l, mc::pick(D)); else one(l, mc::pick(L));
}
MC_SPACE("containers, pairs and other types", 1) {
    const Limit l = [] { Limit l; static const std::vector<int> W{-1, 0, 3, 50}; const int w = mc::pick(W); if (w > 0) l.width = w; return l; }(); const unsigned n = mc::choose(5);
    switch (mc::choose(9)) {
    case 0: { std::vector<int> v; for (unsigned i = 0; i < n; ++i) v.push_back(mc::pick(std::vector<int>{0, -5, INT_MAX})); one(l, v); break; }
    case 1: { std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(mc::pick(std::vector<std::string>{"", "a", ", ", "{0}"})); one(l, v); break; }
    case 2: { std::map<int, std::string> v; for (unsigned i = 0; i < n; ++i) v[i] = mc::pick(std::vector<std::string>{"", "b"}); one(l, v); break; }
    case 3: { std::list<std::vector<int>> v; for (unsigned i = 0; i < n; ++i) v.push_back(std::vector<int>(mc::choose(3), (int)i)); one(l, v); break; }
    case 4: { std::vector<double> v; for (unsigned i = 0; i < n; ++i) v.push_back(mc::pick(std::vector<double>{0, -0.5, 1e300})); one(l, v); break; }
    case 5: { std::vector<bool> v; for (unsigned i = 0; i < n; ++i) v.push_back(mc::choose(2)); std::string want = "["; for (unsigned i = 0; i < n; ++i) want += std::string(i ? ", " : "") + (v[i] ? "true" : "false"); same(pgfmt::format("{0}", v), want + "]", "format"); break; }
    case 6: one(l, std::pair<std::string, std::vector<int>>("k", std::vector<int>(n, 3))); break;
    case 7: one(l, Opaque{(int)n}); break;
    case 8: { std::set<const char *> v; static const char *const S[] = {"p", "", "long enough to need the heap", "q"}; for (unsigned i = 0; i < n && i < 4; ++i) v.insert(S[i]); one(l, v); break; }
    }
}
struct Tok { const char *text; int arg; Limit l; };
static Limit lim(int w, int p = -1, bool m = false, bool z = false) { Limit l; l.width = w; l.prec = p; l.minus = m; l.zero = z; return l; }
static const std::vector<Tok> &tokens() {
    static const std::vector<Tok> T{{"x", -1, {}}, {"{0}", 0, {}}, {"{1}", 1, {}}, {"{2}", 2, {}}, {"{3}", 3, {}}, {"{0:6}", 0, lim(6)}, {"{1:-4}", 1, lim(4, -1, true)}, {"{2:.1}", 2, lim(-1, 1)}, {"{1:.1}", 1, lim(-1, 1)}, {"{0:05}", 0, lim(5, -1, false, true)}, {"}", -1, {}}, {"%s%d%%", -1, {}}, {":", -1, {}}, {"{10}", 10, {}}, {"{1:50}", 1, lim(50)}};
    return T;
}
template <class F> static void pattern(const std::string &fmt, const std::string &want, unsigned nargs, const std::string &pre, bool append, F &&call) {
    MC_NOTE("%s(\"%s\") with %u arguments", append ? "formatAppend" : "format", fmt.c_str(), nargs); const std::string copy = fmt; std::string got = call(fmt, pre); same(got, append ? pre + want : want, append ? "formatAppend" : "format"); MC_CHECK(fmt == copy, "the pattern changed");
}
MC_SPACE("every pattern up to a length with up to four arguments", 2) {
    const unsigned nargs = mc::choose(5), n = mc::choose(mc::tier() ? 6 : 5); const bool append = mc::choose(2); std::string fmt, want; const std::string s = "p{1}q"; const int a0 = -42; const double a2 = 2.25; const char *a3 = "end";
    for (unsigned i = 0; i < n; ++i) { const Tok &t = mc::pick(tokens()); fmt += t.text; if (t.arg < 0) want += t.text; else if (t.arg < (int)nargs) want += t.arg == 0 ? show(t.l, a0) : t.arg == 1 ? show(t.l, s) : t.arg == 2 ? show(t.l, a2) : show(t.l, a3); }
    switch (mc::choose(3)) { case 1: fmt += "{", want += "{"; break; case 2: fmt += "{0", want += "{0"; break; } // an unclosed brace is ordinary text
    pattern(fmt, want, nargs, "pre{0}", append, [&](const std::string &f, const std::string &pre) {
        std::string r = pre;
        if (append) switch (nargs) { case 0: pgfmt::formatAppend(r, f); break; case 1: pgfmt::formatAppend(r, f, a0); break; case 2: pgfmt::formatAppend(r, f, a0, s); break; case 3: pgfmt::formatAppend(r, f, a0, s, a2); break; default: pgfmt::formatAppend(r, f, a0, s, a2, a3); }
        else switch (nargs) { case 0: r = pgfmt::format(f); break; case 1: r = pgfmt::format(f, a0); break; case 2: r = pgfmt::format(f, a0, s); break; case 3: r = pgfmt::format(f, a0, s, a2); break; default: r = pgfmt::format(f, a0, s, a2, a3); }
        return r;
    });
    MC_CHECK(s == "p{1}q" && a0 == -42 && a2 == 2.25, "an argument changed");
}
MC_SPACE("successive appends to one text", 1) {
    std::string r, want; for (unsigned d = 0; d < 4; ++d) { const unsigned v = mc::choose(6); switch (v) {
        case 0: pgfmt::formatAppend(r, "abc"); want += "abc"; break;
        case 1: pgfmt::formatAppend(r, ""); break;
        case 2: pgfmt::formatAppend(r, "{0}", d); want += std::to_string(d); break;
        case 3: pgfmt::formatAppend(r, "<{1},{0}>", d, std::string("s")); want += "<s," + std::to_string(d) + ">"; break;
        case 4: { const std::string b = want; pgfmt::formatAppend(r, "{0};", r); want = b + b + ";"; break; }
        case 5: pgfmt::formatAppend(r, "{"); want += "{"; break; }
        MC_NOTE("append %u", v); same(r, want, "formatAppend"); }
}
MC_SPACE("every placeholder number with many arguments", 1) {
    const unsigned i = mc::choose(14), j = mc::choose(14); const std::string fmt = "{" + std::to_string(i) + "}-{" + std::to_string(j) + ":4}"; auto arg = [](unsigned k, bool w) { std::string s = k < 12 ? std::string(1, char('a' + k)) : ""; return w && k < 12 ? "   " + s : s; };
    same(pgfmt::format(fmt, "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"), arg(i, false) + "-" + arg(j, true), "format");
}
MC_SPACE("long patterns, texts and lists", 1) {
    static const std::vector<unsigned> NS{15, 16, 17, 63, 64, 65, 99, 100, 101, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000}; const unsigned n = mc::pick(NS), kind = mc::choose(7); const std::string s(n, 't'); std::string fmt, want;
    MC_NOTE("kind %u, length %u", kind, n);
    switch (kind) {
    case 0: for (unsigned i = 0; i < n; ++i) { fmt += char('!' + i % 60); want += fmt.back(); } same(pgfmt::format(fmt + "{0}" + fmt, 7), want + "7" + want, "format"); break; // ordinary text around one placeholder
    case 1: for (unsigned i = 0; i < n; ++i) { fmt += i % 3 ? "{1}" : "{0},"; want += i % 3 ? "q" : std::to_string(-5) + ","; } same(pgfmt::format(fmt, -5, "q"), want, "format"); break; // that many placeholders
    case 2: same(pgfmt::format("{0}|{0}", s), s + "|" + s, "format"); break;
    case 3: { std::vector<unsigned> v(n); for (unsigned i = 0; i < n; ++i) v[i] = i * 7919; same(pgfmt::format("{0}", v), show(Limit{}, v), "format"); break; }
    case 4: { std::map<int, std::string> m; for (unsigned i = 0; i < n; ++i) m[(int)i * 3 - 9] = std::string(i % 5, 'm'); same(pgfmt::format("{0}", m), show(Limit{}, m), "format"); break; }
    case 5: { Limit l; l.width = (int)n; l.minus = mc::choose(2); one(l, std::string("ab")); one(l, s + "c"); one(l, 12345); break; }
    case 6: { Limit l; l.prec = (int)n; one(l, s + s); one(l, 1.0 / 3); one(l, 77); break; }
    }
    std::string r = s; pgfmt::formatAppend(r, fmt, -5, "q"); if (kind == 1) same(r, s + want, "formatAppend");
}
MC_MAIN()
