// C07: malformed number strings are rejected without side effects; every well-formed one sets ok.
#include "giant.h"
using namespace bn;
static int digit(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static bool wellFormed(const std::string &s, int r) {
    if (r < 2 || r > 36) return false;
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-'); if (i == s.size()) return false;
    for (; i < s.size(); ++i) if (digit(s[i]) >= r) return false;
    return true;
}
static std::string quote(const std::string &s) { return mc::jstr(s.size() > 150 ? s.substr(0, 150) + ".." : s); }
static const std::string &okInfo() { return pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS); }
static void setSuccess() { *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; }
static bool statusIsError() { const std::string &i = pgbn::Status::getInstance()->getInfo(); return i != okInfo() && i != "<ERROR_INFO>"; }
static const Z &target() { static Z z("-123456789012345678901234567890123"); return z; }

static void one(const std::string &s, int r) {
    const bool good = wellFormed(s, r); const std::string q = quote(s);
    MC_NOTE("%s radix %d: %s", q.c_str(), r, good ? "well-formed" : "malformed"); mc::state(mc::mix(mc::hashStr(s), r));
    const std::string buf = s; const pgbn::StringArg v(buf.data(), buf.size());
    for (int form = 0; form < 5; ++form) {
        bool ok = !good, err = false; mc::step();
        BigInteger t(parse(target())); setSuccess(); const BigInteger sharer(form == 1 ? t : BigInteger());
        switch (form) {
        case 0: { BigInteger x(v, r, &ok); err = statusIsError(); break; }
        case 1: t.assign(v, r, &ok); err = statusIsError(); break;              // the target shares its storage with another number
        case 2: t.assign(v, r, &ok); err = statusIsError(); break;
        case 3: { BigIntegerImpl i(target().str()); setSuccess(); i.fromString(v, r, &ok); err = statusIsError(); if (!good) MC_CHECK(i.toString(10) == target().str(), "failed fromString(%s, %d) changed its target to %s", q.c_str(), r, i.toString(10).c_str()); break; }
        case 4: { BigIntegerImpl i(v, r, &ok); err = statusIsError(); break; }
        }
        MC_CHECK(ok == good, "form %d: parsing %s in radix %d set ok to %d", form, q.c_str(), r, ok);
        if (!good) {
            MC_CHECK(err, "form %d: parsing %s in radix %d failed without setting the status to an error", form, q.c_str(), r);
            if (form == 1 || form == 2) { MC_CHECK(eq(t, target()), "failed assign(%s, %d) changed its target to %s", q.c_str(), r, show(t).c_str()); t += 1; MC_CHECK(eq(t, Z(target() + 1)), "after a failed assign the target does not compute"); }
        }
        if (form == 1) MC_CHECK(eq(sharer, target()), "assign changed a copy of its target");
    }
    if (!good) { BigInteger t(parse(target())); setSuccess(); t.assign(v, r); const bool err = statusIsError(); MC_CHECK(err && eq(t, target()), "assign(%s, %d) without ok", q.c_str(), r); }
}
static const std::vector<int> &radices() { static std::vector<int> r{10, 2, 16, 36, 8, 11, 35, 1, 0, 37, -1, -10, 64, INT_MAX, INT_MIN}; return r; }
MC_SPACE("every string over 14 characters up to a length", 2) {
    static const std::string A = std::string("01+-9aAzZ ./x") + '\0';
    const int r = mc::pick(radices()); const unsigned L = mc::choose(mc::tier() ? 6 : 5); std::string s; for (unsigned i = 0; i < L; ++i) s += A[mc::choose(A.size())];
    one(s, r);
}
MC_SPACE("every one- and two-character string, every radix", 1) {
    const int r = (int)mc::choose(41) - 1; const unsigned L = 1 + mc::choose(2); std::string s; s += (char)mc::choose(256); if (L == 2) { static const std::string B = std::string("0179aAfFgGzZ+-_ .\n\x80\xff", 20) + '\0'; s += B[mc::choose(B.size())]; }
    one(s, r);
}
MC_SPACE("one foreign character at every position of a long string", 2) {
    static const std::vector<int> R{2, 7, 10, 16, 36}; static const std::vector<unsigned> LEN{2, 3, 7, 8, 9, 10, 19, 20, 31, 32, 33, 64, 65, 80};
    const int r = mc::pick(R); const unsigned L = mc::pick(LEN); const unsigned pos = mc::choose(L), sign = mc::choose(3);
    static const std::string BAD = std::string("+-.,_ \t\n/:@[`{gGzZx\x7f\x80\xe9\xff", 23) + '\0';
    const unsigned char c = mc::choose(4) == 0 ? (unsigned char)(r < 36 ? "0123456789abcdefghijklmnopqrstuvwxyz"[r] : '$') : BAD[mc::choose(BAD.size())];
    std::string s = (sign == 0 ? "" : sign == 1 ? "-" : "+") + std::string(L, '1'); s[(sign ? 1 : 0) + pos] = c; one(s, r);
}
MC_SPACE("spellings of zero and of small numbers", 1) {
    const int r = 2 + (int)mc::choose(35); const unsigned zeros = mc::choose(70), sign = mc::choose(3), last = mc::choose(3);
    std::string s = (sign == 0 ? "" : sign == 1 ? "-" : "+") + std::string(zeros, '0'); if (last == 1) s += '1'; if (last == 2) s += (char)(r <= 10 ? '0' + r - 1 : 'A' + r - 11);
    one(s, r);
}
MC_SPACE("sign and white-space placements", 1) {
    static const std::vector<std::string> P{"", "+", "-", "++", "--", "+-", "-+", " ", "\t", "\n", " +", "- ", "0x", "0", "_"}, M{"", "0", "1", "12", "1234567890123456789012345678901234567890"}, E{"", " ", "\n", "\t", "+", "-", ".", ".0", "e5", "L", std::string(1, '\0'), " 1", "_1"};
    const std::string s = mc::pick(P) + mc::pick(M) + mc::pick(E); one(s, mc::pick(radices()));
}
MC_SPACE("one foreign character in a very long string", 1) {
    static const std::vector<unsigned> L{1000, 1024, 4096, 4097, 10000, 65536, 65537}; const unsigned n = mc::pick(L), where = mc::choose(9), sign = mc::choose(2); const int r = mc::choose(2) ? 2 : 16; if (!mc::tier() && n > 50000 && r == 16) mc::prune();
    std::string s = (sign ? "-" : "") + std::string(n, '1'); const unsigned pos = where == 0 ? 0 : where == 1 ? 1 : where == 2 ? n / 2 : where == 3 ? n - 1 : where == 4 ? n - 2 : where == 5 ? 256 : where == 6 ? n - 32 : where == 7 ? 999 : n; if (where < 8) { static const std::string BAD = std::string("+- g.\xff") + '\0'; s[sign + pos] = BAD[mc::choose(BAD.size())]; }
    one(s, r);
}
MC_MAIN()
