// Histories over three registers of the library's internal number type (BigIntegerImpl), whose own interface has
// operations the public class does not expose directly: swap, both results of a division at once, static mul/div,
// assignment between numbers in place. Same oracle as hist.h: plain integers.
#pragma once
#include "hist.h"
namespace histi {
using namespace bn;
using hist::R; using hist::CORE; using hist::FULL;
struct Regs { BigIntegerImpl r[R]; std::optional<Z> z[R]; };
struct Op { std::string name; unsigned group; std::function<bool(Regs &)> run; };
inline Z rd(const BigIntegerImpl &v) { return readExport(BigInteger(std::make_unique<BigIntegerImpl>(v))); }
inline BigIntegerImpl mk(const Z &z) { return BigIntegerImpl(zhex(z), 16); }
// asks everything that may cache something
inline void ask(const BigIntegerImpl &x, const std::optional<Z> &z) {
    for (unsigned i = 0; i < 6; ++i) { const auto w = x.getU32(i); const Z want = zand(zfloorshift(*z, 32 * i), Z(0xffffffffu)); MC_CHECK(Z(w) == want, "word %u of %s is %08x", (unsigned)i, brief(*z).c_str(), w); }
    MC_CHECK(Z(x.toU64()) == zand(*z, Z(0xffffffffffffffffull)), "the low 64 bits of %s are %llx", brief(*z).c_str(), (unsigned long long)x.toU64());
    MC_CHECK(x.isZero() == (*z == 0) && x.isOne() == (*z == 1) && x.isNegOne() == (*z == -1) && x.isOdd() == (zabs(*z) % 2 == 1) && x.isEven() == (*z % 2 == 0), "predicates of %s", brief(*z).c_str());
    const auto n = x.getMagU32Count(); const Z m = zabs(*z); if (*z != 0) { MC_CHECK(n == (zbits(m) + 31) / 32, "%s has %llu digits", brief(*z).c_str(), (unsigned long long)n); const auto [r, q] = x.getMagBitCount(); MC_CHECK(r + q * 32 == zbits(m), "%s has %llu bits", brief(*z).c_str(), (unsigned long long)(r + q * 32)); }
}
inline const std::vector<Op> &allOps() {
    static const std::vector<Op> ops = [] {
        std::vector<Op> v; auto I = [](int i) { return std::string(1, char('a' + i)); };
        auto add = [&](unsigned g, const std::string &n, std::function<bool(Regs &)> f) { v.push_back({n, g, std::move(f)}); };
        for (int i = 0; i < R; ++i) {
            const unsigned c = i < 2 ? CORE | FULL : FULL;
            for (int j = 0; j < R; ++j) {
                if (i != j) {
                    add(c, I(i) + ".assign(" + I(j) + ")", [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i].assign(s.r[j]); s.z[i] = s.z[j]; return true; });
                    add(FULL, I(i) + " = " + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i] = s.r[j]; s.z[i] = s.z[j]; return true; });
                    add(FULL, I(i) + ".assign(move(" + I(j) + "))", [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i].assign(std::move(s.r[j])); s.z[i] = s.z[j]; s.z[j].reset(); return true; });
                    add(FULL, I(i) + " = move(" + I(j) + ")", [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i] = std::move(s.r[j]); s.z[i] = s.z[j]; s.z[j].reset(); return true; });
                }
                if (i < j) {
                    add(CORE | FULL, I(i) + ".swap(" + I(j) + ")", [i, j](Regs &s) { if (!s.z[i] || !s.z[j]) return false; s.r[i].swap(s.r[j]); std::swap(s.z[i], s.z[j]); return true; });
                    add(FULL, "swap(" + I(j) + ", " + I(i) + ")", [i, j](Regs &s) { if (!s.z[i] || !s.z[j]) return false; using std::swap; swap(s.r[j], s.r[i]); swap(s.z[i], s.z[j]); return true; });
                }
#define MCI_BIN(g, text, call, expr, cond) add(g, I(i) + text + I(j), [i, j](Regs &s) { if (!s.z[i] || !s.z[j] || !(cond)) return false; const Z x = *s.z[i], y = *s.z[j]; (void)x; s.r[i].call(s.r[j]); s.z[i] = expr; return true; })
                MCI_BIN(c, " += ", addAssign, Z(x + y), true); MCI_BIN(c, " -= ", subAssign, Z(x - y), true); MCI_BIN(FULL, " *= ", mulAssign, Z(x * y), true);
                MCI_BIN(FULL, " &= ", andAssign, zand(x, y), true); MCI_BIN(FULL, " |= ", orAssign, zor(x, y), true); MCI_BIN(FULL, " ^= ", xorAssign, zxor(x, y), true);
                MCI_BIN(FULL, " /= ", divAssign, Z(x / y), *s.z[j] != 0);
#undef MCI_BIN
                for (int k = 0; k < R; ++k) if (k != i && k != j && i != j) {
                    add(c, I(i) + ".divide(" + I(j) + ") leaving the remainder in " + I(k), [i, j, k](Regs &s) { if (!s.z[i] || !s.z[j] || !s.z[k] || *s.z[j] == 0) return false; const Z x = *s.z[i], y = *s.z[j]; s.r[i].divideAssignAndReminder(s.r[j], s.r[k]); s.z[i] = x / y; s.z[k] = x % y; return true; });
                    add(FULL, I(i) + ".mod(" + I(j) + ") leaving the quotient in " + I(k), [i, j, k](Regs &s) { if (!s.z[i] || !s.z[j] || !s.z[k] || *s.z[j] == 0) return false; const Z x = *s.z[i], y = *s.z[j]; s.r[i].modAssignAndQuotient(s.r[j], s.r[k]); s.z[i] = x % y; s.z[k] = x / y; return true; });
                    add(FULL, I(k) + " = mul(" + I(i) + ", " + I(j) + ")", [i, j, k](Regs &s) { if (!s.z[i] || !s.z[j] || !s.z[k]) return false; BigIntegerImpl::mul(s.r[k], s.r[i], s.r[j]); s.z[k] = *s.z[i] * *s.z[j]; return true; });
                }
                if (i != j) {
                    add(FULL, I(i) + ".divide(7) leaving the remainder in " + I(j), [i, j](Regs &s) { if (!s.z[i] || !s.z[j]) return false; const Z x = *s.z[i]; s.r[i].divideAssignAndReminder(std::int64_t(7), s.r[j]); s.z[i] = x / 7; s.z[j] = x % 7; return true; });
                    add(FULL, I(i) + ".mod(2^32) leaving the quotient in " + I(j), [i, j](Regs &s) { if (!s.z[i] || !s.z[j]) return false; const Z x = *s.z[i]; s.r[i].modAssignAndQuotient(std::int64_t(4294967296ll), s.r[j]); s.z[i] = x % zpow2(32); s.z[j] = x / zpow2(32); return true; });
                }
            }
#define MCI_UN(g, text, code, model) add(g, I(i) + text, [i](Regs &s) { if (!s.z[i]) return false; BigIntegerImpl &x = s.r[i]; Z &z = *s.z[i]; (void)z; code; model; return true; })
            MCI_UN(c, ".inc()", x.inc(), z += 1); MCI_UN(c, ".dec()", x.dec(), z -= 1); MCI_UN(c, ".negate()", x.negate(), z = -z); MCI_UN(FULL, ".abs()", x.abs(), z = zabs(z));
            MCI_UN(c, ".notSelf()", x.notSelf(), z = znot(z)); MCI_UN(FULL, ".notBits()", x.notBits(), z = hist::notBitsZ(z));
            MCI_UN(c, " <<= 32", x.shiftLeftAssign(32), z *= zpow2(32)); MCI_UN(FULL, " <<= 5", x.shiftLeftAssign(5), z *= 32); MCI_UN(c, " >>= 32", x.shiftRightAssign(32), z = zfloorshift(z, 32)); MCI_UN(FULL, " >>= 33", x.shiftRightAssign(33), z = zfloorshift(z, 33));
            MCI_UN(c, " asked", ask(x, s.z[i]), );
            MCI_UN(FULL, " += 2^32", x.addAssign(std::int64_t(4294967296ll)), z += zpow2(32)); MCI_UN(FULL, " -= 1", x.subAssign(std::int64_t(1)), z -= 1); MCI_UN(FULL, " *= -3", x.mulAssign(std::int64_t(-3)), z *= -3); MCI_UN(FULL, " /= 2^16", x.divAssign(std::int64_t(65536)), z /= 65536);
            MCI_UN(FULL, " &= -2^32", x.andAssign(std::int64_t(-4294967296ll)), z = zand(z, Z(-zpow2(32)))); MCI_UN(FULL, " |= 2^32", x.orAssign(std::int64_t(4294967296ll)), z = zor(z, zpow2(32))); MCI_UN(FULL, " ^= -1", x.xorAssign(std::int64_t(-1)), z = znot(z));
            MCI_UN(c, " = -2^32 (int64)", x.assign(std::int64_t(-4294967296ll)), z = -zpow2(32)); MCI_UN(FULL, ".fromString(\"-zz\", 36)", x.fromString("-zz", 36), z = -1295);
            MCI_UN(FULL, ".fromString(\"1000000000000000000\", 16)", x.fromString("1000000000000000000", 16), z = zpow2(72)); MCI_UN(FULL, ".assign(bytes)", x.assign("\0\0\0\0\0\0\0\0\xff", 9), z = -zpow2(64)); MCI_UN(FULL, " printed", (void)x.toString(10), );
#undef MCI_UN
        }
        return v;
    }();
    return ops;
}
inline const std::vector<const Op *> &alphabet(unsigned g) {
    static std::map<unsigned, std::vector<const Op *>> m;
    auto &v = m[g]; if (v.empty()) for (const Op &o : allOps()) if (o.group & g) v.push_back(&o);
    return v;
}
constexpr unsigned NINIT = 4;
inline void history(Regs &s, unsigned g, unsigned depth, unsigned ninit = NINIT) {
    static const Z V[NINIT][R] = {{Z("0x500000000"), Z("0x700000000000000000000"), Z(-1)}, {Z("-0x800000000000000000000000"), Z("-0x800000000000000000000000"), Z("0x100000001")}, {Z(0), Z("0xffffffffffffffff"), Z("-0xffffffffffffffff")}, {Z(1), Z("-0x100000000"), Z(0)}};
    const unsigned c = mc::choose(ninit); const unsigned how = mc::choose(3); // fresh; already asked; first two shared
    for (int i = 0; i < R; ++i) { s.r[i].assign(mk(V[c][i])); s.z[i] = V[c][i]; if (how == 1) ask(s.r[i], s.z[i]); }
    if (how == 2) { ask(s.r[0], s.z[0]); s.r[1].assign(s.r[0]); s.z[1] = s.z[0]; }
    MC_NOTE("start: a=%s b=%s c=%s (%s)", brief(*s.z[0]).c_str(), brief(*s.z[1]).c_str(), brief(*s.z[2]).c_str(), how == 0 ? "fresh" : how == 1 ? "asked before" : "b is a copy of a");
    const auto &A = alphabet(g);
    for (unsigned d = 0; d < depth; ++d) { const Op &o = *A[mc::choose(A.size())]; MC_NOTE("%s", o.name.c_str()); if (!o.run(s)) mc::prune(); mc::step(); }
    u64 h = 17; for (int i = 0; i < R; ++i) h = mc::mix(h, s.z[i] ? zhash(*s.z[i]) : 1); mc::state(h);
}
// what is left at the end: the right values, and nothing distinguishes them from fresh numbers
inline void verify(Regs &s) {
    for (int i = 0; i < R; ++i) if (s.z[i]) {
        MC_CHECK(rd(s.r[i]) == *s.z[i], "after the history %c is %s, as independent values it would be %s", 'a' + i, brief(rd(s.r[i])).c_str(), brief(*s.z[i]).c_str());
        ask(s.r[i], s.z[i]); const BigIntegerImpl f(mk(*s.z[i])); MC_CHECK(s.r[i].cmp(f) == 0 && f.cmp(s.r[i]) == 0, "after the history %c differs from a fresh number of its value %s", 'a' + i, brief(*s.z[i]).c_str());
        BigIntegerImpl x(s.r[i]), y(f); x.andAssign(std::int64_t(-2)); y.andAssign(std::int64_t(-2)); MC_CHECK(x.cmp(y) == 0, "after the history %c & -2 differs from that of a fresh number of its value %s", 'a' + i, brief(*s.z[i]).c_str());
    }
}
} // namespace histi
