// Histories over three registers: the operation alphabet shared by C10, C11 and C26.
// Every operation is applied to the library's registers and to plain integers (the model of independent values).
#pragma once
#include "bn.h"
#include <optional>

namespace hist {
using namespace bn;
constexpr int R = 3;
struct Regs {
    std::unique_ptr<BigInteger> r[R];
    std::optional<Z> z[R]; // empty: moved from, only assignable
};
struct Op { std::string name; unsigned group; std::function<bool(Regs &)> run; }; // false: not applicable in this state
enum { CORE = 1, MID = 2, FULL = 4 }; // in which alphabets an operation occurs

inline Z tdiv(const Z &a, const Z &b) { return a / b; }
inline Z tmod(const Z &a, const Z &b) { return a % b; }
inline Z notBitsZ(const Z &a) { const size_t k = zbits(a); Z m = zpow2(k) - 1 - zabs(a); return a < 0 ? Z(-m) : m; }

inline const std::vector<Op> &allOps() {
    static const std::vector<Op> ops = [] {
        std::vector<Op> v;
        auto add = [&](unsigned g, const std::string &n, std::function<bool(Regs &)> f) { v.push_back({n, g, std::move(f)}); };
        auto I = [](int i) { return std::string(1, char('a' + i)); };
        typedef Z (*ZB)(const Z &, const Z &);
        struct Bin { const char *s; void (*self)(BigInteger &, const BigInteger &); BigInteger (*bin)(const BigInteger &, const BigInteger &); void (*nat)(BigInteger &, std::int64_t); ZB z; bool div; std::int64_t k; };
#define MC_BIN(op, zf, div, k) {#op, [](BigInteger &x, const BigInteger &y) { x op##= y; }, [](const BigInteger &x, const BigInteger &y) { return x op y; }, [](BigInteger &x, std::int64_t y) { x op##= y; }, zf, div, k}
        static const Bin bins[] = {
            MC_BIN(+, [](const Z &a, const Z &b) { return Z(a + b); }, false, 0xffffffffll), MC_BIN(-, [](const Z &a, const Z &b) { return Z(a - b); }, false, 0x100000000ll),
            MC_BIN(*, [](const Z &a, const Z &b) { return Z(a * b); }, false, -3), MC_BIN(/, tdiv, true, 0x10000), MC_BIN(%, tmod, true, -0x100000001ll),
            MC_BIN(&, zand, false, -0x100000000ll), MC_BIN(|, zor, false, 0x100000000ll), MC_BIN(^, zxor, false, -1)};
#undef MC_BIN
        for (int i = 0; i < R; ++i) {
            for (int j = 0; j < R; ++j) {
                add(CORE | MID | FULL, I(i) + " = " + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = *s.r[j]; s.z[i] = s.z[j]; return true; });
                if (i != j) {
                    add(MID | FULL, "recreate " + I(i) + " as a copy of " + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i] = std::make_unique<BigInteger>(*s.r[j]); s.z[i] = s.z[j]; return true; });
                    add(CORE | MID | FULL, I(i) + " = move(" + I(j) + ")", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = std::move(*s.r[j]); s.z[i] = s.z[j]; s.z[j].reset(); return true; });
                    add(MID | FULL, "recreate " + I(i) + " by moving from " + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; s.r[i] = std::make_unique<BigInteger>(std::move(*s.r[j])); s.z[i] = s.z[j]; s.z[j].reset(); return true; });
                }
                if (i < j) add(CORE | MID | FULL, "swap(" + I(i) + ", " + I(j) + ")", [i, j](Regs &s) { if (!s.z[i] || !s.z[j]) return false; std::swap(*s.r[i], *s.r[j]); std::swap(s.z[i], s.z[j]); return true; });
                for (const Bin &b : bins) {
                    const bool core = std::string("+-*/&").find(b.s) != std::string::npos && !(i == 2 && j == 2);
                    add((core && i != 2 ? CORE : 0) | MID | FULL, I(i) + " " + b.s + "= " + I(j), [i, j, &b](Regs &s) { if (!s.z[i] || !s.z[j] || (b.div && *s.z[j] == 0)) return false; b.self(*s.r[i], *s.r[j]); s.z[i] = b.z(*s.z[i], *s.z[j]); return true; });
                    for (int k = 0; k < R; ++k) add(FULL, I(i) + " = " + I(j) + " " + b.s + " " + I(k), [i, j, k, &b](Regs &s) { if (!s.z[j] || !s.z[k] || (b.div && *s.z[k] == 0)) return false; *s.r[i] = b.bin(*s.r[j], *s.r[k]); s.z[i] = b.z(*s.z[j], *s.z[k]); return true; });
                }
                if (i != j) {
                    add(FULL, I(i) + " = -" + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = -*s.r[j]; s.z[i] = -*s.z[j]; return true; });
                    add(FULL, I(i) + " = +" + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = +*s.r[j]; s.z[i] = *s.z[j]; return true; });
                    add(FULL, I(i) + " = ~" + I(j), [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = ~*s.r[j]; s.z[i] = znot(*s.z[j]); return true; });
                    add(FULL, I(i) + " = " + I(j) + ".absoluted()", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = s.r[j]->absoluted(); s.z[i] = zabs(*s.z[j]); return true; });
                    add(FULL, I(i) + " = " + I(j) + " << 33", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = *s.r[j] << 33; s.z[i] = *s.z[j] * zpow2(33); return true; });
                    add(MID | FULL, I(i) + " = " + I(j) + " >> 33", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = *s.r[j] >> 33; s.z[i] = zfloorshift(*s.z[j], 33); return true; });
                    add(MID | FULL, I(i) + " = " + I(j) + "++", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = (*s.r[j])++; s.z[i] = *s.z[j]; *s.z[j] += 1; return true; });
                    add(FULL, I(i) + " = " + I(j) + "--", [i, j](Regs &s) { if (!s.z[j]) return false; *s.r[i] = (*s.r[j])--; s.z[i] = *s.z[j]; *s.z[j] -= 1; return true; });
                }
            }
            for (const Bin &b : bins) add((std::string("/%|").find(b.s) != std::string::npos ? MID : 0) | FULL, I(i) + " " + b.s + "= " + std::to_string(b.k), [i, &b](Regs &s) { if (!s.z[i]) return false; b.nat(*s.r[i], b.k); s.z[i] = b.z(*s.z[i], Z(b.k)); return true; });
#define MC_UN(g, text, code, model) add(g, I(i) + text, [i](Regs &s) { if (!s.z[i]) return false; BigInteger &x = *s.r[i]; Z &z = *s.z[i]; code; model; return true; })
            const unsigned c01 = i < 2 ? CORE | MID | FULL : MID | FULL;
            MC_UN(c01, "++", ++x, z += 1); MC_UN(MID | FULL, "--", --x, z -= 1);
            MC_UN(c01, ".negate()", x.negate(), z = -z); MC_UN(MID | FULL, ".abs()", x.abs(), z = zabs(z));
            MC_UN(c01, ".notSelf()", x.notSelf(), z = znot(z)); MC_UN(c01, ".notBits()", x.notBits(), z = notBitsZ(z));
            MC_UN(FULL, " <<= 0", x <<= 0, ); MC_UN(FULL, " <<= 1", x <<= 1, z *= 2); MC_UN(c01, " <<= 32", x <<= 32, z *= zpow2(32));
            MC_UN(c01, " >>= 1", x >>= 1, z = zfloorshift(z, 1)); MC_UN(c01, " >>= 32", x >>= 32, z = zfloorshift(z, 32)); MC_UN(FULL, " >>= 100", x >>= 100, z = zfloorshift(z, 100));
            MC_UN(c01, " queried", query(x), );
            MC_UN(FULL, " exported", (void)readExport(x), ); MC_UN(FULL, " as int64", (void)x.getInt64(), );
            MC_UN(FULL, " (bad string)", { bool ok = true; x.assign("12z45", 10, &ok); MC_CHECK(!ok, "bad string accepted"); }, );
#undef MC_UN
#define MC_SET(g, text, code, value) add(g, I(i) + text, [i](Regs &s) { BigInteger &x = *s.r[i]; code; s.z[i] = value; return true; })
            MC_SET(c01, " = -4294967295", x = std::int64_t(-4294967295ll), Z(-4294967295ll)); MC_SET(FULL, " = 0", x = std::int64_t(0), Z(0)); MC_SET(FULL, " = INT64_MIN", x = INT64_MIN, Z(INT64_MIN));
            MC_SET(MID | FULL, ".assign(\"-1ffffffff00000000\", 16)", x.assign("-1ffffffff00000000", 16), Z("-0x1ffffffff00000000"));
            MC_SET(FULL, ".assign(\"000\", 16)", x.assign("000", 16), Z(0));
            static const unsigned char buf[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0xff};
            MC_SET(MID | FULL, ".fromBinary(-2^64)", x.fromBinary(buf, 9), Z(-zpow2(64))); MC_SET(FULL, ".fromBinary(empty)", x.fromBinary(buf, 0), Z(0));
#undef MC_SET
        }
        return v;
    }();
    return ops;
}
inline const std::vector<const Op *> &alphabet(unsigned g) {
    static std::map<unsigned, std::vector<const Op *>> m;
    auto &v = m[g]; if (v.empty()) for (const Op &o : allOps()) if (o.group & g) v.push_back(&o);
    return v;
}

constexpr unsigned NINIT = 6, NLONG = 2;
inline void init(Regs &s, unsigned c) {
    if (c >= NINIT) { // long numbers: lengths on both sides of the thresholds, shared
        auto ones = [](unsigned limbs) { return Z(zpow2(32ull * limbs) - 1); };
        static const Z L[] = {Z(ones(100) - (ones(3) << (32 * 50)) - 5), Z(-(zpow2(32 * 82) + (ones(1) << (32 * 40)))), Z(zpow2(32 * 161) + ones(80)), Z(ones(81))};
        const Z &x = L[(c - NINIT) * 2], &y = L[(c - NINIT) * 2 + 1];
        s.r[0] = std::make_unique<BigInteger>(parse(x)); s.z[0] = x; s.r[1] = std::make_unique<BigInteger>(*s.r[0]); s.z[1] = x; query(*s.r[1]); s.r[2] = std::make_unique<BigInteger>(parse(y)); s.z[2] = y; return;
    }
    static const Z V[] = {Z("0x1ffffffff00000001"), Z("-0x800000000000000000000000"), Z(-1), Z("0xffffffffffffffff"), Z(0), Z("-0x100000000")};
    const Z &v = V[c];
    switch (c) {
    case 0: s.r[0] = std::make_unique<BigInteger>(parse(v)); s.z[0] = v; s.r[1] = std::make_unique<BigInteger>(*s.r[0]); s.z[1] = v; s.r[2] = std::make_unique<BigInteger>(std::int64_t(3)); s.z[2] = Z(3); break; // two share
    case 1: s.r[0] = std::make_unique<BigInteger>(parse(v)); query(*s.r[0]); s.z[0] = v; s.r[1] = std::make_unique<BigInteger>(*s.r[0]); s.r[1]->negate(); s.z[1] = -v; s.r[2] = std::make_unique<BigInteger>(*s.r[1]); s.z[2] = -v; break; // a chain of copies
    case 2: s.r[0] = std::make_unique<BigInteger>(std::int64_t(-1)); s.z[0] = v; s.r[1] = std::make_unique<BigInteger>(parse(zpow2(100))); *s.r[1] >>= 99; s.z[1] = Z(2); s.r[2] = std::make_unique<BigInteger>(); s.z[2] = Z(0); break; // stale digits, default-constructed
    case 3: s.r[2] = std::make_unique<BigInteger>(parse(v)); s.z[2] = v; s.r[1] = std::make_unique<BigInteger>(*s.r[2] - *s.r[2]); s.z[1] = Z(0); s.r[0] = std::make_unique<BigInteger>(std::move(*s.r[2])); s.z[0] = v; s.z[2].reset(); break; // starts with a moved-from register
    case 4: for (int i = 0; i < R; ++i) { s.r[i] = i ? std::make_unique<BigInteger>(*s.r[0]) : std::make_unique<BigInteger>(); s.z[i] = Z(0); } break; // all share zero
    case 5: s.r[0] = std::make_unique<BigInteger>(parse(v)); s.z[0] = v; s.r[1] = std::make_unique<BigInteger>(s.r[0]->absoluted()); s.z[1] = -v; s.r[2] = std::make_unique<BigInteger>(*s.r[0]); query(*s.r[2]); s.z[2] = v; break;
    }
}
inline std::string describe(const Regs &s) {
    std::string t; for (int i = 0; i < R; ++i) t += mc::strf("%c=%s ", 'a' + i, s.z[i] ? brief(*s.z[i]).c_str() : "moved-from");
    return t;
}
// runs a history of exactly `depth` operations of alphabet g
inline void history(Regs &s, unsigned g, unsigned depth, unsigned ninit = NINIT, unsigned first = 0) {
    init(s, first + mc::choose(ninit)); MC_NOTE("start: %s", describe(s).c_str());
    const auto &A = alphabet(g);
    for (unsigned d = 0; d < depth; ++d) {
        const Op &o = *A[mc::choose(A.size())]; MC_NOTE("%s", o.name.c_str());
        if (!o.run(s)) mc::prune();
        mc::step();
    }
    if (depth) { u64 h = 17; for (int i = 0; i < R; ++i) h = mc::mix(h, s.z[i] ? zhash(*s.z[i]) : 1); mc::state(h); }
}
} // namespace hist
