// Operand spaces and the reference model shared by the sequential harnesses.
// Reference values are boost::multiprecision::cpp_int ("Z"); the library is used through its public headers only.
#pragma once
#include "mc.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "errInfos.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>
#include <map>
#include <memory>

namespace bn {
using Z = boost::multiprecision::cpp_int;
using pgbn::BigInteger;
using pgbn::BigIntegerImpl;
using mc::u32;
using mc::u64;

inline Z zabs(const Z &z) { return z < 0 ? Z(-z) : z; }
inline std::string zhex(const Z &z) { // canonical radix 16
    if (z == 0) return "0";
    std::string s; Z a = zabs(z);
    boost::multiprecision::export_bits(a, std::back_inserter(s), 4);
    for (char &c : s) c = "0123456789abcdef"[(unsigned char)c];
    return (z < 0 ? "-" : "") + s;
}
inline std::string zdec(const Z &z) { return z.str(); }
inline std::string brief(const Z &z) { std::string s = zhex(z); if (s.size() > 90) s = s.substr(0, 40) + ".." + s.substr(s.size() - 40) + "(" + std::to_string(s.size()) + " hex digits)"; return "0x" + s; }
inline std::vector<unsigned char> zmag(const Z &z) { // little-endian magnitude bytes, no leading zeros
    std::vector<unsigned char> v; if (z == 0) return v;
    boost::multiprecision::export_bits(zabs(z), std::back_inserter(v), 8, false);
    return v;
}
inline Z zfromMag(const unsigned char *p, size_t n, bool neg) {
    while (n && !p[n - 1]) --n;
    Z z = 0; if (n) boost::multiprecision::import_bits(z, p, p + n, 8, false);
    return neg ? Z(-z) : z;
}
inline Z zpow2(u64 k) { Z z = 1; z <<= k; return z; }
inline Z zfloorshift(const Z &z, u64 k) { if (z >= 0) return z >> k; Z a = -z - 1; a >>= k; return -a - 1; } // floor(z / 2^k)
inline size_t zbits(const Z &z) { return z == 0 ? 0 : boost::multiprecision::msb(zabs(z)) + 1; }
inline Z zmod2(const Z &z, u64 k) { Z m = zpow2(k), r = z % m; return r < 0 ? Z(r + m) : r; } // z mod 2^k, in [0, 2^k)
inline u64 zlow64(const Z &z) { return zmod2(z, 64).convert_to<u64>(); }
// bitwise operations on infinite two's complement, through an offset window wide enough for both
template <class F> inline Z zbitop(const Z &a, const Z &b, F f) {
    const size_t k = std::max(zbits(a), zbits(b)) + 2;
    Z r = f(zmod2(a, k), zmod2(b, k));
    return r >= zpow2(k - 1) ? Z(r - zpow2(k)) : r;
}
inline Z zand(const Z &a, const Z &b) { return zbitop(a, b, [](Z x, const Z &y) { return Z(x & y); }); }
inline Z zor(const Z &a, const Z &b) { return zbitop(a, b, [](Z x, const Z &y) { return Z(x | y); }); }
inline Z zxor(const Z &a, const Z &b) { return zbitop(a, b, [](Z x, const Z &y) { return Z(x ^ y); }); }
inline Z znot(const Z &a) { return -a - 1; }
inline u64 zhash(const Z &z) { u64 h = z < 0 ? 7 : 3; const size_t n = z.backend().size(); for (size_t i = 0; i < n; ++i) h = mc::mix(h, z.backend().limbs()[i]); return h; }
inline Z zi64(std::int64_t v) { return Z(v); }

// two's complement bytes of z in n bytes (must fit)
inline std::vector<unsigned char> ztwos(const Z &z, size_t n) {
    std::vector<unsigned char> m = zmag(zmod2(z, 8 * n)); m.resize(n, 0); return m;
}

// ---- observing an implementation value -------------------------------------------------------------------------
// The value of a number is read through the magnitude export; if that disagrees with what is expected, the hexadecimal
// string decides (so a broken export alone is not blamed on arithmetic; C06/C08/C11 judge the observers themselves).
inline Z readExport(const BigInteger &x) {
    static thread_local std::vector<unsigned char> buf(1 << 12);
    while (true) {
        u64 n = x.copyMagDataTo(buf.data(), buf.size());
        if (n < buf.size()) return zfromMag(buf.data(), n, x.isNegative());
        buf.resize(buf.size() * 4);
    }
}
inline bool eq(const BigInteger &x, const Z &z) {
    if (readExport(x) == z) return true;
    return x.toString(16) == zhex(z);
}
inline std::string show(const BigInteger &x) { std::string s = x.toString(16); if (s.size() > 90) s = s.substr(0, 40) + ".." + s.substr(s.size() - 40) + "(" + std::to_string(s.size()) + ")"; return "0x" + s; }

// ---- operands ---------------------------------------------------------------------------------------------------
struct Val {
    Z z; std::string hex, dec; std::vector<unsigned char> le; // minimal+1 byte two's complement
    u64 h;
    explicit Val(const Z &v) : z(v), hex(zhex(v)), le(ztwos(v, zbits(v) / 8 + 1)), h(zhash(v)) { }
};
typedef std::vector<Val> Vals;

inline const std::vector<u32> &alpha8() { static std::vector<u32> a{0, 1, 2, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}; return a; }
inline const std::vector<u32> &alpha5() { static std::vector<u32> a{0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu}; return a; }
inline const std::vector<u32> &alpha3() { static std::vector<u32> a{0, 1, 0xffffffffu}; return a; }

inline Z fromLimbs(const std::vector<u32> &l) { Z z = 0; for (size_t i = l.size(); i--;) { z <<= 32; z += l[i]; } return z; }
// every magnitude of lo..hi limbs over the alphabet (top limb non-zero), with both signs if asked; 0 included if lo == 0
inline Vals limbVals(const std::vector<u32> &alpha, unsigned lo, unsigned hi, bool signs = true) {
    Vals v;
    if (lo == 0) { v.emplace_back(Z(0)); lo = 1; }
    for (unsigned n = lo; n <= hi; ++n) {
        std::vector<unsigned> d(n, 0);
        while (true) {
            if (alpha[d[n - 1]] != 0) {
                std::vector<u32> l(n); for (unsigned i = 0; i < n; ++i) l[i] = alpha[d[i]];
                Z z = fromLimbs(l); v.emplace_back(z); if (signs) v.emplace_back(Z(-z));
            }
            unsigned i = 0; while (i < n && ++d[i] == alpha.size()) d[i++] = 0;
            if (i == n) break;
        }
    }
    return v;
}
inline const std::vector<std::int64_t> &natives() {
    static std::vector<std::int64_t> v = [] {
        std::vector<std::int64_t> r{0};
        for (std::int64_t m : {1ll, 2ll, 3ll, 10ll, 0x7fffffffll, 0x80000000ll, 0x80000001ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x100000001ll,
                               0x1ffffffffll, 0x7fffffff00000000ll, 0x7fffffff80000000ll, 0x7ffffffffffffffell, 0x7fffffffffffffffll}) { r.push_back(m); r.push_back(-m); }
        r.push_back(INT64_MIN);
        return r;
    }();
    return v;
}
// a handful of values that matter for the provenance product
inline const Vals &coreVals() {
    static Vals v = [] {
        Vals r; r.emplace_back(Z(0));
        std::vector<std::vector<u32>> m{{1}, {2}, {0x80000000u}, {0xffffffffu}, {0, 1}, {1, 1}, {0xffffffffu, 0xffffffffu}, {0, 0x80000000u}, {0, 0, 1}, {0xffffffffu, 0, 0xffffffffu}, {0, 0xffffffffu, 0xffffffffu}, {1, 0, 0, 0x80000000u}};
        for (auto &l : m) { Z z = fromLimbs(l); r.emplace_back(z); r.emplace_back(Z(-z)); }
        return r;
    }();
    return v;
}
// block patterns of n limbs: quarters and halves of zeros / ones / mixed words, for the size spaces
inline Vals patternVals(unsigned n, unsigned npat = 99) {
    Vals v;
    auto add = [&](std::function<u32(unsigned)> f) {
        if (v.size() >= npat) return;
        std::vector<u32> l(n); for (unsigned i = 0; i < n; ++i) l[i] = f(i);
        if (l[n - 1] == 0) l[n - 1] = 1;
        v.emplace_back(fromLimbs(l));
    };
    auto word = [](unsigned i) { u64 h = mc::mix(12345, i); return (u32)h; };
    add([&](unsigned) { return 0xffffffffu; });                                      // all ones
    add([&](unsigned i) { return i == n - 1 ? 1u : 0u; });                           // power of two
    add([&](unsigned i) { return i < n / 2 ? 0u : 0xffffffffu; });                   // low half zero
    add([&](unsigned i) { return i < n / 2 ? 0xffffffffu : i == n - 1 ? 1u : 0u; }); // high half zero but the top
    add([&](unsigned i) { return word(i); });                                        // mixed words
    add([&](unsigned i) { return i == 0 || i == n - 1 ? 1u : 0u; });                 // sparse
    add([&](unsigned i) { return (i / (n / 4 + 1)) % 2 ? 0u : 0xffffffffu; });       // quarters
    add([&](unsigned i) { return i == n / 2 ? 0x80000000u : i > n / 2 ? word(i) : 0u; }); // trailing zero limbs
    return v;
}

// ---- provenance: the ways a number can have come to hold its value ---------------------------------------------------
struct Keep { std::vector<std::unique_ptr<BigInteger>> others; std::vector<Z> values; }; // numbers that stay alive and must not change
enum Prov { HEX, BINARY, SHIFTED_DOWN, SHARED, CACHED_NEG, ADDSUB, QUOT, REM, MOVED, NOTNOT, SHIFTED_UP, REASSIGNED, XORXOR, MULTIPLIED, SELFCOPY, NPROV };
inline const char *provName(unsigned p) {
    static const char *n[] = {"parsed", "imported", "shifted down", "shared copy", "queried, negated twice", "sum minus term", "quotient", "remainder", "moved into", "complemented twice", "shifted up", "assigned over a larger number", "xored twice", "product", "copy of a changed copy"};
    return n[p];
}
inline BigInteger parse(const Z &z) { return BigInteger(zhex(z), 16); }
inline BigInteger parse(const Val &v) { return BigInteger(v.hex, 16); }
inline void query(const BigInteger &x) { (void)x.isOdd(); (void)x.get2sComplement(0); (void)x.get2sComplement(1); (void)(x < 1); (void)x.toString(16); }
inline const Z &bigK() { static Z k = zpow2(167) - 12345; return k; }
inline BigInteger make(const Val &v, unsigned p, Keep &keep) {
    switch (p) {
    case HEX: return parse(v);
    case BINARY: return BigInteger(v.le.size(), v.le.data(), true);
    case SHIFTED_DOWN: { BigInteger x(parse(Z(v.z * zpow2(101)))); query(x); x >>= 101; return x; }
    case SHARED: { auto o = std::make_unique<BigInteger>(parse(v)); query(*o); BigInteger x(*o); keep.others.push_back(std::move(o)); keep.values.push_back(v.z); return x; }
    case CACHED_NEG: { BigInteger x(parse(Z(-v.z))); query(x); x.negate(); query(x); x.negate(); query(x); x.negate(); return x; }
    case ADDSUB: { BigInteger x(parse(Z(v.z + bigK()))), k(parse(bigK())); query(x); x -= k; return x; }
    case QUOT: { Z d = zpow2(97) + 3; Z n = v.z * d + (v.z < 0 ? -2 : 2); if (v.z == 0) n = 2; BigInteger x(parse(n)), y(parse(d)); query(x); x /= y; return x; }
    case REM: { Z m = zpow2(zbits(v.z) + 40) + 1; Z n = v.z < 0 ? Z(v.z - 5 * m) : Z(v.z + 5 * m); BigInteger x(parse(n)), y(parse(m)); query(x); x %= y; return x; }
    case MOVED: { BigInteger y(parse(v)); query(y); BigInteger x(parse(bigK())); x = std::move(y); return x; }
    case NOTNOT: { BigInteger x(parse(v)); query(x); x.notSelf(); query(x); x.notSelf(); return x; }
    case SHIFTED_UP: { u64 t = v.z == 0 ? 3 : boost::multiprecision::lsb(zabs(v.z)); BigInteger x(parse(zfloorshift(v.z, t))); query(x); x <<= t; return x; }
    case REASSIGNED: { BigInteger x(parse(bigK())); query(x); x.assign(v.hex, 16); return x; }
    case XORXOR: { BigInteger x(parse(v)), k(parse(bigK())); query(x); x ^= k; query(x); x ^= k; return x; }
    case MULTIPLIED: { BigInteger x(parse(v)), y(std::int64_t(-1)); query(x); x *= y; x *= y; return x; }
    case SELFCOPY: { auto o = std::make_unique<BigInteger>(parse(v)); BigInteger x(*o); *o += 1; keep.others.push_back(std::move(o)); keep.values.push_back(v.z + 1); return x; }
    }
    return BigInteger();
}
// numbers that stay alive next to an operand keep their value
inline void checkKeep(const Keep &k) {
    for (size_t i = 0; i < k.others.size(); ++i)
        MC_CHECK(eq(*k.others[i], k.values[i]), "a number that shares history with an operand changed: is %s, was %s", show(*k.others[i]).c_str(), brief(k.values[i]).c_str());
}

inline void quietDivBy0(bool *flag = nullptr) { // replaces the default callback, which ends the process
    static bool dummy; static bool *f; f = flag ? flag : &dummy;
    pgbn::Status::registe(pgbn::ErrCode::DIVBY0, "div by zero", [] { *f = true; });
}
} // namespace bn
