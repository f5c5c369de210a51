// Numbers at sizes where a 16-bit count, a 32-bit bit count's low half or a fixed table would run out: up to 131072 limbs.
// Values are built by shifting and imported as bytes; every check costs time linear in the size.
#pragma once
#include "bn.h"
namespace bn {
inline const std::vector<unsigned> &giantSizes() { static std::vector<unsigned> v{255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001}; if (mc::tier() && v.size() == 19) { v.push_back(131071); v.push_back(131072); v.push_back(131073); v.push_back(300000); } return v; }
enum { NGIANT = 6 };
inline Z giant(unsigned n, unsigned p) { // n limbs
    switch (p) {
    case 0: return zpow2(32ull * n) - 1;                                   // all ones
    case 1: return zpow2(32ull * (n - 1));                                 // power of two, lowest of its length
    case 2: return zpow2(32ull * n - 1);                                   // power of two, the top bit
    case 3: return zpow2(32ull * n - 7) + 1;                               // both ends
    case 4: { const unsigned k = n / 2; return (zpow2(32ull * n) - 1) - (zpow2(32ull * k) - 1); } // low half zero
    }
    std::vector<unsigned char> b(4ull * n); u64 h = n; for (auto &c : b) { h = h * 6364136223846793005ull + 1442695040888963407ull; c = h >> 56; } b.back() |= 0x40; // mixed
    return zfromMag(b.data(), b.size(), false);
}
inline BigInteger big(const Z &z) { const std::vector<unsigned char> b = ztwos(z, zbits(z) / 8 + 1); return BigInteger(b.size(), b.data(), true); }
inline Z pickGiant() { const unsigned n = mc::pick(giantSizes()), p = mc::choose(NGIANT); return giant(n, p); }
} // namespace bn
