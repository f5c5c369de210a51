// C10: numbers are independent values, over every history of operations on three registers.
#include "hist.h"
#include "histimpl.h"
using namespace hist;
static void run(unsigned g, unsigned depth, unsigned ninit = NINIT, unsigned first = 0) {
    Regs s; history(s, g, depth, ninit, first);
    for (int i = 0; i < R; ++i) if (s.z[i]) MC_CHECK(eq(*s.r[i], *s.z[i]), "after the history %c is %s, as independent values it would be %s", 'a' + i, show(*s.r[i]).c_str(), brief(*s.z[i]).c_str());
    // a moved-from number is assignable, in every way
    for (int i = 0; i < R; ++i) if (!s.z[i]) { *s.r[i] = std::int64_t(-77); MC_CHECK(eq(*s.r[i], Z(-77)), "assigning -77 to the moved-from %c gives %s", 'a' + i, show(*s.r[i]).c_str()); s.z[i] = Z(-77); }
    // every register can be destroyed while the others keep their values
    const Z before[R] = {*s.z[0], *s.z[1], *s.z[2]};
    for (int i = 0; i < R; ++i) {
        s.r[i].reset(); // operations on the rest must not be affected either
        for (int j = i + 1; j < R; ++j) MC_CHECK(eq(*s.r[j], before[j]), "destroying %c changed %c to %s", 'a' + i, 'a' + j, show(*s.r[j]).c_str());
    }
}
MC_SPACE("all histories of one operation, full alphabet", 1) { run(FULL, 1); }
MC_SPACE("all histories of two operations, full alphabet", 2) { run(FULL, 2); }
MC_SPACE("long numbers: all histories of two operations", 2) { run(mc::tier() ? FULL : MID, 2, NLONG, NINIT); }
MC_SPACE_T("long numbers: all histories of three operations, core alphabet", 2) { run(CORE, 3, NLONG, NINIT); }
MC_SPACE("all histories of three operations, medium alphabet", 3) { run(MID, 3, mc::tier() ? NINIT : 3); }
MC_SPACE("all histories of four operations, core alphabet", 3) { run(CORE, 4, mc::tier() ? NINIT : 1); }
MC_SPACE_T("all histories of three operations, full alphabet", 3) { run(FULL, 3, 2); }
MC_SPACE_T("all histories of five operations, core alphabet", 3) { run(CORE, 5, 1); }
// each way of moving x each way of assigning the moved-from number afterwards
MC_SPACE("moved-from numbers are assignable in every way", 1) {
    const Val &v = mc::pick(coreVals()); const unsigned p = mc::choose(NPROV), how = mc::choose(4), re = mc::choose(8);
    Keep k; BigInteger x(make(v, p, k)); std::unique_ptr<BigInteger> sink; BigInteger y(std::int64_t(5));
    MC_NOTE("value %s (%s), move %u, assign %u", brief(v.z).c_str(), provName(p), how, re); mc::step(); mc::state(mc::mix(v.h, p * 64 + how * 8 + re));
    switch (how) { case 0: sink = std::make_unique<BigInteger>(std::move(x)); break; case 1: y = std::move(x); break; case 2: { BigInteger t(std::move(x)); y = t; break; } case 3: { std::vector<BigInteger> vec; vec.push_back(std::move(x)); vec.emplace_back(std::int64_t(1)); vec.emplace_back(std::int64_t(2)); y = vec[0]; break; } }
    MC_CHECK(eq(how == 0 ? *sink : y, v.z), "the moved-to number is %s", show(how == 0 ? *sink : y).c_str());
    Z want; BigInteger other(parse(bigK())); static const unsigned char b[5] = {1, 2, 3, 4, 0x85};
    switch (re) {
    case 0: x = std::int64_t(-9); want = -9; break; case 1: x.assign(std::int64_t(4294967295ll)); want = Z(4294967295ll); break; case 2: x.assign("-zz", 36); want = -(35 * 36 + 35); break;
    case 3: x.fromBinary(b, 5, true); want = Z(0x04030201ll) + Z(0x85) * zpow2(32) - zpow2(40); break; case 4: x = other; want = bigK(); break; case 5: x = std::move(other); want = bigK(); break;
    case 6: x = BigInteger(other * other); want = bigK() * bigK(); break; case 7: x = how == 0 ? *sink : y; want = v.z; break;
    }
    MC_CHECK(eq(x, want), "assigned to a moved-from number: %s, expected %s", show(x).c_str(), brief(want).c_str());
    x += 1; x *= x; x -= 3; want = (want + 1) * (want + 1) - 3; MC_CHECK(eq(x, want), "computing with a reused moved-from number: %s, expected %s", show(x).c_str(), brief(want).c_str());
    MC_CHECK(eq(how == 0 ? *sink : y, v.z), "reusing the moved-from number changed the moved-to one to %s", show(how == 0 ? *sink : y).c_str()); checkKeep(k);
}
// containers copy, move and destroy their elements in many orders
MC_SPACE("numbers in a reallocating container, sorted and erased", 1) {
    const unsigned n = 1 + mc::choose(5); std::vector<BigInteger> v; std::vector<Z> z; static const std::vector<Z> A{Z(0), Z(-1), zpow2(32), -zpow2(64) + 1};
    for (unsigned i = 0; i < n; ++i) { const Z &a = mc::pick(A); if (i && mc::choose(2)) { const BigInteger t(v[0]); v.push_back(t); z.push_back(z[0]); } else { v.push_back(parse(a)); z.push_back(a); } v.back() += (std::int64_t)i; z.back() += i; }
    mc::step(); const unsigned op = mc::choose(3);
    if (op == 0) { std::sort(v.begin(), v.end()); std::sort(z.begin(), z.end()); } else if (op == 1) { v.erase(v.begin()); z.erase(z.begin()); } else { v.insert(v.begin(), BigInteger(v.back())); z.insert(z.begin(), Z(z.back())); }
    MC_NOTE("%u numbers, operation %u", n, op);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(eq(v[i], z[i]), "element %zu is %s, expected %s", i, show(v[i]).c_str(), brief(z[i]).c_str());
}
// the internal number type's own interface
MC_SPACE("internal numbers: all histories of two operations, full alphabet", 2) { histi::Regs s; histi::history(s, histi::FULL, 2, mc::tier() ? 4 : 2); histi::verify(s); }
MC_SPACE("internal numbers: all histories of three operations, core alphabet", 2) { histi::Regs s; histi::history(s, histi::CORE, 3, mc::tier() ? 4 : 2); histi::verify(s); }
MC_SPACE_T("internal numbers: all histories of three operations, full alphabet", 3) { histi::Regs s; histi::history(s, histi::FULL, 3, 1); histi::verify(s); }
MC_MAIN()
