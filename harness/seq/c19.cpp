// C19: fraction arithmetic is exact and in lowest terms.
#include "frac.h"
using namespace fr;
static void div0Setup(bool *f) { *f = false; quietDivBy0(f); *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; }
static void construct(const Z &n, const Z &d) {
    bool cb; div0Setup(&cb); const BigInteger bn_(parse(n)), bd(parse(d)); bool ok = d == 0; mc::step(); MC_NOTE("Fraction(%s, %s)", brief(n).c_str(), brief(d).c_str()); mc::state(mc::mix(zhash(n), zhash(d)));
    const Fraction f(bn_, bd, &ok); const bool reported = cb && statusIs(pgbn::ErrCode::DIVBY0);
    MC_CHECK(ok == (d != 0), "ok is %d", ok); MC_CHECK(reported == (d == 0), d == 0 ? "divide-by-zero was not reported" : "a divide-by-zero was reported");
    MC_CHECK(eq(bn_, n) && eq(bd, d), "the arguments changed");
    if (d == 0) return;
    const Q x = q(n, d); checkFrac(f, x, "the fraction"); for (int r : {2, 10, 16, 36}) checkText(f, x, r);
    const Fraction g(bn_, bd); checkFrac(g, x, "the fraction built without ok"); const Fraction h(g); checkFrac(h, x, "a copy");
    if (d == 1) { const Fraction i{parse(n)}; checkFrac(i, x, "an integer fraction"); }
    bool ok2 = n == 0; const Fraction r = f.reciprocal(&ok2); const bool rep2 = statusIs(pgbn::ErrCode::DIVBY0); MC_CHECK(ok2 == (n != 0), "reciprocal: ok is %d", ok2); MC_CHECK(den(r) != 0, "the reciprocal has a zero denominator");
    if (n != 0) { checkFrac(r, q(d, n), "the reciprocal"); MC_CHECK(!rep2 && !cb, "the reciprocal of a non-zero fraction reported divide-by-zero"); } else MC_CHECK(rep2 && cb, "the reciprocal of zero did not report divide-by-zero");
    checkFrac(f, x, "the fraction after taking its reciprocal"); (void)f.reciprocal();
}
static void binary(const Q &a, const Q &b, const Fraction &f, const Fraction &g, const char *how) {
    bool cb; div0Setup(&cb); MC_NOTE("%s op %s (%s)", qs(a).c_str(), qs(b).c_str(), how); mc::step(4); mc::state(mc::mix(mc::mix(zhash(a.n), zhash(a.d)), mc::mix(zhash(b.n), zhash(b.d))));
    checkFrac(f + g, a + b, "the sum"); checkFrac(f - g, a - b, "the difference"); checkFrac(f * g, a * b, "the product"); MC_CHECK(!cb, "+, - or * reported divide-by-zero");
    if (b.n != 0) { checkFrac(f / g, a / b, "the quotient"); MC_CHECK(!cb, "a quotient by a non-zero fraction reported divide-by-zero"); } else { (void)(f / g); const bool s = statusIs(pgbn::ErrCode::DIVBY0); MC_CHECK(cb && s, "a quotient by zero did not report divide-by-zero"); }
    checkFrac(f, a, "the left operand afterwards"); checkFrac(g, b, "the right operand afterwards");
}
MC_SPACE("every small numerator and denominator", 1) { const int B = mc::tier() ? 60 : 24; construct(Z((int)mc::choose(2 * B + 1) - B), Z((int)mc::choose(2 * B + 1) - B)); }
MC_SPACE("boundary numerators and denominators", 1) { static const std::vector<Z> V = [] { std::vector<Z> v = bigs(); for (const Val &x : limbVals(alpha3(), 1, mc::tier() ? 3 : 2)) v.push_back(x.z); return v; }(); construct(mc::pick(V), mc::pick(V)); }
MC_SPACE("long numerators and denominators", 1) { construct(mc::pick(longs()) + (int)mc::choose(2), mc::pick(longs())); }
MC_SPACE("every operation on long fractions", 2) {
    const Z &a = mc::pick(longs()), &b = mc::pick(longs()), &d = mc::pick(longs()), &e = mc::pick(longs());
    const Fraction f(parse(a), parse(b)), g(parse(d), parse(e)); binary(q(a, b), q(d, e), f, g, "constructed");
}
MC_SPACE("every operation on small fractions", 2) {
    const int B = mc::tier() ? 10 : 6; auto c = [&] { return (int)mc::choose(2 * B + 1) - B; }; const int a = c(), b = c(), d = c(), e = c(); if (!b || !e) mc::prune();
    const Fraction f(parse(Z(a)), parse(Z(b))), g(parse(Z(d)), parse(Z(e))); binary(q(a, b), q(d, e), f, g, "constructed");
}
MC_SPACE("every operation on boundary fractions", 2) {
    const Z &a = mc::pick(bigs()), &b = mc::pick(bigs()), &d = mc::pick(bigs()), &e = mc::pick(bigs()); if (b == 0 || e == 0) mc::prune();
    const Fraction f(parse(a), parse(b)), g(parse(d), parse(e)); binary(q(a, b), q(d, e), f, g, "constructed");
}
MC_SPACE("operands that share storage or are the same object", 1) {
    const Z &a = mc::pick(bigs()), &b = mc::pick(bigs()); if (b == 0) mc::prune(); const unsigned how = mc::choose(3); const Fraction f(parse(a), parse(b)); const Q x = q(a, b);
    if (how == 0) binary(x, x, f, f, "the same object"); else if (how == 1) { const Fraction g(f); binary(x, x, f, g, "a copy"); } else { Fraction g(f); g.setNum(g.getDen()); checkFrac(g, q(1, 1), "setNum(getDen())"); Fraction h(f); if (a != 0) { h.setDen(h.getNum()); checkFrac(h, q(1, 1), "setDen(getNum())"); } binary(x, q(1, 1), f, g, "after setters"); }
}
MC_SPACE("every radix", 1) { const int r = 2 + (int)mc::choose(35); const Z &a = mc::pick(bigs()), &b = mc::pick(bigs()); if (b == 0) mc::prune(); const Fraction f(parse(a), parse(b)); mc::step(); checkText(f, q(a, b), r); if (r == 10) MC_CHECK(f.toString() == f.toString(10), "default radix"); }
// histories on two fractions, with every setter
struct Reg { Fraction f; Q x{0, 1}; };
static void fix(Reg &r, const Q &x, const char *what) { r.x = x; checkFrac(r.f, x, what); }
static void opOn(Reg *r, unsigned o) {
    static const Z K[] = {Z(0), Z(6), Z(-4), zpow2(64)}; bool cb; div0Setup(&cb); const unsigned i = o & 1, j = 1 - i; Reg &a = r[i], &b = r[j]; const unsigned k = o >> 1;
    if (k < 4) { MC_NOTE("%c.setNum(%s)", 'a' + i, brief(K[k]).c_str()); const Z d = den(a.f); a.f.setNum(parse(K[k])); fix(a, q(K[k], d), "setNum"); MC_CHECK(!cb, "setNum reported divide-by-zero"); }
    else if (k < 8) { const Z &v = K[k - 4]; MC_NOTE("%c.setDen(%s)", 'a' + i, brief(v).c_str()); const Z n = num(a.f); bool ok = v == 0; a.f.setDen(parse(v), &ok); const bool s = statusIs(pgbn::ErrCode::DIVBY0); MC_CHECK(ok == (v != 0), "setDen: ok is %d", ok); MC_CHECK((cb && s) == (v == 0), "setDen: divide-by-zero reported: %d", cb && s); fix(a, v == 0 ? a.x : q(n, v), "setDen"); }
    else switch (k) {
        case 8: MC_NOTE("%c = %c + %c", 'a' + i, 'a' + i, 'a' + j); a.f = a.f + b.f; fix(a, a.x + b.x, "sum"); break;
        case 9: MC_NOTE("%c = %c - %c", 'a' + i, 'a' + j, 'a' + i); a.f = b.f - a.f; fix(a, b.x - a.x, "difference"); break;
        case 10: MC_NOTE("%c = %c * %c", 'a' + i, 'a' + i, 'a' + j); a.f = a.f * b.f; fix(a, a.x * b.x, "product"); break;
        case 11: if (b.x.n == 0) mc::prune(); MC_NOTE("%c = %c / %c", 'a' + i, 'a' + i, 'a' + j); a.f = a.f / b.f; fix(a, a.x / b.x, "quotient"); break;
        case 12: { MC_NOTE("%c = 1/%c", 'a' + i, 'a' + i); if (a.x.n == 0) { bool ok = true; (void)a.f.reciprocal(&ok); MC_CHECK(!ok && cb, "reciprocal of zero not reported"); } else { a.f = a.f.reciprocal(); fix(a, q(a.x.d, a.x.n), "reciprocal"); } break; }
        case 13: MC_NOTE("%c = %c", 'a' + i, 'a' + j); a.f = b.f; fix(a, b.x, "copy"); break;
        case 14: MC_NOTE("%c = move, swap", 'a' + i); std::swap(a.f, b.f); std::swap(a.x, b.x); break;
        case 15: MC_NOTE("%c - %c", 'a' + i, 'a' + i); a.f = a.f - a.f; fix(a, q(0, 1), "self difference"); break;
        case 16: if (b.x.n != 0) mc::prune(); MC_NOTE("%c / 0", 'a' + i); (void)(a.f / b.f); MC_CHECK(cb, "division by zero not reported"); break;
        case 17: { MC_NOTE("%c.setDen(0) without ok", 'a' + i); a.f.setDen(BigInteger(std::int64_t(0))); fix(a, a.x, "setDen(0)"); MC_CHECK(cb, "setDen(0) not reported"); break; }
    }
    mc::step(); checkFrac(a.f, a.x, "first fraction"); checkFrac(b.f, b.x, "second fraction");
}
MC_SPACE("every history of operations and setters on two fractions", 2) {
    Reg r[2]; static const int S[3][4] = {{0, 1, 1, 1}, {3, -2, 4, 6}, {-7, 5, 10, 3}}; const int *s = S[mc::choose(3)]; for (int i = 0; i < 2; ++i) { r[i].f = Fraction(parse(Z(s[2 * i])), parse(Z(s[2 * i + 1]))); r[i].x = q(s[2 * i], s[2 * i + 1]); }
    if (s == S[0]) r[0].f = Fraction(); // default
    for (unsigned d = 0; d < (mc::tier() ? 5u : 4u); ++d) opOn(r, mc::choose(36));
    for (int i = 0; i < 2; ++i) { checkText(r[i].f, r[i].x, 10); mc::state(mc::mix(zhash(r[i].x.n), zhash(r[i].x.d))); }
}
MC_MAIN()
