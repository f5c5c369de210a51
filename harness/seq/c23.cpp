// C23: every window behaves as a plain list. Model: one vector per window plus the set of windows sharing its storage.
#include "mc.h"
#include "Slice.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
using mc::u32; using mc::u64;
typedef pgbn::Slice<std::uint32_t> W;
typedef std::vector<std::uint32_t> V;
struct Win { W w; V v; int group; };
struct World {
    Win w[3]; unsigned n; int nextGroup = 0; u32 nextValue = 100; std::shared_ptr<V> kept; V keptValue; int keptGroup = -1;
    explicit World(unsigned k) : n(k) { for (unsigned i = 0; i < n; ++i) w[i].group = nextGroup++; }
    unsigned owners(int g) const { unsigned c = g == keptGroup && kept; for (unsigned i = 0; i < n; ++i) c += w[i].group == g; return c; }
    void detach(unsigned i) { w[i].w.cloneData(); if (owners(w[i].group) > 1) w[i].group = nextGroup++; }
    u32 fresh() { return nextValue++; }
};
static std::string text(const V &v) { std::string s = "["; for (u32 x : v) s += std::to_string(x) + " "; return s + "]"; }
static V read(const W &w) { return V(w.begin(), w.end()); }
static void checkOne(const Win &x, unsigned i) {
    const W &c = x.w; MC_CHECK(c.count() == x.v.size(), "window %u has %zu elements, the list has %zu", i, (size_t)c.count(), x.v.size());
    const V r = read(c); MC_CHECK(r == x.v, "window %u is %s, the list is %s", i, text(r).c_str(), text(x.v).c_str());
    for (size_t k = 0; k < x.v.size(); ++k) MC_CHECK(c[k] == x.v[k], "window %u: element %zu is %u, expected %u", i, k, c[k], x.v[k]);
    W &m = const_cast<W &>(c); MC_CHECK(V(m.begin(), m.end()) == x.v, "window %u: non-const iteration", i); for (size_t k = 0; k < x.v.size(); ++k) MC_CHECK(m[k] == x.v[k], "window %u: non-const element %zu", i, k);
}
static void check(const World &s) {
    u64 h = 7;
    for (unsigned i = 0; i < s.n; ++i) { checkOne(s.w[i], i); h = mc::mix(h, s.w[i].v.size() * 64 + s.w[i].group); MC_CHECK(s.w[i].w.weakEquals(s.w[i].w) && s.w[i].w.hasSameBaseData(s.w[i].w), "window %u does not equal itself", i);
        for (unsigned j = 0; j < s.n; ++j) if (i != j) { if (s.w[i].w.weakEquals(s.w[j].w)) MC_CHECK(s.w[i].v == s.w[j].v, "weakEquals holds for %s and %s", text(s.w[i].v).c_str(), text(s.w[j].v).c_str()); if (s.w[i].group != s.w[j].group) MC_CHECK(!s.w[i].w.hasSameBaseData(s.w[j].w) && !s.w[i].w.weakEquals(s.w[j].w), "independent windows %u and %u share storage", i, j); } }
    if (s.kept) MC_CHECK(s.kept->size() >= s.keptValue.size() && std::equal(s.keptValue.begin(), s.keptValue.end(), s.kept->begin()), "the vector a window was built on changed: %s", text(*s.kept).c_str());
    mc::state(h);
}
struct Op { std::string name; std::function<bool(World &)> f; };
typedef std::vector<Op> Ops;
// element i of the list an operation slice(lo, hi) leaves: existing elements, then defaults
static V sliceModel(const V &v, size_t lo, size_t hi) { V r; if (lo == hi) return r; for (size_t i = lo; i < hi; ++i) r.push_back(i < v.size() ? v[i] : 0); return r; }
static void addSingle(Ops &o, unsigned i, int level) {
    auto add = [&](const char *n, std::function<bool(World &, Win &)> f) { o.push_back({std::string(n) + " on window " + std::to_string(i), [i, f](World &s) { return f(s, s.w[i]); }}); };
    add("append", [i](World &s, Win &x) { s.detach(i); u32 v = s.fresh(); W &r = x.w.append(v); x.v.push_back(v); return &r == &x.w; });
    add("prepend", [i](World &s, Win &x) { s.detach(i); u32 v = s.fresh(); W &r = x.w.prepend(v); x.v.insert(x.v.begin(), v); return &r == &x.w; });
    for (unsigned n : {1u, 2u, 5u, 0u}) if (level > 1 || n == 2) add(("preExtend " + std::to_string(n)).c_str(), [i, n](World &s, Win &x) { s.detach(i); x.w.preExtend(n); x.v.insert(x.v.begin(), n, 0u); return true; });
    if (level) for (unsigned n : {1u, 3u}) if (level > 1 || n == 1) add(("preExtend with a value " + std::to_string(n)).c_str(), [i, n](World &s, Win &x) { s.detach(i); u32 v = s.fresh(); x.w.preExtend(n, v); x.v.insert(x.v.begin(), n, v); return true; });
    struct Cut { const char *n; std::function<bool(size_t c, size_t &lo, size_t &hi)> f; bool deep; };
    static const std::vector<Cut> cuts{{"drop first", [](size_t c, size_t &l, size_t &h) { l = 1; h = c; return c >= 2; }, false}, {"drop last", [](size_t c, size_t &l, size_t &h) { l = 0; h = c - 1; return c >= 2; }, false}, {"clear (0,0)", [](size_t, size_t &l, size_t &h) { l = h = 0; return true; }, false}, {"grow by 1", [](size_t c, size_t &l, size_t &h) { l = 0; h = c + 1; return true; }, false},
        {"middle", [](size_t c, size_t &l, size_t &h) { l = 1; h = c - 1; return c >= 3; }, true}, {"keep all", [](size_t c, size_t &l, size_t &h) { l = 0; h = c; return c >= 1; }, true}, {"clear (1,1)", [](size_t c, size_t &l, size_t &h) { l = h = 1; return c >= 1; }, true}, {"clear (c,c)", [](size_t c, size_t &l, size_t &h) { l = h = c; return c >= 2; }, true},
        {"grow by 3", [](size_t c, size_t &l, size_t &h) { l = 0; h = c + 3; return true; }, true}, {"drop first, grow by 2", [](size_t c, size_t &l, size_t &h) { l = 1; h = c + 2; return c >= 1; }, true}, {"only the grown part", [](size_t c, size_t &l, size_t &h) { l = c; h = c + 2; return true; }, true}};
    for (const Cut &c : cuts) if (level > 1 || !c.deep) add(c.n, [i, &c](World &s, Win &x) { size_t lo, hi; if (!c.f(x.v.size(), lo, hi)) return false; if (hi > x.v.size()) s.detach(i); x.w.slice(lo, hi); x.v = sliceModel(x.v, lo, hi); return true; });
    add("write first", [i](World &s, Win &x) { if (x.v.empty()) return false; s.detach(i); u32 v = s.fresh(); x.w[0] = v; x.v[0] = v; return true; });
    if (level) add("write last through the iterator", [i](World &s, Win &x) { if (x.v.empty()) return false; s.detach(i); u32 v = s.fresh(); *(x.w.end() - 1) = v; x.v.back() = v; return true; });
    if (level > 1) add("fill through the iterators", [i](World &s, Win &x) { s.detach(i); u32 v = s.fresh(); for (auto it = x.w.begin(); it != x.w.end(); ++it) *it = v; std::fill(x.v.begin(), x.v.end(), v); return true; });
    add("cloneData", [i](World &s, Win &) { s.detach(i); return true; });
    if (level) add("assigned a new window", [](World &s, Win &x) { x.w = W(); x.v.clear(); x.group = s.nextGroup++; return true; });
    if (level > 1) for (int keep = 0; keep < 2; ++keep) for (unsigned k = 0; k < 5; ++k) { static const unsigned R[5][2] = {{0, 99}, {1, 99}, {1, 3}, {3, 4}, {2, 6}};
        add((std::string("window ") + std::to_string(R[k][0]) + ".." + std::to_string(R[k][1]) + " of a vector" + (keep ? " kept by the caller" : "")).c_str(), [k, keep](World &s, Win &x) {
            if (keep && s.kept) return false; auto p = std::make_shared<V>(); for (int j = 0; j < 4; ++j) p->push_back(s.fresh()); const V before = *p; size_t lo = R[k][0], hi = R[k][1] == 99 ? 4 : R[k][1];
            x.w = R[k][1] == 99 ? (lo ? W(p, lo) : W(p)) : W(p, lo, hi); x.v = sliceModel(before, lo, hi); x.group = s.nextGroup++; if (keep) { s.kept = p; s.keptValue = before; s.keptGroup = x.group; } return true; }); }
}
static void addPair(Ops &o, unsigned i, unsigned j, int level) {
    auto add = [&](const char *n, std::function<bool(World &, Win &, Win &)> f) { o.push_back({std::string(n) + " window " + std::to_string(i) + " <- window " + std::to_string(j), [i, j, f](World &s) { return f(s, s.w[i], s.w[j]); }}); };
    add("copy assign", [](World &, Win &a, Win &b) { a.w = b.w; a.v = b.v; a.group = b.group; return true; });
    if (i == j) { if (level) add("swap with itself", [](World &, Win &a, Win &b) { a.w.swap(b.w); return true; }); return; }
    add("move assign", [](World &s, Win &a, Win &b) { a.w = std::move(b.w); a.v = std::move(b.v); b.v.clear(); a.group = b.group; b.group = s.nextGroup++; return true; });
    add("sliced tail", [](World &, Win &a, Win &b) { if (b.v.size() < 2) return false; a.w = b.w.sliced(1, b.v.size()); a.v = sliceModel(b.v, 1, b.v.size()); a.group = b.group; return true; });
    if (level) add("sliced head", [](World &, Win &a, Win &b) { if (b.v.size() < 2) return false; a.w = b.w.sliced(0, b.v.size() - 1); a.v = sliceModel(b.v, 0, b.v.size() - 1); a.group = b.group; return true; });
    if (level > 1) add("sliced empty", [](World &, Win &a, Win &b) { a.w = b.w.sliced(0, 0); a.v.clear(); a.group = b.group; return true; });
    if (level > 1) add("sliced grown", [](World &s, Win &a, Win &b) { if (s.owners(b.group) != 1) return false; const size_t c = b.v.size(); a.w = b.w.sliced(0, c + 2); a.v = sliceModel(b.v, 0, c + 2); a.group = b.group; return true; });
    if (level > 1) { add("copy construct", [](World &, Win &a, Win &b) { W t(b.w); MC_CHECK(read(t) == b.v && t.weakEquals(b.w), "copy constructed window"); a.w = t; a.v = b.v; a.group = b.group; return true; });
        add("move construct", [](World &s, Win &a, Win &b) { W t(std::move(b.w)); MC_CHECK(read(t) == b.v && b.w.count() == 0, "move constructed window"); a.w = std::move(t); a.v = std::move(b.v); b.v.clear(); a.group = b.group; b.group = s.nextGroup++; return true; }); }
    if (i < j) { add("swap", [](World &, Win &a, Win &b) { a.w.swap(b.w); std::swap(a.v, b.v); std::swap(a.group, b.group); return true; }); if (level > 1) add("free swap", [](World &, Win &a, Win &b) { swap(a.w, b.w); std::swap(a.v, b.v); std::swap(a.group, b.group); return true; }); }
}
static Ops make(unsigned n, int level) { Ops o; for (unsigned i = 0; i < n; ++i) { addSingle(o, i, level); for (unsigned j = 0; j < n; ++j) addPair(o, i, j, level); } return o; }
static void history(const Ops &ops, unsigned n, unsigned depth, void (*start)(World &) = nullptr) {
    World s(n); if (start) start(s);
    for (unsigned d = 0; d < depth; ++d) { const Op &o = mc::pick(ops); MC_NOTE("%s", o.name.c_str()); if (!o.f(s)) mc::prune(); mc::step(); check(s); }
}
// every offset of the window inside its storage and every amount of spare capacity
static void shapes(World &s) {
    auto p = std::make_shared<V>(); const unsigned front = mc::choose(4), n = mc::choose(4), back = mc::choose(3), share = mc::choose(3); for (unsigned i = 0; i < front + n + back; ++i) p->push_back(s.fresh());
    const V all = *p; MC_NOTE("window of %u elements with %u before and %u after it%s", n, front, back, share ? ", shared" : ""); if (!n && !(front + back)) mc::prune();
    Win &x = s.w[0]; if (n) x.w = W(p, front, front + n); else { x.w = front + back == front ? W(p, front - 1, front) : W(p, front, front + 1); x.w.slice(0, 0); } x.v = V(all.begin() + front, all.begin() + front + n); if (!n && front + back == front) x.v.clear(); x.group = s.nextGroup++; if (share == 2) { s.kept = p; s.keptValue = all; s.keptGroup = x.group; } p.reset();
    if (share == 1) { s.w[1].w = x.w; s.w[1].v = x.v; s.w[1].group = x.group; } check(s);
}
MC_SPACE("three windows, every operation", 2) { static const Ops o = make(3, 2); history(o, 3, mc::tier() ? 4 : 3); }
MC_SPACE("two windows, every operation", 2) { static const Ops o = make(2, 2); history(o, 2, mc::tier() ? 4 : 3); }
MC_SPACE("two windows, core operations, deeper", 2) { static const Ops o = make(2, 0); history(o, 2, mc::tier() ? 6 : 5); }
MC_SPACE("three windows, core operations, deeper", 2) { static const Ops o = make(3, 0); history(o, 3, mc::tier() ? 5 : 4); }
MC_SPACE("one window, every operation", 2) { static const Ops o = make(1, 2); history(o, 1, mc::tier() ? 5 : 4); }
MC_SPACE("one window, core operations, deeper", 2) { static const Ops o = make(1, 0); history(o, 1, mc::tier() ? 8 : 6); }
MC_SPACE("every starting shape, every operation", 3) { static const Ops o = make(2, 2); history(o, 2, mc::tier() ? 3 : 2, shapes); }
MC_SPACE("detaching from each sharing pattern", 1) {
    // 2..4 windows of the same storage (whole or part of it); one is detached and changed in each way; all others keep their value
    const unsigned n = 2 + mc::choose(3), who = mc::choose(n), how = mc::choose(6); V base{11, 22, 33, 44, 55}; W first; for (u32 v : base) first.append(v); std::vector<W> w; std::vector<V> m; w.reserve(n);
    for (unsigned i = 0; i < n; ++i) { const unsigned k = mc::choose(4); static const unsigned R[4][2] = {{0, 5}, {1, 5}, {0, 3}, {2, 4}}; w.push_back(first.sliced(R[k][0], R[k][1])); m.push_back(sliceModel(base, R[k][0], R[k][1])); }
    if (mc::choose(2)) first = W(); W &x = w[who]; V &y = m[who]; mc::step(); x.cloneData(); MC_CHECK(read(x) == y, "detaching changed the contents: %s", text(read(x)).c_str());
    switch (how) { case 0: x.append(7); y.push_back(7); break; case 1: x.prepend(7); y.insert(y.begin(), 7); break; case 2: x[1] = 7; y[1] = 7; break; case 3: x.preExtend(3); y.insert(y.begin(), 3, 0); break; case 4: x.slice(0, y.size() + 2); y.resize(y.size() + 2); break; case 5: for (auto &e : x) e = 9; std::fill(y.begin(), y.end(), 9); break; }
    for (unsigned i = 0; i < n; ++i) { MC_CHECK(read(w[i]) == m[i], "window %u is %s, expected %s", i, text(read(w[i])).c_str(), text(m[i]).c_str()); if (i != who) MC_CHECK(!x.hasSameBaseData(w[i]), "the detached window still shares storage"); }
}
MC_SPACE("long windows, every operation", 2) {
    static const Ops o = make(2, 2); static const std::vector<unsigned> N{15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65535, 65536, 65537}, PAD{0, 1, 16, 300}; const unsigned n = mc::pick(N), front = mc::pick(PAD), back = mc::pick(PAD), share = mc::choose(2), how = mc::choose(7); if (n > 2000 && !mc::tier() && (front > 1 || back > 1 || share)) mc::prune();
    World s(2); auto p = std::make_shared<V>(); for (unsigned i = 0; i < front + n + back; ++i) p->push_back(s.fresh()); const V all = *p; Win &x = s.w[0]; x.w = W(p, front, front + n); p.reset(); x.v = V(all.begin() + front, all.begin() + front + n); x.group = s.nextGroup++; if (share) { s.w[1].w = x.w; s.w[1].v = x.v; s.w[1].group = x.group; } check(s); MC_NOTE("window of %u elements with %u before and %u after it%s, %u", n, front, back, share ? ", shared" : "", how);
    switch (how) { case 0: break; case 1: s.detach(0); x.w.preExtend(n); x.v.insert(x.v.begin(), n, 0u); break; case 2: s.detach(0); x.w.preExtend(front + 3, 9); x.v.insert(x.v.begin(), front + 3, 9u); break; case 3: s.detach(0); x.w.slice(n / 2, 2 * n + back); x.v = sliceModel(x.v, n / 2, 2 * n + back); break; case 4: x.w.slice(n / 3, n - n / 4); x.v = sliceModel(x.v, n / 3, n - n / 4); break; case 5: s.detach(0); for (unsigned i = 0; i < 300; ++i) { const u32 v = s.fresh(); x.w.prepend(v); x.v.insert(x.v.begin(), v); } break; case 6: s.detach(0); for (unsigned i = 0; i < 300; ++i) { const u32 v = s.fresh(); x.w.append(v); x.v.push_back(v); } break; }
    mc::step(); check(s); const Op &a = mc::pick(o); MC_NOTE("%s", a.name.c_str()); if (!a.f(s)) mc::prune(); mc::step(); check(s);
}
MC_MAIN()
