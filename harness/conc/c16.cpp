// C16: the concurrent queue is a linearizable FIFO with no lost wake-ups. Every program (a short list of operations per thread) is
// run under every schedule; the history of calls and returns must have a linearization of a FIFO queue with a release flag.
#include "conc.h"
#include "parallel/SimpleConcurrenceQueue.h"
#include <algorithm>
#include <functional>
#include <thread>
#include <vector>
using namespace conc;
namespace {
struct Item { // tells a moved-from element from a live one
    int v = -1; Item() = default; explicit Item(int x) : v(x) {} Item(const Item &o) : v(o.v) {} Item(Item &&o) noexcept : v(o.v) { o.v = -2; }
    Item &operator=(const Item &o) { v = o.v; return *this; } Item &operator=(Item &&o) noexcept { v = o.v; o.v = -2; return *this; }
};
using Queue = pgbn::parallel::SimpleConcurrenceQueue<Item>;
enum Kind { PUSH, POP, TRYPOP, RELEASE, EMPTY, COPY, REFUSED, PUSHC, NKINDS };
const char *kindName[] = {"push(rvalue)", "pop", "tryPop", "notifyAllPop", "empty", "copy", "push refused by its condition", "push(lvalue)"};
struct Call { int thread, kind, arg; bool ok; int val; std::vector<int> snap; unsigned inv, res; bool done; };
Call calls[24]; int ncalls;
struct Model { int q[16], n; bool rel; };
bool apply(Model &m, const Call &c) {
    switch (c.kind) {
    case PUSH: case PUSHC: m.q[m.n++] = c.arg; return c.ok;
    case POP: case TRYPOP:
        if (!c.ok) return m.n == 0 && (c.kind == TRYPOP || m.rel);
        if (m.n == 0 || m.q[0] != c.val) return false;
        for (int i = 1; i < m.n; ++i) m.q[i - 1] = m.q[i];
        --m.n; return true;
    case EMPTY: return c.ok == (m.n == 0);
    case REFUSED: return c.ok;
    case COPY: if ((int)c.snap.size() != m.n) return false; for (int i = 0; i < m.n; ++i) if (c.snap[i] != m.q[i]) return false; return true;
    case RELEASE: m.rel = true; return true;
    }
    return false;
}
bool linearizable(unsigned done, Model m) {
    if (done == (1u << ncalls) - 1) return true;
    for (int i = 0; i < ncalls; ++i) if (!(done >> i & 1)) {
        bool first = true; for (int j = 0; j < ncalls; ++j) if (j != i && !(done >> j & 1) && calls[j].res < calls[i].inv) first = false;
        if (!first) continue;
        Model k = m; if (apply(k, calls[i]) && linearizable(done | 1u << i, k)) return true;
    }
    return false;
}
std::string text(const Call &c) {
    std::string s = strf("t%d %s", c.thread, kindName[c.kind]); if (c.kind == PUSH || c.kind == PUSHC) s += strf(" %d", c.arg);
    if (c.kind == POP || c.kind == TRYPOP) s += c.ok ? strf(" -> %d", c.val) : " -> false"; if (c.kind == EMPTY) s += c.ok ? " -> true" : " -> false";
    if (c.kind == COPY) { s += " -> ["; for (int x : c.snap) s += strf(" %d", x); s += " ]"; } return s + strf(" (%u..%u)", c.inv, c.res);
}
void op(Queue &q, int t, int kind, int arg) {
    mcs_yield();
    Call *c; { Hide h; c = &calls[ncalls++]; *c = Call{t, kind, arg, false, 0, {}, mcs_stamp(), 0, false}; }
    bool ok = true; int val = 0; std::vector<int> snap;
    switch (kind) {
    case PUSH: { Item it(arg); bool err = false; q.push(std::move(it), [] { return true; }, [&] { err = true; }); ok = !err; break; }
    case PUSHC: { const Item it(arg); bool err = false; q.push(it, [] { return true; }, [&] { err = true; }); ok = !err && it.v == arg; break; }
    case REFUSED: { Item it(arg); int err = 0, asked = 0; if (arg & 1) q.push(it, [&] { ++asked; return false; }, [&] { ++err; }); else q.push(std::move(it), [&] { ++asked; return false; }, [&] { ++err; }); ok = err == 1 && it.v == arg; break; }
    case POP: { Item it(-7); ok = q.pop(it); val = it.v; if (!ok && val != -7) CC_CHECK(false, "pop returned false and changed its argument to %d", val); break; }
    case TRYPOP: { Item it(-7); ok = q.tryPop(it); val = it.v; if (!ok && val != -7) CC_CHECK(false, "tryPop returned false and changed its argument to %d", val); break; }
    case EMPTY: ok = q.empty(); break;
    case COPY: { Queue k(q); Item it; while (k.tryPop(it)) snap.push_back(it.v); break; }
    case RELEASE: q.notifyAllPop(); break;
    }
    Hide h; c->ok = ok; c->val = val; c->snap = snap; c->res = mcs_stamp(); c->done = true;
}
// runs the program and judges the history. Afterwards the main thread empties the queue, as further calls of the history.
void run(const std::vector<std::vector<int>> &prog, int prefill) {
    { Hide h; std::string s = strf("%d elements;", prefill); for (auto &p : prog) { s += " {"; for (int k : p) s += strf(" %s;", kindName[k]); s += " }"; } CC_NOTE("program: %s", s.c_str()); ncalls = 0; }
    int next = 10; Queue q; for (int i = 0; i < prefill; ++i) op(q, 0, PUSH, next++);
    {
        std::vector<std::thread> ts; std::vector<std::vector<int>> args; for (auto &p : prog) { args.emplace_back(); for (int k : p) { (void)k; args.back().push_back(next++); } }
        { Whole w; for (size_t t = 0; t < prog.size(); ++t) ts.emplace_back([&, t] { for (size_t i = 0; i < prog[t].size(); ++i) op(q, (int)t + 1, prog[t][i], args[t][i]); }); }
        for (auto &t : ts) t.join();
    }
    for (int i = 0; i < 10; ++i) { op(q, 0, TRYPOP, 0); bool more; { Hide h; more = calls[ncalls - 1].ok; } if (!more) break; }
    op(q, 0, EMPTY, 0);
    Hide h; std::string s; uint64_t st = 0; for (int i = 0; i < ncalls; ++i) { s += (i ? "; " : "") + text(calls[i]); st = st * 1000003 + calls[i].kind * 64 + calls[i].val + calls[i].ok; }
    CC_NOTE("history: %s", s.c_str()); mcs_state(st);
    CC_CHECK(linearizable(0, Model{{0}, 0, false}), "the history has no linearization: %s", s.c_str());
}
// is a program one in which no call can block for ever?
bool terminates(const std::vector<std::vector<int>> &prog, int prefill) {
    int have = prefill, need = 0, release = 0; bool pops = false;
    for (auto &p : prog) for (int k : p) { if (k == PUSH || k == PUSHC) ++have; if (k == POP) { ++need; pops = true; } if (k == TRYPOP) ++need; if (k == RELEASE) ++release; }
    if (!pops) return true;
    // a thread that pops before it pushes or releases may wait for itself
    if (release) { for (auto &p : prog) for (size_t i = 0; i < p.size(); ++i) if (p[i] == RELEASE) { bool safe = true; for (size_t j = 0; j < i; ++j) if (p[j] == POP) safe = false; if (safe) return true; } return false; }
    if (have < need) return false;
    for (auto &p : prog) { bool popped = false; for (int k : p) { if (k == POP) popped = true; if (popped && (k == PUSH || k == PUSHC)) return false; } }
    return true;
}
// all programs with 1..maxOps[t] operations (firstMin or more in thread 0) of the first `alphabet` kinds
void programs(const std::vector<int> &maxOps, int prefillMax, int firstMin, int alphabet) {
    std::vector<std::vector<int>> prog; int pre;
    { Hide h;
      pre = (int)choose(prefillMax + 1); std::vector<unsigned> codes;
      for (size_t t = 0; t < maxOps.size(); ++t) { prog.emplace_back(); unsigned code = 0; const int lo = t == 0 && firstMin ? firstMin : 1, n = lo + (int)choose(maxOps[t] - lo + 1); for (int i = 0; i < n; ++i) { prog.back().push_back((int)choose(alphabet)); code = code * 16 + prog.back().back() + 1; } codes.push_back(code); if (t && maxOps[t] == maxOps[t - 1] && codes[t] < codes[t - 1]) mcs_prune(); } // such threads are interchangeable
      if (!terminates(prog, pre)) mcs_prune(); }
    run(prog, pre);
}
}
CC_SPACE("two threads, one of up to 2 operations and one of 1, every schedule", 99, 99) { programs({2, 1}, 1, 0, NKINDS); }
CC_SPACE_SPURIOUS("two threads, one operation each, spurious wake-ups, every schedule", 99, 99, 2, 3) { programs({1, 1}, 1, 0, NKINDS); }
CC_SPACE("three threads, one operation each, every schedule", 99, 99) { programs({1, 1, 1}, 1, 0, tier() ? NKINDS : 6); }
CC_SPACE("three threads, up to 2, 1 and 1 operations of push, pop, tryPop and release-all", 1, 3) { programs({2, 1, 1}, 1, 0, 4); }
// Many elements: the numbers 0..n-1 are pushed in order by one thread and taken by others, so each taker sees rising numbers and no number is seen twice or missed.
namespace { void stream(int takers, bool push0, bool blocking, unsigned sizes) {
    int n; { Hide h; static const int NS[] = {1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}; n = NS[choose(sizes)]; CC_NOTE("%d elements, %d takers, %s, %s", n, takers, push0 ? "all pushed first" : "pushed meanwhile", blocking ? "pop and release" : "pop"); }
    Queue q; const std::function<bool()> yes = [] { return true; }; int refused = 0; const std::function<void()> no = [&] { ++refused; };
    auto fill = [&] { for (int i = 0; i < n; ++i) { Item it(i); if (i & 1) q.push(it, yes, no); else q.push(std::move(it), yes, no); } };
    std::vector<std::vector<int>> got(takers); { Hide h; for (auto &g : got) g.reserve(n + 1); }
    if (push0) fill();
    std::vector<std::thread> ts; const int share = n / takers;
    { Whole w; for (int t = 0; t < takers; ++t) ts.emplace_back([&, t] { const int want = t ? share : n - share * (takers - 1); for (int k = 0; blocking || k < want; ++k) { Item it(-7); if (!q.pop(it)) break; Hide h; got[t].push_back(it.v); } }); }
    if (!push0) fill();
    if (blocking) q.notifyAllPop();
    for (auto &t : ts) t.join();
    Item it; const bool more = q.tryPop(it); const bool e = q.empty();
    Hide h; std::vector<int> all; for (auto &g : got) { for (size_t i = 1; i < g.size(); ++i) CC_CHECK(g[i - 1] < g[i], "a taker got %d after %d", g[i], g[i - 1]); all.insert(all.end(), g.begin(), g.end()); }
    std::sort(all.begin(), all.end()); CC_CHECK((int)all.size() == n && !more && e && !refused, "%zu of %d elements were taken, %d refused", all.size(), n, refused); for (int i = 0; i < n; ++i) CC_CHECK(all[i] == i, "element %d was lost or taken twice", i);
    mcs_state(n * 8 + takers);
} }
CC_SPACE("many elements, one taker", 2, 3) { stream(1, false, false, tier() ? 10 : 14); }
CC_SPACE("many elements, all pushed first, takers until released", 2, 2) { stream(2, true, true, tier() ? 17 : 14); }
CC_SPACE("many elements, two takers", 3, 4) { stream(2, false, false, 5); }
CC_SPACE_T("two threads, up to 2 operations each, every schedule", 99) { programs({2, 2}, 1, 0, NKINDS); }
CC_SPACE_T("two threads, exactly 3 and up to 2 operations, at most 2 preemptions", 2) { programs({3, 2}, 1, 3, 6); }
CC_SPACE_T("four threads, one operation each, at most 3 preemptions", 3) { programs({1, 1, 1, 1}, 1, 0, 6); }

