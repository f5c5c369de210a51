// Small concurrent programs whose sets of outcomes are known: the schedule explorer must reach every outcome of the "all:" programs
// and none other, and must report the defect of every "bad:" program. Run by tools/selftest.py.
#include "conc.h"
#include <atomic>
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>
using namespace conc;
#ifdef LITMUS_REDUCE
CC_REDUCE();
#endif
static void run(std::vector<std::function<void()>> fs) { std::vector<std::thread> ts; for (auto &f : fs) ts.emplace_back(f); for (auto &t : ts) t.join(); }
static void outcome(uint64_t h) { Hide k; mcs_state(h); }
// "=N" in a name: the number of distinct outcomes under sequential consistency
CC_SPACE("all: store buffering =3", 99, 99) { std::atomic<int> x{0}, y{0}; int a = 0, b = 0; run({[&] { x = 1; a = y; }, [&] { y = 1; b = x; }}); outcome(a * 2 + b); }
CC_SPACE("all: message passing =3", 99, 99) { std::atomic<int> d{0}, f{0}; int a = 0, b = 0; run({[&] { d = 1; f = 1; }, [&] { a = f; b = d; }}); outcome(a * 2 + b); }
CC_SPACE("all: two lost-update counters of two increments =3", 99, 99) { std::atomic<int> x{0}; auto inc = [&] { for (int i = 0; i < 2; ++i) { const int v = x; x = v + 1; } }; run({inc, inc}); outcome(x); }
CC_SPACE("all: three lost-update counters of one increment =3", 99, 99) { std::atomic<int> x{0}; auto inc = [&] { const int v = x; x = v + 1; }; run({inc, inc, inc}); outcome(x); }
CC_SPACE("all: order of three lock holders =6", 99, 99) { std::mutex m; int order = 0; auto f = [&](int k) { std::lock_guard<std::mutex> g(m); order = order * 4 + k; }; run({[&] { f(1); }, [&] { f(2); }, [&] { f(3); }}); outcome(order); }
CC_SPACE("all: order of four lock holders =24", 99, 99) { std::mutex m; int order = 0; auto f = [&](int k) { std::lock_guard<std::mutex> g(m); order = order * 8 + k; }; run({[&] { f(1); }, [&] { f(2); }, [&] { f(3); }, [&] { f(4); }}); outcome(order); }
CC_SPACE("all: interleavings of two appenders of two =6", 99, 99) { std::mutex m; int order = 0; auto f = [&](int k) { for (int i = 0; i < 2; ++i) { std::lock_guard<std::mutex> g(m); order = order * 4 + k; } }; run({[&] { f(1); }, [&] { f(2); }}); outcome(order); }
CC_SPACE("all: interleavings of two appenders of three =20", 99, 99) { std::mutex m; int order = 0; auto f = [&](int k) { for (int i = 0; i < 3; ++i) { std::lock_guard<std::mutex> g(m); order = order * 4 + k; } }; run({[&] { f(1); }, [&] { f(2); }}); outcome(order); }
CC_SPACE("all: independent readers of independent writes =15", 99, 99) { std::atomic<int> x{0}, y{0}; int a = 0, b = 0, c = 0, d = 0; run({[&] { x = 1; }, [&] { y = 1; }, [&] { a = x; b = y; }, [&] { c = y; d = x; }}); outcome(a * 8 + b * 4 + c * 2 + d); }
CC_SPACE("all: which of two waiters notify_one wakes =2", 99, 99) {
    std::mutex m; std::condition_variable cv; int waiting = 0, tokens = 0, first = 0; bool all = false;
    auto w = [&](int k) { std::unique_lock<std::mutex> g(m); ++waiting; cv.wait(g, [&] { return tokens || all; }); if (tokens) --tokens; if (!first) first = k; };
    run({[&] { w(1); }, [&] { w(2); }, [&] { { std::lock_guard<std::mutex> g(m); tokens = 1; } cv.notify_one(); { std::lock_guard<std::mutex> g(m); all = true; } cv.notify_all(); }}); outcome(first);
}
CC_SPACE("all: try_lock sees the lock held or free =2", 99, 99) { std::mutex m; int got = 0; run({[&] { std::lock_guard<std::mutex> g(m); mcs_yield(); }, [&] { if (m.try_lock()) { got = 1; m.unlock(); } }}); outcome(got); }
CC_SPACE("all: readers and a writer =4", 99, 99) { std::shared_mutex m; int v = 0, a = 0, b = 0; run({[&] { std::shared_lock<std::shared_mutex> g(m); a = v; }, [&] { std::shared_lock<std::shared_mutex> g(m); b = v; }, [&] { std::unique_lock<std::shared_mutex> g(m); v = 1; }}); outcome(a * 2 + b); }
CC_SPACE("all: who initialises =2", 99, 99) { std::once_flag o; int who = 0; run({[&] { std::call_once(o, [&] { who = 1; }); }, [&] { std::call_once(o, [&] { who = 2; }); }}); outcome(who); }
CC_SPACE("all: a promise is seen =1", 99, 99) { std::promise<int> p; auto f = p.get_future(); int a = 0; run({[&] { p.set_value(7); }, [&] { a = f.get(); }}); CC_CHECK(a == 7, "got %d", a); outcome(a); }
CC_SPACE("all: Peterson's algorithm keeps two threads apart =2", 99, 99) {
    std::atomic<int> want[2] = {{0}, {0}}, turn{0}; int in = 0, order = 0;
    auto f = [&](int i) { want[i] = 1; turn = 1 - i; if (want[1 - i] == 0 || turn == i) { ++in; CC_CHECK(in == 1, "both are inside"); order = order * 4 + i + 1; --in; want[i] = 0; } else { Hide h; mcs_prune(); } };
    run({[&] { f(0); }, [&] { f(1); }}); outcome(order);
}
CC_SPACE("bad: data race on an int", 99, 99) { int x = 0; run({[&] { x = 1; }, [&] { x = 2; }}); }
CC_SPACE("bad: race between read and write behind different locks", 99, 99) { std::mutex a, b; int x = 0; volatile int y = 0; run({[&] { std::lock_guard<std::mutex> g(a); x = 1; }, [&] { std::lock_guard<std::mutex> g(b); y = x; }}); }
CC_SPACE("bad: relaxed flag does not publish", 99, 99) { std::atomic<int> f{0}; int d = 0; volatile int y = 0; run({[&] { d = 1; f.store(1, std::memory_order_relaxed); }, [&] { if (f.load(std::memory_order_relaxed)) y = d; }}); }
CC_SPACE("all: release and acquire publish =2", 99, 99) { std::atomic<int> f{0}; int d = 0, y = 0; run({[&] { d = 1; f.store(1, std::memory_order_release); }, [&] { if (f.load(std::memory_order_acquire)) y = d; }}); outcome(y); }
CC_SPACE("bad: lock order inversion", 99, 99) { std::mutex a, b; run({[&] { std::lock_guard<std::mutex> g(a); std::lock_guard<std::mutex> h(b); }, [&] { std::lock_guard<std::mutex> g(b); std::lock_guard<std::mutex> h(a); }}); }
CC_SPACE("bad: lost wake-up", 99, 99) { std::mutex m; std::condition_variable cv; std::atomic<bool> ready{false}; run({[&] { std::unique_lock<std::mutex> g(m); if (!ready) cv.wait(g); }, [&] { ready = true; cv.notify_one(); }}); }
CC_SPACE_SPURIOUS("bad: a wait without a loop", 99, 99, 1, 1) { std::mutex m; std::condition_variable cv; bool ready = false, seen = true; run({[&] { std::unique_lock<std::mutex> g(m); if (!ready) cv.wait(g); seen = ready; }, [&] { std::lock_guard<std::mutex> g(m); ready = true; cv.notify_one(); }}); CC_CHECK(seen, "woken before it was ready"); }
CC_SPACE("bad: double-checked initialisation without an atomic", 99, 99) { std::mutex m; int *p = nullptr; int v = 0; auto f = [&] { if (!p) { std::lock_guard<std::mutex> g(m); if (!p) { v = 1; p = &v; } } }; run({f, f}); }
CC_SPACE("bad: a promise nobody keeps", 99, 99) { std::promise<int> p; auto f = p.get_future(); run({[&] { f.wait(); }}); }
