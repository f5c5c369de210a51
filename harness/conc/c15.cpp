// C15: the thread pool runs every accepted task exactly once, delivers results and exceptions, and always shuts down. The pool's real
// worker loop, addTask and destructor run under every schedule up to the preemption bound; task effects are plain memory, so a missing
// happens-before edge between a task and its future (or the destructor) is reported as a data race.
#include "conc.h"
#include "parallel/ThreadPool.h"
#include <functional>
#include <stdexcept>
#include <vector>
using namespace conc;
namespace {
using Pool = pgbn::parallel::ThreadPool;
struct Boom : std::runtime_error { int n; explicit Boom(int k) : std::runtime_error("boom"), n(k) {} };
enum { MAXTASKS = 80 };
int ran[MAXTASKS], effect[MAXTASKS], worker_[MAXTASKS]; unsigned started[MAXTASKS], ended[MAXTASKS];
enum Style { VALUE, THROWS, VOID, ARGS, NSTYLES };
const char *styleName[] = {"value", "throws", "void", "with arguments"};
void begin(int i) { Hide h; ++ran[i]; started[i] = mcs_stamp(); worker_[i] = mcs_self(); }
void end(int i) { Hide h; ended[i] = mcs_stamp(); }
int body(int i, bool throws) { begin(i); effect[i] = 100 + i; end(i); if (throws) throw Boom(i); return 1000 + i; }
struct Job { int id, style; std::future<int> f; std::future<void> fv; };
void submit(Pool &p, Job &j) {
    const int i = j.id;
    switch (j.style) {
    case VALUE: j.f = p.addTask([i] { return body(i, false); }); break;
    case THROWS: j.f = p.addTask([i] { return body(i, true); }); break;
    case VOID: j.fv = p.addTask([i] { (void)body(i, false); }); break;
    case ARGS: j.f = p.addTask([](int a, int b) { return body(a, false) + b; }, i, 7); break;
    }
}
void result(Job &j) { // the future delivers this task's outcome, and what the task wrote is visible
    const int i = j.id;
    try {
        int v = 0; if (j.style == VOID) { CC_CHECK(j.fv.valid(), "task %d: the future is not valid", i); j.fv.get(); } else { CC_CHECK(j.f.valid(), "task %d: the future is not valid", i); v = j.f.get(); }
        CC_CHECK(j.style != THROWS, "task %d threw, its future returned %d", i, v);
        if (j.style != VOID) CC_CHECK(v == 1000 + i + (j.style == ARGS ? 7 : 0), "task %d: the future returned %d", i, v);
    } catch (const Boom &b) { CC_CHECK(j.style == THROWS && b.n == i, "task %d (%s): the future threw the exception of task %d", i, styleName[j.style], b.n); }
    catch (const std::exception &e) { CC_CHECK(false, "task %d (%s): the future threw %s", i, styleName[j.style], e.what()); }
    CC_CHECK(effect[i] == 100 + i, "task %d: its effect is not visible when the future is ready", i);
}
void finished(int n, int workers, bool oneSubmitter) {
    for (int i = 0; i < n; ++i) { const int e = effect[i]; Hide h; CC_CHECK(ran[i] == 1, "task %d ran %d times", i, ran[i]); CC_CHECK(e == 100 + i, "task %d: no effect", i); CC_CHECK(worker_[i] != 0, "task %d ran on the submitting thread", i); }
    Hide h;
    if (oneSubmitter) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (worker_[i] == worker_[j]) CC_CHECK(started[i] < started[j] && ended[i] < started[j], "worker %d ran task %d before task %d", worker_[i], j, i);
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (worker_[i] == worker_[j]) CC_CHECK(ended[i] < started[j] || ended[j] < started[i], "worker %d ran task %d inside task %d", worker_[i], started[i] < started[j] ? j : i, started[i] < started[j] ? i : j);
    uint64_t s = workers; for (int i = 0; i < n; ++i) s = s * 31 + worker_[i] * 8 + (i && started[i] > started[i - 1]); mcs_state(s);
}
void setup(int workers, const std::vector<Job> &jobs, const char *how) { Hide h; std::string s; for (auto &j : jobs) s += strf(" %s", styleName[j.style]); CC_NOTE("%d workers, tasks:%s; %s", workers, s.c_str(), how); }
// when the futures are read: 0 never, 1 before the pool is destroyed (in order), 2 before (in reverse order), 3 after, 4 between submissions
const char *whenName[] = {"futures dropped", "futures read", "futures read in reverse order", "futures read after the pool is gone", "each future read before the next submission"};
void basic(int workers, int maxTasks, int nstyles) {
    std::vector<Job> jobs; int when, n;
    { Hide h; n = (int)choose(maxTasks + 1); for (int i = 0; i < n; ++i) jobs.push_back(Job{i, (int)choose(nstyles), {}, {}}); when = n ? (int)choose(n > 1 ? 5 : 4) : 0; }
    setup(workers, jobs, whenName[when]);
    { Pool p(workers);
      for (auto &j : jobs) { submit(p, j); if (when == 4) result(j); }
      if (when == 1) for (auto &j : jobs) result(j);
      if (when == 2) for (int i = n; i-- > 0;) result(jobs[i]); }
    if (when == 3) for (auto &j : jobs) result(j);
    finished(n, workers, true);
}
}
CC_SPACE("one worker, 0..2 tasks of every style", 3, 99) { basic(1, 2, NSTYLES); }
CC_SPACE("two workers, 0..2 tasks returning or throwing", 2, 3) { basic(2, 2, 2); }
CC_SPACE("one worker, 3 tasks", 3, 99) { Job a{0, VALUE, {}, {}}; std::vector<Job> jobs; for (int i = 0; i < 3; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(1, jobs, "futures read after the pool is gone"); { Pool p(1); for (auto &j : jobs) submit(p, j); } for (auto &j : jobs) result(j); finished(3, 1, true); }
CC_SPACE("three workers, 0..2 tasks", 1, 2) { const int n = (int)choose(3); std::vector<Job> jobs; for (int i = 0; i < n; ++i) jobs.push_back(Job{i, i ? THROWS : VALUE, {}, {}}); setup(3, jobs, "futures read"); { Pool p(3); for (auto &j : jobs) submit(p, j); for (auto &j : jobs) result(j); } finished(n, 3, true); }
CC_SPACE_SPURIOUS("one and two workers, one task, spurious wake-ups", 2, 4, 1, 2) { const int w = 1 + (int)choose(2); std::vector<Job> jobs; jobs.push_back(Job{0, VALUE, {}, {}}); setup(w, jobs, "future dropped"); { Pool p(w); submit(p, jobs[0]); } finished(1, w, true); }
CC_SPACE("two submitters", 2, 3) {
    const int w = 1 + (int)choose(2); std::vector<Job> jobs; for (int i = 0; i < 2; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(w, jobs, "one submitted by another thread, futures read by their submitter");
    { Pool p(w); std::thread t([&] { submit(p, jobs[1]); result(jobs[1]); }); submit(p, jobs[0]); result(jobs[0]); t.join(); }
    finished(2, w, false);
}
CC_SPACE("a task that submits a task", 2, 4) {
    const int w = 1 + (int)choose(2); std::vector<Job> jobs; for (int i = 0; i < 2; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(w, jobs, "task 0 submits task 1");
    { Pool p(w); auto f = p.addTask([&] { begin(0); effect[0] = 100; submit(p, jobs[1]); end(0); return 1000; }); CC_CHECK(f.get() == 1000, "outer task's result"); result(jobs[1]); }
    finished(2, w, false);
}
CC_SPACE("a task that waits for a task of another worker", 2, 4) {
    std::vector<Job> jobs; for (int i = 0; i < 2; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(2, jobs, "task 0 waits for task 1");
    { Pool p(2); std::promise<void> gate; std::shared_future<void> g = gate.get_future().share(); auto f = p.addTask([&, g] { g.get(); result(jobs[1]); return body(0, false); }); submit(p, jobs[1]); gate.set_value(); CC_CHECK(f.get() == 1000, "waiting task's result"); }
    for (int i = 0; i < 2; ++i) CC_CHECK(ran[i] == 1, "task %d ran %d times", i, ran[i]);
}
CC_SPACE("a pool destroyed while its only worker has not started", 99, 99) { const int n = (int)choose(2); std::vector<Job> jobs; for (int i = 0; i < n; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(1, jobs, "destroyed at once"); { Pool p(1); for (auto &j : jobs) submit(p, j); } finished(n, 1, true); }
CC_SPACE("many tasks on few workers", 0, 1) {
    static const int N[] = {7, 20, 70}; int w, n, when; { Hide h; w = 1 + (int)choose(2); n = N[choose(w == 1 ? 3 : tier() ? 2 : 1)]; when = (int)choose(2); } std::vector<Job> jobs; for (int i = 0; i < n; ++i) jobs.push_back(Job{i, i % 5 == 3 ? THROWS : i % 5 == 1 ? VOID : VALUE, {}, {}}); setup(w, jobs, when ? "futures read after the pool is gone" : "futures read");
    { Pool p(w); for (auto &j : jobs) submit(p, j); if (!when) for (auto &j : jobs) result(j); } if (when) for (auto &j : jobs) result(j);
    finished(n, w, true);
}
static void moreWorkers(int w) {
    int n; { Hide h; n = (int)choose(2); } std::vector<Job> jobs; for (int i = 0; i < n; ++i) jobs.push_back(Job{i, VALUE, {}, {}}); setup(w, jobs, "futures read");
    { Pool p(w); for (auto &j : jobs) submit(p, j); for (auto &j : jobs) result(j); } finished(n, w, true);
}
CC_SPACE("four workers, at most one task", 0, 1) { moreWorkers(4); }
CC_SPACE_T("five workers, at most one task", 0) { moreWorkers(5); }
CC_SPACE("two pools, one outliving the other", 2, 3) {
    std::vector<Job> jobs; for (int i = 0; i < 3; ++i) jobs.push_back(Job{i, i == 1 ? THROWS : VALUE, {}, {}}); setup(1, jobs, "tasks 0 and 2 in one pool, task 1 in another destroyed before it");
    { Pool p(1); submit(p, jobs[0]); { Pool q(1); submit(q, jobs[1]); } submit(p, jobs[2]); result(jobs[1]); } result(jobs[0]); result(jobs[2]);
    finished(3, 2, false);
}
