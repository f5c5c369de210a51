// C17 (schedules): first use of the status registry from several threads, registrations that happen before concurrent lookups, and the
// per-thread global status, under every schedule up to the preemption bound. Every execution starts in a process that never used the library.
#include "conc.h"
#include "BigInteger.h"
#include "Status.h"
#include "expr.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
using namespace conc; using pgbn::Status; using pgbn::BigInteger; typedef pgbn::Enum Enum;
CC_REDUCE();
namespace {
const char *const PLACEHOLDER = "<ERROR_INFO>";
const char *const texts[] = {"[PGBN-Status: Success]Success", "[PGBN-Status: Fault]Divide By Zero", "[PGBN-Status: Error]Radix Invalid(Requires 2~36)", "[PGBN-Status: Error]Number String Empty", "[PGBN-Status: Error]Number String Sig Invalid",
    "[PGBN-Status: Error]Parse String To Number Error", "[PGBN-Status: Error]Arithmetic Overflow", "[PGBN-Status: Error]Shift-Operator Invalid", "[PGBN-Status: Error]Char Invalid", "[PGBN-Status: Error]Not-Decimal But Real-Number",
    "[PGBN-Status: Error]Undefined Builtin Functions Or Contants", "[PGBN-Status: Error]Builtin Sysmbol Is Invalid", "[PGBN-Status: Error]Radix Invalid(Requires 2~36)", "[PGBN-Status: Error]Parse Literal To Number Error", "[PGBN-Status: Error]Expected ==", "[PGBN-Status: Error]Bad Token"};
int fired[8]; // per registration; written hidden, so it is never part of the library's own synchronisation
void fire(int k) { Hide h; ++fired[k]; }
enum { NUSE = 13 };
const char *useName[NUSE] = {"getInfo(6)", "find(11)", "getCallback(0)", "Status(2)", "status = 3", "global status = 5", "lookups of an unregistered code", "text of a default status", "a failing parse", "a successful parse", "eval(1+2)", "a failing eval", "find(12) with result"};
void use(int k, const char *who) {
    switch (k) {
    case 0: { const std::string &s = Status::getInfo(6); CC_CHECK(s == texts[6], "%s: getInfo(6) is \"%s\"", who, s.c_str()); break; }
    case 1: CC_CHECK(Status::find(11), "%s: built-in code 11 is not found", who); break;
    case 2: CC_CHECK(!!Status::getCallback(0), "%s: built-in code 0 has no callback", who); break;
    case 3: { Status s(Enum(2)); const std::string &t = s.getInfo(); CC_CHECK(t == texts[2], "%s: Status(2) says \"%s\"", who, t.c_str()); break; }
    case 4: { Status s; s = Enum(3); const std::string &t = s.getInfo(); CC_CHECK(t == texts[3] && !!s.getCallback(), "%s: a status assigned 3 says \"%s\"", who, t.c_str()); break; }
    case 5: { *Status::getInstance() = Enum(5); const std::string &t = Status::getInstance()->getInfo(); CC_CHECK(t == texts[5], "%s: the global status assigned 5 says \"%s\"", who, t.c_str()); break; }
    case 6: { std::tuple<std::string, pgbn::Callback> *t = (std::tuple<std::string, pgbn::Callback> *)1; const bool f = Status::find(Enum(555555), &t); CC_CHECK(!f && !t && Status::getInfo(555555) == PLACEHOLDER && !Status::getCallback(555555), "%s: an unregistered code is found", who); break; }
    case 7: { Status s; const std::string &t = s.getInfo(); CC_CHECK(t == PLACEHOLDER && !s.getCallback(), "%s: a default status says \"%s\"", who, t.c_str()); break; }
    case 8: { bool ok = true; BigInteger b("1Z", 10, &ok); const std::string &t = Status::getInstance()->getInfo(); CC_CHECK(!ok && t != texts[0] && t != PLACEHOLDER && !t.empty(), "%s: after a failing parse the status says \"%s\"", who, t.c_str()); break; }
    case 9: { bool ok = false; BigInteger b("-12345678901234567890123", 10, &ok); const std::string &t = Status::getInstance()->getInfo(); CC_CHECK(ok && t == texts[0], "%s: after a successful parse the status says \"%s\"", who, t.c_str()); break; }
    case 10: { Status s; s = Enum(0); const BigInteger b = pgbn::expr::eval("1+2", &s); const std::string &t = s.getInfo(); CC_CHECK(b == 3 && t == texts[0], "%s: after eval(1+2) the status says \"%s\"", who, t.c_str()); break; }
    case 11: { Status s; s = Enum(0); (void)pgbn::expr::eval("1+)", &s); const std::string &t = s.getInfo(); CC_CHECK(t != texts[0] && t != PLACEHOLDER && !t.empty(), "%s: after a failing eval the status says \"%s\"", who, t.c_str()); break; }
    case 12: { std::tuple<std::string, pgbn::Callback> *t = nullptr; const bool f = Status::find(Enum(12), &t); CC_CHECK(f && t && std::get<0>(*t) == texts[12] && !!std::get<1>(*t), "%s: built-in code 12 is not found with its text", who); break; }
    }
}
void allBuiltins(const char *when) { for (Enum c = 0; c < 17; ++c) { CC_CHECK(Status::find(c) && !!Status::getCallback(c), "%s: built-in code %u is not registered", when, c); if (c < 16) CC_CHECK(Status::getInfo(c) == texts[c], "%s: built-in code %u says \"%s\"", when, c, Status::getInfo(c).c_str()); } }
const char *const names[] = {"main", "thread 1", "thread 2", "thread 3"};
void firstUses(int n, bool mainToo) {
    unsigned k[4]; { Hide h; for (int i = 0; i < n; ++i) { k[i] = choose(NUSE); if (i && k[i] < k[i - 1]) mcs_prune(); } for (int i = 0; i < n; ++i) CC_NOTE("%s: %s", names[mainToo ? i : i + 1], useName[k[i]]); }
    std::vector<std::thread> t; { Hide h; t.reserve(4); }
    for (int i = mainToo ? 1 : 0; i < n; ++i) { const int u = (int)k[i]; const char *w = names[mainToo ? i : i + 1]; t.emplace_back([u, w] { use(u, w); }); }
    if (mainToo) use((int)k[0], names[0]);
    for (auto &x : t) x.join();
    allBuiltins("at the end"); { Hide h; mcs_state(k[0] + 100 * k[1]); }
}
// a code is registered before the concurrent part begins: as the very first use of the library or later, by main or by a thread that
// has ended or has passed a flag on; afterwards every thread sees it, assigning it runs its callback once, and nothing undoes it
void registrations(int n) {
    unsigned code, first, by, cb, k[3]; { Hide h; code = choose(3); first = choose(2); by = choose(3); cb = choose(2); for (int i = 0; i < n; ++i) { k[i] = choose(5); if (i && k[i] < k[i - 1]) mcs_prune(); } }
    const Enum c = code == 0 ? 6 : code == 1 ? 5 : 777777; { Hide h; CC_NOTE("code %u registered %s callback by %s, %s", c, cb ? "with a" : "without", by == 0 ? "main" : by == 1 ? "a thread that ended" : "a thread that passed on a flag", first ? "as the first use" : "after another use"); for (int i = 0; i < n; ++i) CC_NOTE("%s: action %u", names[i + 1], k[i]); }
    if (!first) use(7, "main");
    std::atomic<int> flag{0};
    auto reg = [&] { if (cb) Status::registe(c, "mine", fire, 0); else Status::registe(c, "mine"); flag.store(1, std::memory_order_release); };
    std::vector<std::thread> t; { Hide h; t.reserve(4); }
    if (by == 0) reg(); else { t.emplace_back(reg); if (by == 1) { t[0].join(); } }
    int fires[3] = {0, 0, 0};
    for (int i = 0; i < n; ++i) { const int u = (int)k[i]; const char *w = names[i + 1]; int *f = &fires[i]; t.emplace_back([=, &flag] {
        if (flag.load(std::memory_order_acquire) == 0) return; // not yet registered as far as this thread knows
        switch (u) {
        case 0: { const std::string &s = Status::getInfo(c); CC_CHECK(s == "mine", "%s: the registered code says \"%s\"", w, s.c_str()); break; }
        case 1: { CC_CHECK(Status::find(c) && !!Status::getCallback(c) == !!cb, "%s: the registered code is not found, or its callback is wrong", w); break; }
        case 2: { Status s(c); if (cb) *f = 1; const std::string &x = s.getInfo(); CC_CHECK(x == "mine", "%s: a status holding the registered code says \"%s\"", w, x.c_str()); break; }
        case 3: { *Status::getInstance() = c; if (cb) *f = 1; const std::string &x = Status::getInstance()->getInfo(); CC_CHECK(x == "mine", "%s: the global status holding the registered code says \"%s\"", w, x.c_str()); break; }
        case 4: { const BigInteger b = pgbn::expr::eval("2*3"); CC_CHECK(b == 6, "%s: eval(2*3) is wrong", w); const std::string &s = Status::getInfo(c); CC_CHECK(s == "mine", "%s: after using the library the registered code says \"%s\"", w, s.c_str()); break; }
        } }); }
    for (auto &x : t) if (x.joinable()) x.join();
    const int want = fires[0] + fires[1] + fires[2];
    CC_CHECK(Status::getInfo(c) == "mine" && !!Status::getCallback(c) == !!cb, "at the end the registered code says \"%s\"", Status::getInfo(c).c_str());
    for (Enum b = 0; b < 17; ++b) if (b != c) { CC_CHECK(Status::find(b) && !!Status::getCallback(b), "built-in code %u is no longer registered", b); if (b < 16) CC_CHECK(Status::getInfo(b) == texts[b], "built-in code %u says \"%s\"", b, Status::getInfo(b).c_str()); }
    Hide h; CC_CHECK(fired[0] == want, "the callback ran %d times for %d assignments", fired[0], want); mcs_state(code + 10 * fired[0] + 100 * by);
}
// the global status of each thread: distinct objects, each keeps its own code whatever the others do
void globals(int n) {
    unsigned style; { Hide h; style = choose(3); CC_NOTE("style %u", style); }
    Status *addr[4] = {nullptr, nullptr, nullptr, nullptr}; if (style == 1) { *Status::getInstance() = Enum(9); addr[0] = Status::getInstance(); }
    std::mutex m; std::condition_variable cv; int up = 0; std::vector<std::thread> t; { Hide h; t.reserve(4); }
    for (int i = 1; i <= n; ++i) { Status **a = &addr[i]; t.emplace_back([=, &up, &m, &cv] {
        *a = Status::getInstance(); { const std::string &x = (*a)->getInfo(); CC_CHECK(x == PLACEHOLDER, "thread %d: the global status of a new thread says \"%s\"", i, x.c_str()); }
        **a = Enum(1 + i); (*a)->setContext(std::any(i));
        if (style == 2) { BigInteger b("x!", 10); } // sets this thread's status only
        mcs_yield(); CC_CHECK(Status::getInstance() == *a, "thread %d: the address of the global status changed", i);
        const std::string &x = (*a)->getInfo(); if (style != 2) CC_CHECK(x == texts[1 + i], "thread %d: its global status says \"%s\" after it was set to %d", i, x.c_str(), 1 + i);
        CC_CHECK((*a)->context<int>() == i, "thread %d: its context is %d", i, (*a)->context<int>());
        std::unique_lock<std::mutex> l(m); if (++up == n) cv.notify_all(); while (up < n) cv.wait(l); // all of them are alive at the same time
        }); }
    for (auto &x : t) x.join();
    if (style == 1) { const std::string &x = Status::getInstance()->getInfo(); CC_CHECK(x == texts[9] && Status::getInstance() == addr[0], "main: its global status says \"%s\"", x.c_str()); } else { const std::string &x = Status::getInstance()->getInfo(); CC_CHECK(x == PLACEHOLDER, "main: its global status, never used, says \"%s\"", x.c_str()); addr[0] = Status::getInstance(); }
    for (int i = 0; i <= n; ++i) for (int j = 0; j < i; ++j) CC_CHECK(addr[i] != addr[j], "threads %d and %d have the same global status", i, j);
}
}
CC_SPACE("first use by main and one thread", 2, 3) { firstUses(2, true); }
CC_SPACE("first use by two threads", 2, 2) { firstUses(2, false); }
CC_SPACE("first use by three threads", 0, 1) { firstUses(3, false); }
CC_SPACE("registration, then one thread", 2, 4) { registrations(1); }
CC_SPACE("registration, then two threads", 1, 2) { registrations(2); }
CC_SPACE("global status of two threads", 3, 8) { globals(2); }
CC_SPACE("global status of three threads", 1, 3) { globals(3); }
