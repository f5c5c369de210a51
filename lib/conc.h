// Harness side of the schedule explorer (lib/sched_rt.cpp). A space is a scenario that is executed once per schedule, in a forked
// child, with every thread under the explorer's control. The explorer enumerates all schedules up to the space's preemption bound.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
extern "C" {
struct mcs_space { const char *name; void (*fn)(); int bound[2]; int spurious[2]; int minTier; };
void mcs_register(const mcs_space *);
unsigned mcs_choose(unsigned n);          // program choice, enumerated like a schedule choice
int mcs_tier(void);
void mcs_fail(const char *msg) __attribute__((noreturn)); // ends the execution with a violation
void mcs_prune(void) __attribute__((noreturn));           // this combination of program choices is outside the space
void mcs_note(const char *msg);
int mcs_capture(void);
unsigned mcs_stamp(void);                 // global order of harness events; no scheduling point, no synchronisation
int mcs_self(void);                       // number of the running thread, main is 0
void mcs_hide(int on);                    // between hide(1) and hide(0) the calling thread's operations are not scheduling points (harness bookkeeping)
void mcs_ignore(const void *p, unsigned long n); // harness log memory: excluded from race detection
void mcs_state(uint64_t h);               // folds a program-level outcome into the set of states reached
void mcs_yield(void);                     // a scheduling point
void mcs_reduce(void);                    // operations on locations that are in no conflict are not scheduling points (not for harnesses that use stamps)
void mcs_whole(int on);                   // between whole(1) and whole(0) the calling thread keeps the processor as long as it can go on
}
namespace conc {
__attribute__((format(printf, 1, 2))) inline std::string strf(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline unsigned choose(unsigned n) { return mcs_choose(n); }
inline int tier() { return mcs_tier(); }
struct Reg { Reg(const char *n, void (*f)(), int bq, int bt, int sq, int st, int mt) { mcs_space s{n, f, {bq, bt}, {sq, st}, mt}; mcs_register(&s); } };
struct Whole { Whole() { mcs_whole(1); } ~Whole() { mcs_whole(0); } };
struct Hide { Hide() { mcs_hide(1); } ~Hide() { mcs_hide(0); } };
}
#define CC_REDUCE() static const bool cc_reduce_ = (::mcs_reduce(), true)
#define CC_CAT2(a, b) a##b
#define CC_CAT(a, b) CC_CAT2(a, b)
#define CC_SPACE_(name, bq, bt, sq, st, mt) static void CC_CAT(cc_fn_, __LINE__)(); static ::conc::Reg CC_CAT(cc_reg_, __LINE__)(name, CC_CAT(cc_fn_, __LINE__), bq, bt, sq, st, mt); static void CC_CAT(cc_fn_, __LINE__)()
// preemption bound in the quick and in the thorough tier (99: unbounded)
#define CC_SPACE(name, bq, bt) CC_SPACE_(name, bq, bt, 0, 0, 0)
#define CC_SPACE_T(name, bt) CC_SPACE_(name, bt, bt, 0, 0, 1)
// also with spurious wake-ups of condition variables, up to sq / st per execution
#define CC_SPACE_SPURIOUS(name, bq, bt, sq, st) CC_SPACE_(name, bq, bt, sq, st, 0)
#define CC_CHECK(c, ...) do { if (!(c)) { ::mcs_hide(1); ::mcs_fail(::conc::strf(__VA_ARGS__).c_str()); } } while (0)
#define CC_NOTE(...) do { if (::mcs_capture()) { ::mcs_hide(1); ::mcs_note(::conc::strf(__VA_ARGS__).c_str()); ::mcs_hide(0); } } while (0)
