// Controlled scheduler, happens-before race detector and schedule explorer.
//
// Linked into a program whose sources were compiled with -fsanitize=thread, in place of the TSan runtime: the compiler's
// instrumentation calls (__tsan_*) and the pthread/libstdc++ blocking primitives (interposed below) enter here. One thread runs
// at a time (it holds the baton); before every synchronisation operation the scheduler decides which thread goes on. An execution
// is determined by the list of decisions that deviate from the default (keep running; else lowest-numbered enabled thread), so the
// explorer enumerates deviation lists, depth first, each once, in a forked child. A decision that takes the processor from a thread
// that could go on is a preemption; executions with at most `bound` of them are enumerated. Plain memory accesses are not
// scheduling points: they are checked for data races with vector clocks, and without races every outcome occurs at
// synchronisation granularity. States (happens-before graphs of the execution so far) already expanded with at least the same
// remaining budget are not expanded again.
//
// This file is compiled without instrumentation and uses no C++ library templates (they could be merged with instrumented ones).
#include "conc.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_memalign(size_t, size_t);
extern "C" char __libc_single_threaded;

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xFF51AFD7ED558CCDull; return h ^ (h >> 33); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
[[noreturn]] static void die(const char *m) { dprintf(2, "sched: %s\n", m); _exit(98); }

// ---- shared between explorer processes -------------------------------------------------------------------------------
enum { MAXDEV = 40, MAXCH = 30000, NOTES = 60000, MAXT = 14, MAXVIOL = 6, CACHE_LOG2 = 25, MAXITEMS = 1 << 20 };
struct Dev { u32 pos; u32 val; };
struct Item { u16 ndev; Dev dev[MAXDEV]; };
struct Choice { u16 arity, val; };
enum Status { RUNNING, OK, FAIL, PRUNED_PROGRAM, SCHED_ERROR };
struct Exec { // one per worker; written by the child
    Item in; u32 n, limit; volatile u32 status; char msg[4000]; u32 nnotes; char notes[NOTES]; u64 points, states, maxSwitches; u32 hit, shadowFull; Choice ch[MAXCH];
};
struct Viol { u32 space; char msg[4000]; Item item; };
struct Global {
    int lock; u32 nitems, busy; volatile u32 stop; u64 executions, points, states, pruned, hits, overflow; u32 nviol; u32 maxThreads; u64 maxChoices; Viol viol[MAXVIOL]; u64 progress; u64 shadowFull; volatile u64 sharedAdded; int error; char errmsg[200];
};
static Global *G; static Exec *X; static Item *items; static u64 *cache; static unsigned char *bitmap; static u64 bitmapBits;
static bool reduce_, outcomesOnly_; static int boundOverride_ = -1; static u64 *sharedSet; static u64 *dirty, *dirtyBefore; static int pass_; enum { SHARED_LOG2 = 20 };
extern "C" void mcs_reduce(void) { reduce_ = true; }
static mcs_space spaces_[64]; static int nspaces; static int tier_; static bool capture_, replay_;
extern "C" void mcs_register(const mcs_space *s) { if (nspaces == 64) die("too many spaces"); spaces_[nspaces++] = *s; }

// ---- threads, clocks, locations --------------------------------------------------------------------------------------
enum Op : u8 { OP_START, OP_ATOMIC, OP_LOCK, OP_WAKE, OP_FUTEX, OP_JOIN, OP_ONCE, OP_GUARD, OP_YIELD, OP_RDLOCK, OP_WRLOCK, OP_SYNC, OP_SLEEPING };
static const char *opName[] = {"start", "atomic operation", "mutex lock", "condition variable wait", "future wait", "thread join", "call_once", "static initialisation", "yield", "shared lock", "exclusive lock", "synchronisation", "wait with timeout"};
struct VC { u32 c[MAXT]; };
struct Th {
    int id; bool used, finished; Op op; void *addr; void *addr2; int join; bool woken, timed, timedOut; VC vc, acq, rel; u64 hash; int go; u64 nev; bool hidden, whole; int hideDepth; pthread_t real; void *(*fn)(void *); void *arg; void *ret;
    struct { void (*f)(void *); void *o; } dtors[64]; int ndtors; void *stack[200]; int depth; bool joined;
};
static Th th[MAXT]; static int nth; static __thread Th *self; static bool active; static int preemptLeft, spuriousLeft; static u64 progHash; static u32 nextDev, stampN, switches, stretch;
static inline bool on() { return __builtin_expect(active && self && !self->hidden, 0); }
struct Hidden { Th *t; Hidden() : t(self) { t->hidden = true; } ~Hidden() { t->hidden = t->hideDepth > 0; } };
static void join_(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Loc { void *addr; VC vc; u64 hash, reads; int owner, count; int readers; u16 rmask, wmask; };
// dense pools with small hash indexes, so that an execution touches few pages
enum { NLOC = 1 << 13, LOCIX = 1 << 14 }; static Loc *locs; static u16 *locIx; static u32 nlocs;
static Loc *loc(void *a, bool create = true) {
    for (u32 h = (u32)(mix(1, (u64)a >> 6) * 64 + ((u64)a & 63)) & (LOCIX - 1);; h = (h + 1) & (LOCIX - 1)) {
        if (locIx[h]) { if (locs[locIx[h]].addr == a) return &locs[locIx[h]]; continue; }
        if (!create) return nullptr;
        if (nlocs == NLOC - 1) die("too many locations");
        locIx[h] = (u16)++nlocs; locs[nlocs].addr = a; locs[nlocs].owner = -1; return &locs[nlocs]; }
}
static void resetLoc(Loc *l) { void *a = l->addr; memset(l, 0, sizeof *l); l->addr = a; l->owner = -1; }

static u64 stateHash() { u64 h = progHash; for (int i = 0; i < nth; ++i) h = mix(h, th[i].hash); return h; }
// Reduction (mcs_reduce): an operation on a location that no other thread touches while several threads live commutes with whatever the
// others do, so taking the processor away before it is the same as taking it away later. The set of locations that are in conflict in
// some execution of a program (a sequence of program choices) is computed as a fixpoint: a program is explored with the set found so
// far until an exploration adds nothing to it. dirty: programs whose set grew in this pass; only those are explored in the next pass.
static bool setHas(const u64 *t, u64 k) { for (u64 h = mix(5, k) & ((1u << SHARED_LOG2) - 1);; h = (h + 1) & ((1u << SHARED_LOG2) - 1)) { const u64 c = __atomic_load_n(&t[h], __ATOMIC_RELAXED); if (!c) return false; if (c == k) return true; } }
static bool setAdd(u64 *t, u64 k) { for (u64 h = mix(5, k) & ((1u << SHARED_LOG2) - 1);; h = (h + 1) & ((1u << SHARED_LOG2) - 1)) { u64 c = __atomic_load_n(&t[h], __ATOMIC_RELAXED); if (c == k) return false; if (!c) { if (__atomic_compare_exchange_n(&t[h], &c, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (c == k) return false; } } }
static bool sharedHas(void *a) { return setHas(sharedSet, mix(progHash, (u64)a)); }
static void sharedAdd(void *a) { if (setAdd(sharedSet, mix(progHash, (u64)a))) { setAdd(dirty, progHash); if (__atomic_add_fetch(&G->sharedAdded, 1, __ATOMIC_RELAXED) > (1u << SHARED_LOG2) * 3 / 4) die("too many shared locations"); } }
static int alive; // threads created and not joined, other than main
static void touched(Loc *l, bool write) {
    if (!reduce_ || alive == 0 || !l->addr) return; const u16 me = (u16)(1u << self->id); (write ? l->wmask : l->rmask) |= me;
    if ((l->wmask & ~me) || (write && (l->rmask & ~me))) sharedAdd(l->addr);
}
static void evRead(Loc *l, u64 what) { touched(l, false); self->hash = mix(mix(self->hash, what), l->hash); l->reads += mix(self->hash, 77); self->nev++; }
static void evWrite(Loc *l, u64 what) { touched(l, true); self->hash = mix(mix(mix(self->hash, what), l->hash), l->reads); l->hash = self->hash; l->reads = 0; self->nev++; }

static int sys_futex(int *a, int op, int v) { return (int)syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
static void finishExec(Status s) { X->status = s; _exit(0); }

static void putNote(const char *m) { u32 n = (u32)strlen(m); if (X->nnotes + n + 2 > NOTES) return; memcpy(X->notes + X->nnotes, m, n); X->nnotes += n; X->notes[X->nnotes++] = '\n'; X->notes[X->nnotes] = 0; }
// code addresses are reported as file+offset; run_check.py resolves them
static const char *symbol(void *pc) { Dl_info i; static char b[3][200]; static int k; char *o = b[k++ % 3]; if (pc && dladdr(pc, &i) && i.dli_fbase) { const char *s = strrchr(i.dli_fname, '/'); snprintf(o, 200, "%s+0x%lx", s ? s + 1 : i.dli_fname, (long)((char *)pc - (char *)i.dli_fbase)); } else snprintf(o, 200, "?"); return o; }
static void where(char *buf, size_t n, Th *t) { size_t k = 0; buf[0] = 0; for (int i = t->depth - 1, c = 0; i >= 0 && c < 6; --i, ++c) { int w = snprintf(buf + k, n - k, "%s%s", c ? " < " : "", symbol(t->stack[i])); if (w < 0 || (size_t)w >= n - k) break; k += w; } }
[[noreturn]] static void failf(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(X->msg, sizeof X->msg, f, a); va_end(a); X->status = FAIL; _exit(0); }

// ---- choices ---------------------------------------------------------------------------------------------------------
static u32 choice(u32 arity, bool prunable) {
    if (arity <= 1) return 0;
    if (X->n >= MAXCH) failf("the execution takes more than %d decisions (livelock?)", MAXCH);
    u32 v = 0; const u32 pos = X->n;
    if (nextDev < X->in.ndev) { if (X->in.dev[nextDev].pos == pos) { v = X->in.dev[nextDev].val; ++nextDev; if (v >= arity) { snprintf(X->msg, sizeof X->msg, "divergence at decision %u: option %u of %u", pos, v, arity); X->status = SCHED_ERROR; _exit(0); } } }
    else if (prunable && reduce_ && X->limit == UINT_MAX && (setHas(dirty, progHash) || (pass_ > 1 && !setHas(dirtyBefore, progHash)))) X->limit = pos; // to be explored in the next pass, or explored already
    else if (prunable && X->limit == UINT_MAX && cache) { // beyond the prefix: has this state been expanded with this budget?
        u64 k = mix(mix(stateHash(), self->id * 16 + self->op), spuriousLeft * 1000 + (u64)arity); const u64 tag = k & ~31ull, mine = tag | (u64)(preemptLeft > 30 ? 31 : preemptLeft + 1);
        u64 h = mix(k, 3) & ((1ull << CACHE_LOG2) - 1); bool done = false;
        for (int i = 0; i < 64 && !done; ++i, h = (h + 1) & ((1ull << CACHE_LOG2) - 1)) {
            u64 c = __atomic_load_n(&cache[h], __ATOMIC_RELAXED);
            while (true) {
                if (c == 0) { if (__atomic_compare_exchange_n(&cache[h], &c, mine, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { X->states++; if (bitmap && !outcomesOnly_) { u64 b = mix(k, 0x1234) & (bitmapBits - 1); __atomic_fetch_or(&bitmap[b >> 3], (unsigned char)(1u << (b & 7)), __ATOMIC_RELAXED); } done = true; break; } continue; }
                if ((c & ~31ull) != tag) break;
                if ((c & 31) >= (mine & 31)) { X->limit = pos; X->hit = 1; finishExec(OK); } // expanded already, by this budget or a larger one
                if (__atomic_compare_exchange_n(&cache[h], &c, mine, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { done = true; break; }
            }
        }
    }
    X->ch[pos].arity = (u16)arity; X->ch[pos].val = (u16)v; X->n = pos + 1;
    return v;
}
static void wake(Th *t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); sys_futex(&t->go, FUTEX_WAKE, 1); }
static void sleepUntilGo(Th *t) { while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) sys_futex(&t->go, FUTEX_WAIT, 0); __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST); }

static bool enabled(Th *t) {
    if (!t->used || t->finished) return false;
    Loc *l;
    switch (t->op) {
    case OP_LOCK: l = loc(t->addr); return l->owner < 0 || l->owner == t->id;
    case OP_RDLOCK: l = loc(t->addr); return l->owner < 0;
    case OP_WRLOCK: l = loc(t->addr); return l->owner < 0 && l->readers == 0;
    case OP_WAKE: return t->woken && (!t->addr2 || loc(t->addr2)->owner < 0);
    case OP_FUTEX: return t->woken;
    case OP_JOIN: return th[t->join].finished;
    case OP_ONCE: return *(volatile int *)t->addr != 1;
    case OP_GUARD: return ((volatile u8 *)t->addr)[1] == 0;
    default: return true;
    }
}
static void deadlock() {
    char b[3000]; size_t k = 0; k += snprintf(b, sizeof b, "deadlock: no thread can go on;");
    for (int i = 0; i < nth; ++i) if (!th[i].finished) { char w[600]; where(w, sizeof w, &th[i]); k += snprintf(b + k, sizeof b - k, " thread %d is in %s [%s];", i, opName[th[i].op], w); if (k > sizeof b - 700) break; }
    failf("%s", b);
}
static u64 ring[64]; // the operations of the thread that is running
static bool spinning() {
    if (stretch < 40) return false;
    for (u32 p = 2; p <= 10; ++p) { u32 k = 0; while (k < 40 - p && ring[(stretch - 1 - k) & 63] == ring[(stretch - 1 - k - p) & 63]) ++k; if (k == 40 - p) return true; }
    return false;
}
// picks who goes on; self's pending operation is self->op
static void schedule() {
    self->hash = mix(self->hash, 1000 + self->op);
    if (++X->points > 400000) failf("the execution does not end (400000 scheduling points)");
    bool forced = false; Th *cand[2 * MAXT]; bool spur[2 * MAXT]; int n = 0; const bool meOn = !self->finished && enabled(self);
    if (meOn && self->whole) return;
    ring[stretch++ & 63] = mix(self->op, (u64)self->addr);
    if (meOn && (stretch > 4000 || spinning())) { stretch = 0; forced = true; } // fairness: a thread that goes on and on, or round in circles, lets the others run
    const bool local = reduce_ && meOn && !forced && self->addr && (self->op == OP_ATOMIC || self->op == OP_LOCK || self->op == OP_SYNC || self->op == OP_GUARD || self->op == OP_ONCE) && !sharedHas(self->addr);
    if (meOn && self->op != OP_YIELD && !forced) { cand[n] = self; spur[n++] = false; }
    for (int i = 0; i < nth; ++i) if (&th[i] != self && enabled(&th[i])) { cand[n] = &th[i]; spur[n++] = false; }
    if (meOn && (forced || self->op == OP_YIELD) && (n == 0 || (!forced && preemptLeft > 0))) { cand[n] = self; spur[n++] = false; }
    const bool preempting = meOn && self->op != OP_YIELD && !forced; int usable = n;
    if (preempting && preemptLeft == 0) usable = 1;
    else if (spuriousLeft > 0) for (int i = 0; i < nth; ++i) { Th *t = &th[i]; if (t->used && !t->finished && (t->op == OP_WAKE) && !t->woken && (!t->addr2 || loc(t->addr2)->owner < 0)) { cand[usable] = t; spur[usable++] = true; } }
        for (int i = 0; usable == 0 && i < nth; ++i) if (th[i].used && !th[i].finished && th[i].timed && !th[i].woken && (th[i].op == OP_WAKE || th[i].op == OP_FUTEX) && (!th[i].addr2 || loc(th[i].addr2)->owner < 0)) { cand[0] = &th[i]; spur[0] = true; usable = 1; } // only time can pass
    if (usable == 0) deadlock();
    u32 c = 0;
    if (!local || usable <= 1 || (nextDev < X->in.ndev && X->in.dev[nextDev].pos == X->n)) c = choice(usable, true);
    else { if (X->n >= MAXCH) failf("the execution takes more than %d decisions (livelock?)", MAXCH); X->ch[X->n].arity = 1; X->ch[X->n++].val = 0; } // decisions are numbered as if every location were shared
    Th *t = cand[c];
    if (preempting && t != self) { if (!spur[c]) --preemptLeft; } else if (self->op == OP_YIELD && meOn && t == self && n > 1) --preemptLeft; // a yield that does not yield
    if (spur[c]) { if (!t->timed) --spuriousLeft; else t->timedOut = true; t->woken = true; t->hash = mix(t->hash, 4242); }
    if (t != self) {
        ++switches; stretch = 0;
        if (capture_) { char w[700], b[1000]; where(w, sizeof w, t); snprintf(b, sizeof b, "[decision %u] thread %d -> thread %d (%s%s) at %s", X->n, self->id, t->id, opName[t->op], spur[c] ? ", spurious or timed out" : "", w); putNote(b); }
        Th *me = self; wake(t); if (!me->finished) sleepUntilGo(me);
    }
}
static void point(Op op, void *addr) { self->op = op; self->addr = addr; schedule(); }

// ---- vector clocks ---------------------------------------------------------------------------------------------------
static inline void tick() { self->vc.c[self->id]++; }
static void acquire(Loc *l) { join_(self->vc, l->vc); }
static void release(Loc *l) { l->vc = self->vc; tick(); }
static void releaseMerge(Loc *l) { join_(l->vc, self->vc); tick(); }

// ---- plain accesses --------------------------------------------------------------------------------------------------
// per byte: last write, last read (or several), last atomic write, as epochs thread << 28 | clock
struct Cell { u32 w, r, a; };
struct Granule { u64 key; Cell c[8]; void *wpc, *rpc; };
enum { NGRAN = 60000, GRANIX = 1 << 16, NRVC = 1 << 14 }; static Granule *grans; static u16 *granIx; static u32 ngrans; static VC *rvcs; static u32 nrvcs;
static inline u32 epoch() { return (u32)self->id << 28 | (self->vc.c[self->id] & 0xfffffff) ; }
static inline bool before(u32 e) { return (e & 0xfffffff) <= self->vc.c[e >> 28]; }
enum { RV = 0xf0000000u };
static Granule *gran(u64 key, bool create) {
    for (u32 h = (u32)(mix(7, key >> 5) * 32 + (key & 31)) & (GRANIX - 1);; h = (h + 1) & (GRANIX - 1)) {
        if (granIx[h]) { if (grans[granIx[h]].key == key) return &grans[granIx[h]]; continue; }
        if (!create) return nullptr;
        if (ngrans == NGRAN - 1) { X->shadowFull = 1; return nullptr; }
        granIx[h] = (u16)++ngrans; grans[ngrans].key = key; return &grans[ngrans]; }
}
static u64 ignLo[32], ignHi[32]; static int nign;
[[noreturn]] static void race(const char *a, void *p, u32 size, int other, const char *b, void *opc, void *pc) {
    char w[1200]; where(w, sizeof w, self); failf("data race: thread %d %s %u bytes at %s [%s] while thread %d's %s at %s is not ordered before it", self->id, a, size, symbol(pc), w, other, b, symbol(opc));
}
static void access(void *p, u32 size, bool write, void *pc) {
    if (!on()) return;
    u64 a = (u64)p; for (int i = 0; i < nign; ++i) if (a >= ignLo[i] && a < ignHi[i]) return;
    const u32 e = epoch();
    for (u32 i = 0; i < size;) {
        Granule *g = gran((a + i) >> 3, true); u32 off = (a + i) & 7; if (!g) { i += 8 - off; continue; }
        for (; off < 8 && i < size; ++off, ++i) {
            Cell &c = g->c[off];
            if (c.w && !before(c.w)) race(write ? "writes" : "reads", p, size, c.w >> 28, "write", g->wpc, pc);
            if (c.a && !before(c.a)) race(write ? "writes" : "reads", p, size, c.a >> 28, "atomic write", g->wpc, pc);
            if (write) {
                if (c.r) { if ((c.r & RV) != RV) { if (!before(c.r)) race("writes", p, size, c.r >> 28, "read", g->rpc, pc); } else { VC &v = rvcs[c.r & ~RV]; for (int t = 0; t < MAXT; ++t) if (v.c[t] > self->vc.c[t]) race("writes", p, size, t, "read", g->rpc, pc); } }
                c.w = e; c.r = 0;
            } else if (c.r == 0 || (c.r & RV) == RV || c.r >> 28 == (u32)self->id || before(c.r)) { if ((c.r & RV) == RV) rvcs[c.r & ~RV].c[self->id] = e & 0xfffffff; else c.r = e; }
            else if (nrvcs < NRVC) { VC &v = rvcs[nrvcs]; memset(&v, 0, sizeof v); v.c[c.r >> 28] = c.r & 0xfffffff; v.c[self->id] = e & 0xfffffff; c.r = RV | nrvcs++; }
        }
        if (write) g->wpc = pc; else g->rpc = pc;
    }
}
static void atomicAccess(void *p, u32 size, bool write, void *pc) { // an atomic access against plain ones
    const u64 a = (u64)p; const u32 e = epoch();
    for (u32 i = 0; i < size; ++i) {
        Granule *g = gran((a + i) >> 3, write); if (!g) return; Cell &c = g->c[(a + i) & 7];
        if (c.w && !before(c.w)) race(write ? "atomically writes" : "atomically reads", p, size, c.w >> 28, "plain write", g->wpc, pc);
        if (write) { if (c.r) { if ((c.r & RV) != RV) { if (!before(c.r)) race("atomically writes", p, size, c.r >> 28, "plain read", g->rpc, pc); } else { VC &v = rvcs[c.r & ~RV]; for (int t = 0; t < MAXT; ++t) if (v.c[t] > self->vc.c[t]) race("atomically writes", p, size, t, "plain read", g->rpc, pc); } } c.a = e; g->wpc = pc; }
    }
}
static void forget(void *p, size_t n) { // freed memory: what is allocated there later is another object
    u64 a = (u64)p; for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) if (Granule *g = gran(k, false)) memset(g->c, 0, sizeof g->c);
    if (nlocs) for (u64 x = a & ~3ull; x < a + n; x += 4) if (Loc *l = loc((void *)x, false)) resetLoc(l);
}
static void freed(void *p, bool check, void *pc) {
    if (!active || !self || !p) return; const size_t n = malloc_usable_size(p); if (!n) return;
    if (check && on()) { // freeing conflicts with every access
        u64 a = (u64)p; for (u64 k = (a + 7) >> 3; k < (a + n) >> 3; ++k) if (Granule *g = gran(k, false)) for (Cell &c : g->c) {
            if (c.w && !before(c.w)) race("frees", p, (u32)n, c.w >> 28, "write", g->wpc, pc);
            if (c.r && (c.r & RV) != RV && !before(c.r)) race("frees", p, (u32)n, c.r >> 28, "read", g->rpc, pc);
            if ((c.r & RV) == RV) { VC &v = rvcs[c.r & ~RV]; for (int t = 0; t < MAXT; ++t) if (v.c[t] > self->vc.c[t]) race("frees", p, (u32)n, t, "read", g->rpc, pc); } }
    }
    forget(p, n);
}

// ---- instrumentation entry points ------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void *pc) { if (active && self) { if (self->depth < 200) self->stack[self->depth] = pc; ++self->depth; } }
void __tsan_func_exit() { if (active && self && self->depth > 0) --self->depth; }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, (u32)n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, (u32)n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on()) { access((void *)s, (u32)n, false, PC); access(d, (u32)n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on()) { access((void *)s, (u32)n, false, PC); access(d, (u32)n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on()) access(d, (u32)n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (on()) { access((void *)a, (u32)n, false, PC); access((void *)b, (u32)n, false, PC); } return __real_memcmp(a, b, n); }
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void aLoad(Loc *l, int mo) { evRead(l, 11 + mo); if (acq(mo)) acquire(l); else join_(self->acq, l->vc); }
static void aStore(Loc *l, int mo) { evWrite(l, 21 + mo); if (rel(mo)) release(l); else l->vc = self->rel; }
static void aRmw(Loc *l, int mo, u64 what) { evWrite(l, what); if (acq(mo)) acquire(l); else join_(self->acq, l->vc); if (rel(mo)) releaseMerge(l); else join_(l->vc, self->rel); }
template <class T> static T tLoad(volatile T *p, int mo, void *pc) { if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); Hidden h; point(OP_ATOMIC, (void *)p); atomicAccess((void *)p, sizeof(T), false, pc); T v = *p; aLoad(loc((void *)p), mo); return v; }
template <class T> static void tStore(volatile T *p, T v, int mo, void *pc) { if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } Hidden h; point(OP_ATOMIC, (void *)p); atomicAccess((void *)p, sizeof(T), true, pc); *p = v; aStore(loc((void *)p), mo); }
enum { XCHG, ADD, SUB, AND, OR, XOR, NAND };
template <class T> static T tRmw(volatile T *p, T v, int op, int mo, void *pc) {
    if (on()) { Hidden h; point(OP_ATOMIC, (void *)p); atomicAccess((void *)p, sizeof(T), true, pc); const T o = *p; switch (op) { case XCHG: *p = v; break; case ADD: *p = o + v; break; case SUB: *p = o - v; break; case AND: *p = o & v; break; case OR: *p = o | v; break; case XOR: *p = o ^ v; break; case NAND: *p = ~(o & v); break; } aRmw(loc((void *)p), mo, 31 + op); return o; }
    switch (op) { case XCHG: return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); case ADD: return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); case SUB: return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); case AND: return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); case OR: return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); case XOR: return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); default: return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
}
template <class T> static int tCas(volatile T *p, T *e, T d, int mo, int fmo, void *pc) {
    if (!on()) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    Hidden h; point(OP_ATOMIC, (void *)p); Loc *l = loc((void *)p);
    if (*p == *e) { atomicAccess((void *)p, sizeof(T), true, pc); *p = d; aRmw(l, mo, 41); return 1; }
    atomicAccess((void *)p, sizeof(T), false, pc); *e = *p; aLoad(l, fmo); return 0;
}
#define AT(bits, T) extern "C" { \
T __tsan_atomic##bits##_load(const volatile T *p, int mo) { return tLoad<T>((volatile T *)p, mo, PC); } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { tStore<T>(p, v, mo, PC); } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { return tRmw<T>(p, v, XCHG, mo, PC); } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { return tRmw<T>(p, v, ADD, mo, PC); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { return tRmw<T>(p, v, SUB, mo, PC); } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { return tRmw<T>(p, v, AND, mo, PC); } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { return tRmw<T>(p, v, OR, mo, PC); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { return tRmw<T>(p, v, XOR, mo, PC); } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { return tRmw<T>(p, v, NAND, mo, PC); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int f) { return tCas<T>(p, e, d, mo, f, PC); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int f) { return tCas<T>(p, e, d, mo, f, PC); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T d, int mo, int f) { tCas<T>(p, &e, d, mo, f, PC); return e; } }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
extern "C" {
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); if (!on()) return; self->hash = mix(self->hash, 51 + mo); if (acq(mo)) join_(self->vc, self->acq); if (rel(mo)) { self->rel = self->vc; tick(); } }
void __tsan_atomic_signal_fence(int) { }

// ---- memory ----------------------------------------------------------------------------------------------------------
void *malloc(size_t n) { return __libc_malloc(n); }
void free(void *p) { if (active && self) freed(p, false, PC); __libc_free(p); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (active && self && p) freed(p, false, PC); return __libc_realloc(p, n); }
}
namespace std { struct nothrow_t; enum class align_val_t : size_t; }
void *operator new(size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) die("out of memory"); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { freed(p, true, PC); __libc_free(p); }
void operator delete(void *p, size_t) noexcept { freed(p, true, PC); __libc_free(p); }
void operator delete[](void *p) noexcept { freed(p, true, PC); __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { freed(p, true, PC); __libc_free(p); }

// ---- threads ---------------------------------------------------------------------------------------------------------
static struct { const char *n; void *p; } reals[] = {{"pthread_create", 0}, {"pthread_join", 0}, {"pthread_detach", 0}, {"__cxa_thread_atexit", 0}, {"pthread_mutex_lock", 0}, {"pthread_mutex_trylock", 0}, {"pthread_mutex_unlock", 0}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", 0}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", 0}, {"__cxa_end_catch", 0}};
static void *realSym(const char *n) { for (auto &r : reals) if (!strcmp(r.n, n)) { if (!r.p) r.p = dlsym(RTLD_NEXT, n); return r.p; } return dlsym(RTLD_NEXT, n); }
template <class F> static F real(const char *n) { return (F)realSym(n); }
static void *threadMain(void *a) {
    Th *t = (Th *)a; self = t; sleepUntilGo(t); t->hidden = t->hideDepth > 0; // chosen for the first time
    t->ret = t->fn(t->arg);
    while (t->ndtors > 0) { --t->ndtors; t->dtors[t->ndtors].f(t->dtors[t->ndtors].o); } // thread_local destructors, under control
    t->hidden = true; t->finished = true; t->hash = mix(t->hash, 991);
    schedule(); // hands the baton on; this thread runs no more library code
    return t->ret;
}
extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!on()) { if (active && self) die("thread created while hidden"); return real<F>("pthread_create")(out, at, fn, arg); }
    Hidden h; point(OP_SYNC, nullptr);
    if (nth == MAXT) failf("more than %d threads", MAXT);
    Th *t = &th[nth]; t->id = nth; t->used = true; t->op = OP_START; t->fn = fn; t->arg = arg; t->vc = self->vc; t->vc.c[t->id] = 1; t->hash = mix(self->hash, 700 + nth); self->hash = mix(self->hash, 701); t->hidden = true; ++nth; ++alive; tick();
    if ((u32)nth > G->maxThreads) G->maxThreads = nth;
    const int r = real<F>("pthread_create")(&t->real, at, threadMain, t); if (r) die("pthread_create failed");
    *out = t->real; return 0;
}
int pthread_join(pthread_t p, void **ret) {
    typedef int (*F)(pthread_t, void **);
    if (!on()) { if (active && self && !self->finished) for (int i = 0; i < nth; ++i) if (th[i].used && th[i].real == p && i) die("join while hidden"); return real<F>("pthread_join")(p, ret); }
    Hidden h; int k = -1; for (int i = 1; i < nth; ++i) if (th[i].real == p && !th[i].joined) k = i;
    if (k < 0) die("join of an unknown thread");
    self->join = k; point(OP_JOIN, nullptr); th[k].joined = true; --alive; self->hash = mix(mix(self->hash, 702), th[k].hash); join_(self->vc, th[k].vc);
    return real<F>("pthread_join")(p, ret);
}
int pthread_detach(pthread_t p) { return real<int (*)(pthread_t)>("pthread_detach")(p); }
int __cxa_thread_atexit(void (*f)(void *), void *o, void *dso) {
    if (active && self && self->id) { if (self->ndtors == 64) die("too many thread_local objects"); self->dtors[self->ndtors].f = f; self->dtors[self->ndtors].o = o; ++self->ndtors; return 0; }
    return real<int (*)(void (*)(void *), void *, void *)>("__cxa_thread_atexit")(f, o, dso);
}
int sched_yield(void) { if (on()) { Hidden h; point(OP_YIELD, nullptr); } return 0; }
int nanosleep(const timespec *a, timespec *b) { if (on()) { Hidden h; point(OP_YIELD, nullptr); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) { if (on()) { Hidden h; point(OP_YIELD, nullptr); return 0; } return (int)syscall(SYS_clock_nanosleep, c, f, a, b); }
int usleep(useconds_t) { if (on()) { Hidden h; point(OP_YIELD, nullptr); } return 0; }

// ---- mutexes, condition variables ------------------------------------------------------------------------------------
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void gotMutex(Loc *l) { l->owner = self->id; l->count = 1; evWrite(l, 61); acquire(l); }
static void dropMutex(Loc *l) { l->owner = -1; l->count = 0; evWrite(l, 62); release(l); }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on()) return active && self ? 0 : real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m);
    Hidden h; Loc *l = loc(m); if (l->owner == self->id) { if (recursive(m)) { ++l->count; return 0; } char w[600]; where(w, sizeof w, self); failf("deadlock: thread %d locks a mutex it already holds [%s]", self->id, w); }
    point(OP_LOCK, m); gotMutex(loc(m)); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!on()) return active && self ? 0 : real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m);
    Hidden h; point(OP_SYNC, m); Loc *l = loc(m); if (l->owner >= 0) { if (l->owner == self->id && recursive(m)) { ++l->count; return 0; } evRead(l, 63); return EBUSY; } gotMutex(l); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on()) return active && self ? 0 : real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m);
    Hidden h; point(OP_SYNC, m); Loc *l = loc(m); if (l->owner != self->id) failf("thread %d unlocks a mutex it does not hold", self->id); if (--l->count == 0) dropMutex(l); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (on()) { Hidden h; if (Loc *l = loc(m, false)) { if (l->owner >= 0) failf("a locked mutex is destroyed"); resetLoc(l); } } return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    Hidden h; point(OP_SYNC, nullptr); Loc *l = loc(m); if (l->owner != self->id) failf("thread %d waits on a condition variable without holding the mutex", self->id);
    evWrite(loc(c), 64); dropMutex(loc(m)); self->woken = self->timedOut = false; self->timed = timed; self->addr2 = m; self->op = OP_WAKE; self->addr = c;
    Th *me = self; schedule(); // another thread goes on, until this one is woken and the mutex is free
    me->timed = false; me->addr2 = nullptr; gotMutex(loc(m)); return me->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) die("condition variable wait outside an execution"); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) { if (!on()) die("condition variable wait outside an execution"); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *) { if (!on()) die("condition variable wait outside an execution"); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!on()) return 0; Hidden h; point(OP_SYNC, c);
    Th *w[MAXT]; u32 n = 0; for (int i = 0; i < nth; ++i) if (th[i].used && !th[i].finished && th[i].op == OP_WAKE && th[i].addr == c && !th[i].woken && &th[i] != self) w[n++] = &th[i];
    Loc *l = loc(c); evWrite(l, 65); if (n) { Th *t = w[choice(n, true)]; t->woken = true; self->hash = mix(self->hash, t->id); l->hash = self->hash; t->hash = mix(t->hash, self->hash); }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) return 0; Hidden h; point(OP_SYNC, c); Loc *l = loc(c); evWrite(l, 66); for (int i = 0; i < nth; ++i) if (th[i].used && !th[i].finished && th[i].op == OP_WAKE && th[i].addr == c && !th[i].woken) { th[i].woken = true; th[i].hash = mix(th[i].hash, self->hash); } return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (on()) { Hidden h; for (int i = 0; i < nth; ++i) if (th[i].used && !th[i].finished && th[i].op == OP_WAKE && th[i].addr == c && !th[i].woken) failf("a condition variable is destroyed while thread %d waits on it", i); if (Loc *l = loc(c, false)) resetLoc(l); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *r) { if (!on()) return 0; Hidden h; point(OP_RDLOCK, r); Loc *l = loc(r); ++l->readers; evWrite(l, 67); acquire(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *r) { if (!on()) return 0; Hidden h; point(OP_WRLOCK, r); Loc *l = loc(r); l->owner = self->id; evWrite(l, 68); acquire(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *r) { if (!on()) return 0; Hidden h; point(OP_SYNC, r); Loc *l = loc(r); if (l->owner >= 0) { evRead(l, 69); return EBUSY; } ++l->readers; evWrite(l, 67); acquire(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *r) { if (!on()) return 0; Hidden h; point(OP_SYNC, r); Loc *l = loc(r); if (l->owner >= 0 || l->readers) { evRead(l, 69); return EBUSY; } l->owner = self->id; evWrite(l, 68); acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *r) { if (!on()) return 0; Hidden h; point(OP_SYNC, r); Loc *l = loc(r); if (l->owner == self->id) { l->owner = -1; evWrite(l, 70); release(l); } else { --l->readers; evWrite(l, 71); releaseMerge(l); } return 0; }

// ---- one-time initialisation -----------------------------------------------------------------------------------------
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    volatile int *s = (volatile int *)o;
    if (!on()) { if (*s == 2) return 0; *s = 1; fn(); *s = 2; return 0; }
    { Hidden h; point(OP_ONCE, (void *)o); Loc *l = loc((void *)o); if (*s == 2) { evRead(l, 81); acquire(l); return 0; } *s = 1; evWrite(l, 82); acquire(l); }
    try { fn(); } catch (...) { *s = 0; throw; }
    { Hidden h; point(OP_SYNC, (void *)o); *s = 2; Loc *l = loc((void *)o); evWrite(l, 83); release(l); }
    return 0;
}
int __cxa_guard_acquire(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    Hidden h; point(OP_GUARD, g); Loc *l = loc(g); if (b[0]) { evRead(l, 84); acquire(l); return 0; } b[1] = 1; evWrite(l, 85); acquire(l); return 1;
}
void __cxa_guard_release(u64 *g) { volatile u8 *b = (volatile u8 *)g; if (on()) { Hidden h; point(OP_SYNC, g); Loc *l = loc(g); evWrite(l, 86); release(l); } b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(u64 *g) { volatile u8 *b = (volatile u8 *)g; if (on()) { Hidden h; point(OP_SYNC, g); Loc *l = loc(g); evWrite(l, 87); release(l); } b[1] = 0; }

// ---- what libstdc++'s futures block on -------------------------------------------------------------------------------
static bool futexWait(unsigned *a, unsigned v, bool timed) {
    if (!on()) die("future wait outside an execution");
    Hidden h; point(OP_SYNC, a); Loc *l = loc(a); evRead(l, 91); if (*(volatile unsigned *)a != v) return true;
    self->woken = self->timedOut = false; self->timed = timed; self->op = OP_FUTEX; self->addr = a; self->addr2 = nullptr; schedule(); self->timed = false; return !self->timedOut;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool timeout, long, long) { return futexWait(a, v, timeout); }
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool timeout, long, long) { return futexWait(a, v, timeout); }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) { if (!on()) return; Hidden h; point(OP_SYNC, a); Loc *l = loc(a); evWrite(l, 92); for (int i = 0; i < nth; ++i) if (th[i].used && !th[i].finished && th[i].op == OP_FUTEX && th[i].addr == a && !th[i].woken) { th[i].woken = true; th[i].hash = mix(th[i].hash, self->hash); } }
// reference counting of exception objects happens inside libstdc++: order it, without scheduling points
static Loc excLoc;
static void excSync() { if (active && self) { evWrite(&excLoc, 95); join_(self->vc, excLoc.vc); join_(excLoc.vc, self->vc); tick(); } }
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *p) { excSync(); static void (*f)(void *); if (!f) f = real<void (*)(void *)>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"); f(p); }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *p) { excSync(); static void (*f)(void *); if (!f) f = real<void (*)(void *)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); f(p); }
void __cxa_end_catch(void) { excSync(); static void (*f)(void); if (!f) f = real<void (*)(void)>("__cxa_end_catch"); f(); excSync(); }

// ---- harness interface -----------------------------------------------------------------------------------------------
unsigned mcs_choose(unsigned n) { if (reduce_ && nth > 1) die("program choice after the first thread was created"); Hidden h; const u32 v = choice(n, false); progHash = mix(progHash, v + 100 * n); return v; }
int mcs_tier(void) { return tier_; }
void mcs_fail(const char *m) { failf("%s", m); }
void mcs_prune(void) { X->status = PRUNED_PROGRAM; _exit(0); }
void mcs_note(const char *m) { putNote(m); }
int mcs_capture(void) { return capture_; }
unsigned mcs_stamp(void) { static Loc l; if (active && self) evWrite(&l, 96); return ++stampN; }
int mcs_self(void) { return self ? self->id : -1; }
void mcs_hide(int on) { if (!self) return; self->hideDepth += on ? 1 : -1; self->hidden = self->hideDepth > 0; }
void mcs_ignore(const void *p, unsigned long n) { if (nign == 32) die("too many ignored ranges"); ignLo[nign] = (u64)p; ignHi[nign++] = (u64)p + n; }
void mcs_state(u64 h) { if (bitmap) { u64 b = mix(h, 0x777) & (bitmapBits - 1); __atomic_fetch_or(&bitmap[b >> 3], (unsigned char)(1u << (b & 7)), __ATOMIC_RELAXED); } }
void mcs_whole(int on) { if (self) self->whole = on; }
void mcs_yield(void) { if (on()) { Hidden h; point(OP_SYNC, nullptr); } }
}

// ---- explorer --------------------------------------------------------------------------------------------------------
static void *shared(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return p; }
static void lockG() { while (__atomic_exchange_n(&G->lock, 1, __ATOMIC_ACQUIRE)) { while (__atomic_load_n(&G->lock, __ATOMIC_RELAXED)) sched_yield(); } }
static void unlockG() { __atomic_store_n(&G->lock, 0, __ATOMIC_RELEASE); }
static void childRun(int sp) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPROF, SIG_DFL); { struct itimerval tv = {{0, 0}, {40, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); } // processor time: the sandbox may be paused
    if (nth) die("thread state"); Th *t = &th[0]; t->used = true; t->vc.c[0] = 1; t->hash = 12345 + sp; t->op = OP_START; nth = 1; nextDev = 0; X->n = 0; X->limit = UINT_MAX; X->status = RUNNING; X->points = X->states = 0; X->hit = X->shadowFull = 0; X->nnotes = 0; X->notes[0] = 0; X->msg[0] = 0;
    preemptLeft = boundOverride_ >= 0 ? boundOverride_ : spaces_[sp].bound[tier_]; spuriousLeft = spaces_[sp].spurious[tier_]; progHash = mix(99, sp); __libc_single_threaded = 0; self = t; active = true;
    spaces_[sp].fn();
    { Hidden h; for (int i = 1; i < nth; ++i) if (!th[i].finished) { t->join = i; point(OP_JOIN, nullptr); } } // whatever still runs, runs to its end
    active = false; finishExec(OK);
}
// runs one item in a child; returns what happened
static Status runItem(int sp, const Item *it) {
    X->in = *it; X->status = RUNNING; X->n = 0; const pid_t pid = fork(); if (pid < 0) { usleep(1000); return runItem(sp, it); }
    if (pid == 0) childRun(sp);
    int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) die("waitpid");
    if (X->status != RUNNING) return (Status)X->status;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { snprintf(X->msg, sizeof X->msg, "the execution does not end (40 s without a scheduling decision that ends it)"); return FAIL; }
    if (WIFSIGNALED(st)) { snprintf(X->msg, sizeof X->msg, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return FAIL; }
    if (WEXITSTATUS(st) == 98) return SCHED_ERROR;
    snprintf(X->msg, sizeof X->msg, "the process ended with exit code %d", WEXITSTATUS(st)); return FAIL;
}
static void worker(int sp, int id, int n, double deadline) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); (void)n;
    cpu_set_t all, one; if (!sched_getaffinity(0, sizeof all, &all)) { int k = CPU_COUNT(&all) ? id % CPU_COUNT(&all) : 0; for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); } }
    while (!G->stop) {
        lockG(); Item it; bool got = false; if (G->nitems) { it = items[--G->nitems]; ++G->busy; got = true; } const bool end = !got && G->busy == 0; unlockG();
        if (end) break; if (!got) { timespec ts{0, 300000}; syscall(SYS_nanosleep, &ts, nullptr); continue; }
        const Status s = runItem(sp, &it);
        lockG(); G->progress++; --G->busy;
        if (s == SCHED_ERROR) { G->error = 1; snprintf(G->errmsg, sizeof G->errmsg, "%.190s", X->msg); G->stop = 1; }
        else if (s == PRUNED_PROGRAM) { ++G->pruned; }
        else {
            ++G->executions; G->points += X->points; G->states += X->states; G->hits += X->hit; G->shadowFull += X->shadowFull; if (X->n > G->maxChoices) G->maxChoices = X->n;
            if (s == FAIL) { if (G->nviol < MAXVIOL) { Viol &v = G->viol[G->nviol++]; v.space = sp; memcpy(v.msg, X->msg, sizeof v.msg); v.item = it; } if (G->nviol >= MAXVIOL) G->stop = 1; }
        }
        if (s == OK || s == FAIL || s == PRUNED_PROGRAM) { // push the executions that deviate after this one's last deviation
            const u32 from = it.ndev ? it.dev[it.ndev - 1].pos + 1 : 0; u32 to = X->n; if (X->limit < to) to = X->limit;
            for (u32 p = from; p < to; ++p) for (u32 v = 1; v < X->ch[p].arity; ++v) {
                if (it.ndev == MAXDEV || G->nitems == MAXITEMS) { ++G->overflow; continue; }
                Item &c = items[G->nitems++]; c.ndev = it.ndev + 1; memcpy(c.dev, it.dev, it.ndev * sizeof(Dev)); c.dev[it.ndev].pos = p; c.dev[it.ndev].val = v; }
        }
        unlockG();
        if (now() > deadline) G->stop = 2;
    }
    _exit(0);
}
static void jstr(FILE *f, const char *s, size_t max = 100000) { fputc('"', f); for (size_t i = 0; s[i] && i < max; ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c == '\n') fputs("\\n", f); else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
// an execution is reported to the driver as the flat list pos,val,pos,val,...
static void *priv(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return p; }
static void childTables() { locs = (Loc *)priv(sizeof(Loc) * NLOC); locIx = (u16 *)priv(2 * LOCIX); grans = (Granule *)priv(sizeof(Granule) * NGRAN); granIx = (u16 *)priv(2 * GRANIX); rvcs = (VC *)priv(sizeof(VC) * NRVC); mallopt(M_ARENA_MAX, 1); }
int main(int argc, char **argv) {
    const char *out = nullptr, *shm = nullptr, *bits = nullptr, *rspace = nullptr, *rchoices = nullptr, *only = nullptr; double budget = 1e9; bool nocache = false; int nworkers = 8;
    for (int i = 1; i < argc; ++i) {
        const char *a = argv[i]; const char *v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--tier")) { tier_ = !strcmp(v, "thorough"); ++i; } else if (!strcmp(a, "--shard")) ++i; else if (!strcmp(a, "--out")) { out = v; ++i; } else if (!strcmp(a, "--shm")) { shm = v; ++i; } else if (!strcmp(a, "--bitmap")) { bits = v; ++i; }
        else if (!strcmp(a, "--replay")) { rspace = v; rchoices = i + 2 < argc ? argv[i + 2] : ""; i += 2; } else if (!strcmp(a, "--budget")) { budget = atof(v); ++i; } else if (!strcmp(a, "--mem")) ++i; else if (!strcmp(a, "--only")) { only = v; ++i; } else if (!strcmp(a, "--nocache")) nocache = true; else if (!strcmp(a, "--noreduce")) reduce_ = false; else if (!strcmp(a, "--outcomes")) outcomesOnly_ = true; else if (!strcmp(a, "--bound")) { boundOverride_ = atoi(v); ++i; } else if (!strcmp(a, "--jobs")) { nworkers = atoi(v); ++i; }
        else if (!strcmp(a, "--list")) { for (int k = 0; k < nspaces; ++k) printf("%s %d\n", spaces_[k].name, spaces_[k].minTier); return 0; }
    }
    sharedSet = (u64 *)shared(sizeof(u64) << SHARED_LOG2); dirty = (u64 *)shared(sizeof(u64) << SHARED_LOG2); dirtyBefore = (u64 *)shared(sizeof(u64) << SHARED_LOG2); G = (Global *)shared(sizeof(Global)); items = (Item *)shared(sizeof(Item) * (size_t)MAXITEMS); childTables();
    for (auto &r : reals) r.p = dlsym(RTLD_NEXT, r.n);
    if (bits) { int fd = open(bits, O_RDWR); if (fd >= 0) { off_t l = lseek(fd, 0, SEEK_END); bitmap = (unsigned char *)mmap(nullptr, l, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); bitmapBits = (u64)l * 8; } }
    FILE *f = out ? fopen(out, "w") : stdout; if (!f) return 98;
    X = (Exec *)shared(sizeof(Exec));
    if (rspace) {
        for (int k = 0; k < nspaces; ++k) if (!strcmp(spaces_[k].name, rspace)) {
            Item it; memset(&it, 0, sizeof it); const char *p = rchoices; while (*p) { char *e; u32 pos = (u32)strtoul(p, &e, 10); p = *e == ',' ? e + 1 : e; u32 val = (u32)strtoul(p, &e, 10); p = *e == ',' ? e + 1 : e; if (it.ndev < MAXDEV) { it.dev[it.ndev].pos = pos; it.dev[it.ndev++].val = val; } }
            capture_ = true; replay_ = true; const Status s = runItem(k, &it); if (s == SCHED_ERROR) { dprintf(2, "%s\n", X->msg); return 97; }
            fprintf(f, "{\"result\": %d, \"msg\": ", s == FAIL ? 1 : 0); jstr(f, X->msg); fprintf(f, ", \"notes\": "); jstr(f, X->notes); fprintf(f, "}\n"); fclose(f); return 0; }
        return 98;
    }
    volatile u64 *progress = nullptr; volatile u32 *shspace = nullptr;
    if (shm) { int fd = open(shm, O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 4096)) return 98; char *p = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); progress = (u64 *)p; shspace = (u32 *)(p + 8); }
    cache = nocache ? nullptr : (u64 *)shared(sizeof(u64) << CACHE_LOG2); // --nocache: every schedule, to test the state cache itself
    const double deadline = now() + budget; bool firstOut = true; static Viol all[64]; int nall = 0; fprintf(f, "{\"spaces\": [");
    for (int sp = 0; sp < nspaces; ++sp) {
        if (spaces_[sp].minTier > tier_ || (only && strcmp(only, spaces_[sp].name))) continue; if (shspace) *shspace = sp;
        int left_ = 0; for (int k = sp; k < nspaces; ++k) if (spaces_[k].minTier <= tier_) ++left_;
        const double spEnd = left_ == 1 ? deadline : now() + 2 * (deadline - now()) / left_; // no space starves the others
        u64 total = 0; int passes = 0; const double t0 = now(); u64 sharedN = 0; u64 sums[4] = {0, 0, 0, 0}; if (reduce_) { u64 *all3[] = {sharedSet, dirty, dirtyBefore}; for (u64 *t : all3) madvise(t, sizeof(u64) << SHARED_LOG2, MADV_REMOVE); }
    again:
        pass_ = ++passes; if (reduce_) { u64 *t = dirtyBefore; dirtyBefore = dirty; dirty = t; madvise(dirty, sizeof(u64) << SHARED_LOG2, MADV_REMOVE); }
        memset((void *)G, 0, sizeof *G); if (cache) madvise(cache, sizeof(u64) << CACHE_LOG2, MADV_REMOVE); G->sharedAdded = sharedN;
        Item root; memset(&root, 0, sizeof root); items[0] = root; G->nitems = 1;
        pid_t pids[64]; for (int w = 0; w < nworkers; ++w) { pid_t p = fork(); if (p < 0) return 98; if (p == 0) { X = (Exec *)shared(sizeof(Exec)); worker(sp, w, nworkers, spEnd); } pids[w] = p; }
        int left = nworkers; while (left) { int st; pid_t r = waitpid(-1, &st, WNOHANG); if (r > 0) { --left; if (!WIFEXITED(st) || WEXITSTATUS(st)) { G->error = 1; G->stop = 1; } } else { timespec ts{0, 2000000}; syscall(SYS_nanosleep, &ts, nullptr); } if (progress) *progress = G->progress + 1 + (u64)sp * 1000000000ull; }
        (void)pids; total += G->executions; sums[0] += G->points; sums[1] += G->states; sums[2] += G->hits; if (G->pruned > sums[3]) sums[3] = G->pruned;
        if (reduce_ && !G->error && !G->nviol && G->sharedAdded != sharedN && G->stop != 2) { sharedN = G->sharedAdded; goto again; }
        if (G->error) { dprintf(2, "explorer error in %s: %s\n", spaces_[sp].name, G->errmsg); return 98; }
        const bool complete = !G->stop && !G->overflow && !G->shadowFull;
        // one sample execution, the default schedule
        capture_ = true; u64 *c0 = cache; cache = nullptr; Item it; memset(&it, 0, sizeof it); (void)runItem(sp, &it); cache = c0; capture_ = false;
        char reduced[200] = ""; if (reduce_) snprintf(reduced, sizeof reduced, ", \"shared_locations\": %lu, \"passes\": %d", (unsigned long)sharedN, passes);
        fprintf(f, "%s{\"name\": ", firstOut ? "" : ", "); jstr(f, spaces_[sp].name); firstOut = false;
        fprintf(f, ", \"executions\": %lu, \"steps\": %lu, \"pruned\": %lu, \"max_choices\": %lu, \"complete\": %s, \"wall_s\": %.2f, \"samples\": [", (unsigned long)total, (unsigned long)sums[0], (unsigned long)sums[3], (unsigned long)G->maxChoices, complete ? "true" : "false", now() - t0); jstr(f, X->notes, 1500);
        fprintf(f, "], \"extra\": {\"preemption_bound\": %d, \"threads\": %u, \"states_expanded\": %lu, \"executions_cut_at_known_state\": %lu%s%s}}", spaces_[sp].bound[tier_], G->maxThreads, (unsigned long)sums[1], (unsigned long)sums[2], spaces_[sp].spurious[tier_] ? ", \"spurious_wakeups\": 1" : "", reduced);
        for (u32 i = 0; i < G->nviol && nall < 64; ++i) all[nall++] = G->viol[i];
        if (nall >= 10) break;
    }
    fprintf(f, "], \"violations\": [");
    for (int i = 0; i < nall; ++i) { fprintf(f, "%s{\"space\": ", i ? ", " : ""); jstr(f, spaces_[all[i].space].name); fprintf(f, ", \"msg\": "); jstr(f, all[i].msg); fprintf(f, ", \"choices\": ["); for (u32 d = 0; d < all[i].item.ndev; ++d) fprintf(f, "%s%u, %u", d ? ", " : "", all[i].item.dev[d].pos, all[i].item.dev[d].val); fprintf(f, "]}"); }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}
