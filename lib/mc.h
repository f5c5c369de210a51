// Stateless exhaustive explorer.
//
// A *space* is a function that makes its nondeterministic choices through mc::choose(n). The explorer executes the
// function once for every sequence of choices (depth-first, odometer order), so the set of executions is exactly the
// tree spanned by the choose() calls: nothing is sampled. An execution is identified by its choice sequence, which is
// also its replay recipe. Workers split a space by the choice prefix of length `shardDepth`.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

namespace mc {

typedef std::uint64_t u64;
typedef std::uint32_t u32;

constexpr u32 MAXCHOICES = 512;

struct Shared { // mapped file: lets the driver attribute a crash or hang to the execution that was running
    volatile u64 progress;
    volatile u32 space;
    volatile u32 n;
    volatile u32 choices[MAXCHOICES];
};

struct Fail { std::string msg; };
struct Skip { };     // this prefix belongs to another worker
struct Prune { };    // this execution is outside the space (counted apart)

struct Space { const char *name; void (*fn)(); u32 shardDepth; int minTier; };
inline std::vector<Space> &spaces() { static std::vector<Space> s; return s; }
struct Reg { Reg(const char *n, void (*f)(), u32 d, int t) { spaces().push_back({n, f, d, t}); } };

struct Violation { std::string space, msg, notes; std::vector<u32> choices; };

struct State {
    int tier = 0;
    u32 shard = 0, nshards = 1;
    bool replay = false, capture = false;
    Shared *sh = nullptr;
    Shared local{};
    std::vector<u32> choice, arity;  // current path
    u32 pos = 0;
    u32 shardDepth = 0;
    u64 prefixIndex = 0;
    bool prefixFresh = false;
    u64 executions = 0, steps = 0, skipped = 0;
    unsigned char *bitmap = nullptr;
    u64 bitmapBits = 0;
    std::string notes;
    double deadline = 0;
    bool timedOut = false;
};
inline State &S() { static State s; return s; }

inline int tier() { return S().tier; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline bool mine(u64 prefix) { // spread prefixes over the workers, deterministically
    u64 h = prefix * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h % S().nshards == S().shard;
}

inline u32 choose(u64 n) {
    State &s = S();
    if (n == 0) { std::fprintf(stderr, "mc: empty choice\n"); std::_Exit(97); }
    if (s.pos >= MAXCHOICES) { std::fprintf(stderr, "mc: too many choices\n"); std::_Exit(97); }
    if (s.pos == s.choice.size()) {
        if (s.replay) { s.choice.push_back(0); s.arity.push_back((u32)n); }
        else { s.choice.push_back(0); s.arity.push_back((u32)n); }
    } else if (s.arity[s.pos] == 0) { s.arity[s.pos] = (u32)n; // replayed prefix
        if (s.choice[s.pos] >= n) { std::fprintf(stderr, "mc: replay choice out of range\n"); std::_Exit(97); }
    } else if (s.arity[s.pos] != n) { std::fprintf(stderr, "mc: replay divergence at %u: %u vs %" PRIu64 "\n", s.pos, s.arity[s.pos], n); std::_Exit(97); }
    const u32 c = s.choice[s.pos];
    s.sh->choices[s.pos] = c;
    ++s.pos;
    s.sh->n = s.pos;
    if (s.pos == s.shardDepth && !s.replay) {
        if (s.prefixFresh) { s.prefixFresh = false; ++s.prefixIndex; }
        if (!mine(s.prefixIndex)) throw Skip{};
    }
    return c;
}
template <class T> inline const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
inline void prune() { throw Prune{}; }

__attribute__((format(printf, 1, 2))) inline std::string strf(const char *f, ...) {
    char buf[1024]; va_list a; va_start(a, f); int n = std::vsnprintf(buf, sizeof buf, f, a); va_end(a);
    if (n < (int)sizeof buf) return std::string(buf, n < 0 ? 0 : n);
    std::string s(n + 1, 0); va_start(a, f); std::vsnprintf(&s[0], n + 1, f, a); va_end(a); s.resize(n); return s;
}
#define MC_NOTE(...) do { if (::mc::S().capture) ::mc::S().notes += ::mc::strf(__VA_ARGS__) + "\n"; } while (0)
[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(::mc::strf(__VA_ARGS__)); } while (0)

inline void step(u64 n = 1) { S().steps += n; }  // operations executed on the implementation and compared with the model
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xFF51AFD7ED558CCDull; return h ^ (h >> 33); }
inline u64 hashStr(const std::string &s, u64 h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }
inline void state(u64 h) { // a model state was reached; distinct states are counted by hash bucket (a lower bound)
    State &s = S(); if (!s.bitmap) return;
    u64 b = mix(h, 0x1234) & (s.bitmapBits - 1);
    unsigned char m = 1u << (b & 7);
    if (!(s.bitmap[b >> 3] & m)) __atomic_fetch_or(&s.bitmap[b >> 3], m, __ATOMIC_RELAXED);
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

#ifdef MC_MEMORY_ONLY // judged: memory errors (by the sanitizer or valgrind) and memory not released; wrong results are other properties' business
extern "C" std::size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline u64 liveBytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
#endif
#ifdef MC_VALGRIND
}
#include <valgrind/memcheck.h>
namespace mc {
#endif
void beforeExecution() __attribute__((weak)); // optional harness hook: reset global library state

// runs the current path once; returns 0 ok, 1 violation, 2 skipped, 3 pruned
inline int runPath(const Space &sp, std::string &msg) {
    State &s = S();
    s.pos = 0; s.sh->n = 0; s.sh->progress = s.sh->progress + 1; s.notes.clear();
    if (beforeExecution) beforeExecution();
    try { sp.fn(); }
    catch (Fail &f) { msg = f.msg; return 1; }
    catch (Skip &) { return 2; }
    catch (Prune &) { return 3; }
    return 0;
}
inline int runOnce(const Space &sp, std::string &msg) {
#ifndef MC_MEMORY_ONLY
    return runPath(sp, msg);
#else
    S().notes.reserve(1 << 18);
#ifdef MC_VALGRIND
    static u64 errs = VALGRIND_COUNT_ERRORS;
    int r = runPath(sp, msg); msg.clear(); if (r == 1) r = 0;
    const u64 e = VALGRIND_COUNT_ERRORS; if (e != errs) { errs = e; msg = "valgrind reports a memory error"; return 1; }
    return r;
#else
    // live memory must return to where it was; what the first run of a path allocates for good (lazily built tables) is not there again on a second run
    u64 leak = 0;
    for (int i = 0; i < 4; ++i) {
        int r; u64 before = liveBytes();
        { std::string m; r = runPath(sp, m); } if (r == 1) r = 0;
        const u64 after = liveBytes();
#ifdef MC_NO_LEAK
        return r;
#endif
        if (r == 2 || after <= before) return r;
        leak = after - before; (void)r;
    }
    msg = "the operations allocated " + std::to_string(leak) + " bytes that are not released when all objects are gone"; return 1;
#endif
#endif
}

inline int main_(int argc, char **argv) {
    State &s = S();
    std::string out, shm, bitmap, replaySpace, replayChoices, only;
    double budget = 1e9; u64 memMB = 3000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") s.tier = val() == "thorough";
        else if (a == "--shard") { std::string v = val(); std::sscanf(v.c_str(), "%u/%u", &s.shard, &s.nshards); }
        else if (a == "--out") out = val();
        else if (a == "--shm") shm = val();
        else if (a == "--bitmap") bitmap = val();
        else if (a == "--replay") { replaySpace = val(); replayChoices = val(); s.replay = true; }
        else if (a == "--only") only = val();
        else if (a == "--budget") budget = std::atof(val().c_str());
        else if (a == "--mem") memMB = std::atoll(val().c_str());
        else if (a == "--list") { for (auto &sp : spaces()) std::printf("%s %d\n", sp.name, sp.minTier); return 0; }
    }
    if (memMB) { rlimit r{memMB << 20, memMB << 20}; setrlimit(RLIMIT_AS, &r); }
    s.sh = &s.local;
    if (!shm.empty()) {
        int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600); if (ftruncate(fd, sizeof(Shared))) return 98;
        s.sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
    if (!bitmap.empty()) {
        int fd = open(bitmap.c_str(), O_RDWR); if (fd < 0) return 98;
        off_t len = lseek(fd, 0, SEEK_END);
        s.bitmap = (unsigned char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
        s.bitmapBits = (u64)len * 8;
    }
    s.deadline = now() + budget;
    FILE *of = out.empty() ? stdout : std::fopen(out.c_str(), "w");
    if (!of) return 98;

    if (s.replay) {
        for (u32 i = 0; i < spaces().size(); ++i) {
            const Space &sp = spaces()[i];
            if (replaySpace != sp.name) continue;
            s.sh->space = i;
            const char *p = replayChoices.c_str();
            while (*p) { s.choice.push_back((u32)std::strtoul(p, const_cast<char **>(&p), 10)); s.arity.push_back(0); if (*p == ',') ++p; }
            s.capture = true;
            std::string msg; int r = runOnce(sp, msg);
            std::fprintf(of, "{\"result\": %d, \"msg\": %s, \"notes\": %s}\n", r, jstr(msg).c_str(), jstr(s.notes).c_str());
            std::fclose(of);
            return 0;
        }
        std::fprintf(stderr, "mc: no such space\n");
        return 98;
    }

    std::string json = "{\"spaces\": [";
    std::vector<Violation> viol;
    bool first = true;
    for (u32 i = 0; i < spaces().size(); ++i) {
        const Space &sp = spaces()[i];
        if (sp.minTier > s.tier) continue;
        if (!only.empty() && only != sp.name) continue;
        s.sh->space = i;
        s.choice.clear(); s.arity.clear(); s.shardDepth = sp.shardDepth; s.prefixIndex = 0; s.prefixFresh = true;
        u64 exec0 = s.executions, steps0 = s.steps, pruned = 0, nviol = 0; size_t maxDepth = 0;
        std::vector<std::string> samples;
        double t0 = now(); bool complete = true;
        while (true) {
            const bool sample = s.executions - exec0 == 0 || s.executions - exec0 == 1500;
            s.capture = sample;
            std::string msg; const int r = runOnce(sp, msg);
            if (r == 0 || r == 1) {
                if (s.choice.size() < s.shardDepth) { // leaf above the shard depth: count it in one worker only
                    if (s.prefixFresh) { s.prefixFresh = false; ++s.prefixIndex; }
                    if (!mine(s.prefixIndex)) goto next;
                }
                ++s.executions;
                if (s.pos > maxDepth) maxDepth = s.pos;
                if (sample && r == 0) samples.push_back(s.notes);
                if (r == 1) {
                    viol.push_back({sp.name, msg, "", std::vector<u32>(s.choice.begin(), s.choice.begin() + s.pos)});
                    if (++nviol >= 20) { complete = false; break; }
                }
            } else if (r == 3) { ++pruned; }
            else ++s.skipped;
        next:
            // advance the odometer; choices beyond pos were not taken
            s.choice.resize(s.pos); s.arity.resize(s.pos);
            while (!s.choice.empty() && s.choice.back() + 1 == s.arity.back()) { s.choice.pop_back(); s.arity.pop_back(); }
            if (s.choice.empty()) break;
            ++s.choice.back();
            if (s.choice.size() <= s.shardDepth) s.prefixFresh = true;
            if ((s.executions & 255) == 0 && now() > s.deadline) { complete = false; s.timedOut = true; break; }
        }
        json += strf("%s{\"name\": \"%s\", \"executions\": %" PRIu64 ", \"steps\": %" PRIu64 ", \"pruned\": %" PRIu64 ", \"max_choices\": %zu, \"complete\": %s, \"wall_s\": %.2f, \"samples\": [",
            first ? "" : ", ", sp.name, s.executions - exec0, s.steps - steps0, pruned, maxDepth, complete ? "true" : "false", now() - t0);
        for (size_t k = 0; k < samples.size(); ++k) json += (k ? ", " : "") + jstr(samples[k].substr(0, 1500));
        json += "]}"; first = false;
    }
    json += "], \"violations\": [";
    for (size_t k = 0; k < viol.size(); ++k) {
        json += (k ? ", " : "") + ("{\"space\": " + jstr(viol[k].space)) + ", \"msg\": " + jstr(viol[k].msg) + ", \"choices\": [";
        for (size_t c = 0; c < viol[k].choices.size(); ++c) json += (c ? "," : "") + std::to_string(viol[k].choices[c]);
        json += "]}";
    }
    json += "]}\n";
    std::fputs(json.c_str(), of); std::fclose(of);
    return 0;
}

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// quick and thorough
#define MC_SPACE(name, depth) static void MC_CAT(mc_fn_, __LINE__)(); static ::mc::Reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_fn_, __LINE__), depth, 0); static void MC_CAT(mc_fn_, __LINE__)()
// thorough only
#define MC_SPACE_T(name, depth) static void MC_CAT(mc_fn_, __LINE__)(); static ::mc::Reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_fn_, __LINE__), depth, 1); static void MC_CAT(mc_fn_, __LINE__)()
#define MC_MAIN() int main(int argc, char **argv) { return ::mc::main_(argc, argv); }
