// C17 (histories): the status registry and status objects over every history of registrations, assignments, moves, lookups and uses of
// the library by this and by other threads. Lookups are checked after every step.
#include "bn.h"
#include "expr.h"
#include <thread>
#include <optional>
using namespace bn; using pgbn::Status; typedef pgbn::Enum Enum;
static const char *PLACEHOLDER = "<ERROR_INFO>";
struct Builtin { Enum code; const char *text; };
static const Builtin builtins[] = { // the documented table
    {0, "[PGBN-Status: Success]Success"}, {1, "[PGBN-Status: Fault]Divide By Zero"}, {2, "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"}, {3, "[PGBN-Status: Error]Number String Empty"}, {4, "[PGBN-Status: Error]Number String Sig Invalid"},
    {5, "[PGBN-Status: Error]Parse String To Number Error"}, {6, "[PGBN-Status: Error]Arithmetic Overflow"}, {7, "[PGBN-Status: Error]Shift-Operator Invalid"}, {8, "[PGBN-Status: Error]Char Invalid"}, {9, "[PGBN-Status: Error]Not-Decimal But Real-Number"},
    {10, "[PGBN-Status: Error]Undefined Builtin Functions Or Contants"}, {11, "[PGBN-Status: Error]Builtin Sysmbol Is Invalid"}, {12, "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"}, {13, "[PGBN-Status: Error]Parse Literal To Number Error"}, {14, "[PGBN-Status: Error]Expected =="}, {15, "[PGBN-Status: Error]Bad Token"}, {16, ""}};
// lookups made before main, by an object constructed before the library's own globals
struct Early { std::string info[17], none; bool found[17], cb[17], foundNone, cbNone; Early() { for (Enum c = 0; c < 17; ++c) { info[c] = Status::getInfo(c); found[c] = Status::find(c); cb[c] = !!Status::getCallback(c); } none = Status::getInfo(987654); foundNone = Status::find(987654); cbNone = !!Status::getCallback(987654); } };
__attribute__((init_priority(101))) static Early early;
MC_SPACE("lookups before main", 1) {
    const Enum c = mc::choose(18);
    if (c == 17) { MC_CHECK(early.none == PLACEHOLDER && !early.foundNone && !early.cbNone, "an unregistered code looked up before main: \"%s\", found %d, callback %d", early.none.c_str(), early.foundNone, early.cbNone); return; }
    MC_NOTE("code %u", c); MC_CHECK(early.found[c], "built-in code %u is not registered before main", c); MC_CHECK(early.cb[c], "built-in code %u has no callback before main", c);
    if (c < 16) MC_CHECK(early.info[c] == builtins[c].text, "built-in code %u has the text \"%s\" before main", c, early.info[c].c_str()); else MC_CHECK(!early.info[c].empty() && early.info[c] != PLACEHOLDER, "code 16 has no text");
}
enum class MyCode : unsigned { BASE = 70000 };
static int fired[64]; static const Status *watched; static std::string seenText; static bool watching; // while an assignment runs, its callback must find the object already set
static void fire(int k) { ++fired[k]; if (watching && watched) seenText = watched->getInfo(); }
struct Entry { bool there; std::string text; int cb; }; // cb: -1 none, -2 built-in, else index in fired
struct World {
    Enum codes[5]; Entry e[5]; std::optional<Status> s[3]; std::optional<Enum> code[4]; int want[64]; int next = 0; std::vector<std::pair<int, std::tuple<std::string, pgbn::Callback>>> saved;
    World() {
        static Enum fresh = 100000; codes[0] = 0; codes[1] = 6; codes[2] = fresh++; codes[3] = fresh++; codes[4] = fresh++; // two built-in, two to be registered, one never
        for (int i = 0; i < 64; ++i) fired[i] = want[i] = 0;
        for (int i = 0; i < 5; ++i) { e[i] = Entry{i < 2, "", -1}; if (i < 2) { std::tuple<std::string, pgbn::Callback> *t = nullptr; Status::find(codes[i], &t); saved.push_back({i, *t}); e[i] = Entry{true, builtins[codes[i]].text, -2}; } }
        for (int i = 0; i < 3; ++i) { s[i].emplace(); code[i] = Status::INVALID; } *Status::getInstance() = Enum(0); code[3] = 0;
    }
    ~World() { for (int i = 0; i < 2; ++i) { std::tuple<std::string, pgbn::Callback> *t = nullptr; if (Status::find(codes[i], &t) && t) *t = saved[i].second; } }
    Status &obj(int i) { return i == 3 ? *Status::getInstance() : *s[i]; }
    const Entry &entry(Enum c) { static const Entry none{false, "", -1}; for (int i = 0; i < 5; ++i) if (codes[i] == c) return e[i]; return none; }
    void check(const char *when) {
        mc::step();
        for (int i = 0; i < 5; ++i) {
            const Enum c = codes[i]; std::tuple<std::string, pgbn::Callback> *t = (std::tuple<std::string, pgbn::Callback> *)1; const bool f = Status::find(c, &t), f2 = Status::find(c);
            MC_CHECK(f == e[i].there && f2 == f, "%s: code %d of the history is %sfound", when, i, f ? "" : "not "); MC_CHECK((t != nullptr) == f, "%s: code %d: find's result pointer is %p", when, i, (void *)t);
            const std::string &text = Status::getInfo(c); const std::string want_ = e[i].there ? e[i].text : PLACEHOLDER;
            MC_CHECK(text == want_, "%s: code %d has the text \"%s\", expected \"%s\"", when, i, text.c_str(), want_.c_str()); if (t) MC_CHECK(std::get<0>(*t) == want_, "%s: find gives the text \"%s\" for code %d", when, std::get<0>(*t).c_str(), i);
            const pgbn::Callback &cb = Status::getCallback(c); MC_CHECK(!!cb == (e[i].cb != -1), "%s: code %d has %s callback", when, i, cb ? "a" : "no"); if (cb && e[i].cb >= 0) { cb(); ++want[e[i].cb]; }
        }
        for (int i = 0; i < 4; ++i) if (code[i]) {
            const Entry &x = entry(*code[i]); const std::string &text = obj(i).getInfo(); MC_CHECK(text == (x.there ? x.text : PLACEHOLDER), "%s: status object %d says \"%s\"", when, i, text.c_str());
            const pgbn::Callback &cb = obj(i).getCallback(); MC_CHECK(!!cb == (x.cb != -1), "%s: status object %d has %s callback", when, i, cb ? "a" : "no"); if (cb && x.cb >= 0) { cb(); ++want[x.cb]; } }
        for (int k = 0; k < 64; ++k) MC_CHECK(fired[k] == want[k], "%s: the callback of registration %d ran %d times, expected %d", when, k, fired[k], want[k]);
    }
    void assigned(int i, Enum c) { code[i] = c; const Entry &x = entry(c); if (x.cb >= 0) ++want[x.cb]; }
    void reg(int i, bool cb, int style) {
        const int k = next++; std::string text = style % 3 == 2 ? std::string("x\0y", 3) + std::to_string(k) : style % 3 == 1 && k == 0 ? "" : "text " + std::to_string(k); const std::string buf = text + "garbage"; const std::string_view v(buf.data(), text.size());
        e[i] = Entry{true, text, cb ? k : -1};
        if (!cb) { if (style & 1) Status::registe(codes[i], v); else Status::registe(MyCode(codes[i]), v); }
        else if (style & 1) Status::registe(codes[i], v, fire, k); else Status::registe(MyCode(codes[i]), v, [k] { fire(k); });
    }
    void library(int kind) { // uses that set statuses themselves; what they leave in the global status is not this property's business
        switch (kind) {
        case 0: { Status st; bool ok; { BigInteger x; ok = true; (void)x.toString(10); } (void)ok; (void)pgbn::expr::eval("1+", &st); break; }
        case 1: { std::thread t([] { Status st; (void)Status::getInfo(2); *Status::getInstance() = Enum(2); Status u(Enum(3)); (void)u.getInfo(); (void)pgbn::expr::eval("7*6").toString(10); }); t.join(); break; }
        case 2: { (void)BigInteger("12z", 10); (void)(BigInteger("123456789012345678901234567890", 10) / BigInteger("7", 10)).toString(7); break; }
        }
    }
    // returns false when the operation is not part of the space
    bool op(unsigned k) {
        char w[100];
        if (k < 8) { const int i = k % 4; snprintf(w, sizeof w, "register code %d %s callback", i, k < 4 ? "without" : "with"); MC_NOTE("%s", w); reg(i, k >= 4, next + k); }
        else if (k < 24) { const int i = (k - 8) / 4, c = (k - 8) % 4; if (!e[c].there) return false; snprintf(w, sizeof w, "object %d = code %d", i, c); MC_NOTE("%s", w); watched = &obj(i); watching = true; seenText = "(not run)"; Status &r = (obj(i) = codes[c]); watching = false; if (e[c].cb >= 0) MC_CHECK(seenText == e[c].text, "the callback of code %d found the object saying \"%s\"", c, seenText.c_str()); MC_CHECK(&r == &obj(i), "assignment returns another object"); assigned(i, codes[c]); }
        else if (k < 28) { const int c = k - 24; if (!e[c].there) return false; snprintf(w, sizeof w, "object 2 = Status(code %d)", c); MC_NOTE("%s", w); s[2].emplace(codes[c]); assigned(2, codes[c]); }
        else if (k == 28) { snprintf(w, sizeof w, "object 1 = move(object 0)"); MC_NOTE("%s", w); if (!code[0]) return false; *s[1] = std::move(*s[0]); code[1] = code[0]; code[0].reset(); }
        else if (k == 29) { snprintf(w, sizeof w, "object 2 constructed from move(object 0)"); MC_NOTE("%s", w); if (!code[0]) return false; s[2].emplace(std::move(*s[0])); code[2] = code[0]; code[0].reset(); }
        else if (k == 30) { snprintf(w, sizeof w, "object 0 = move(object 2)"); MC_NOTE("%s", w); if (!code[2]) return false; *s[0] = std::move(*s[2]); code[0] = code[2]; code[2].reset(); }
        else { if (e[0].cb >= 0 || e[1].cb >= 0) { /* the library assigns SUCCESS a number of times */ } snprintf(w, sizeof w, "library use %u", k - 31); MC_NOTE("%s", w); const int f0 = e[0].cb >= 0 ? fired[e[0].cb] : 0; library(k - 31); if (e[0].cb >= 0) want[e[0].cb] += fired[e[0].cb] - f0; code[3].reset(); }
        check(w); return true;
    }
    u64 hash() { u64 h = 1; for (int i = 0; i < 4; ++i) { int j = 0; if (code[i]) { for (j = 0; j < 5; ++j) if (codes[j] == *code[i]) break; ++j; } h = mc::mix(h, j); } for (int i = 0; i < 5; ++i) h = mc::mix(h, e[i].there * 2 + (e[i].cb == -1) + (e[i].cb == -2) * 4); return h; }
};
enum { NOPS = 34 };
static void histories(unsigned depth) { World w; w.check("at the start"); for (unsigned d = 0; d < depth; ++d) { if (!w.op(mc::choose(NOPS))) mc::prune(); mc::state(w.hash()); } }
MC_SPACE("all histories of three operations", 2) { histories(3); }
MC_SPACE("all histories of four operations that start with two registrations or uses", 2) { World w; w.check("at the start"); for (unsigned d = 0; d < 4; ++d) { unsigned k = mc::choose(d < 2 ? 11 : NOPS); if (d < 2 && k >= 8) k = 31 + k - 8; if (!w.op(k)) mc::prune(); mc::state(w.hash()); } }
MC_SPACE_T("all histories of four operations", 2) { histories(4); }
MC_SPACE("every built-in code on this thread and on another", 1) {
    const Enum c = mc::choose(17); const unsigned how = mc::choose(4); const bool other = mc::choose(2); if (c == 1 && how) mc::prune(); // divide-by-zero ends the process unless its callback is replaced
    MC_NOTE("code %u, use %u, %s thread", c, how, other ? "another" : "this"); mc::step(); mc::state(c * 8 + how * 2 + other); std::string text; bool cb = false, before = false;
    auto f = [&] { switch (how) { case 0: before = Status::find(c); text = Status::getInfo(c); cb = !!Status::getCallback(c); break; case 1: { Status s(c); before = true; text = s.getInfo(); cb = !!s.getCallback(); break; } case 2: { Status s; s = c; before = true; text = s.getInfo(); cb = !!s.getCallback(); break; } case 3: { *Status::getInstance() = c; before = true; text = Status::getInstance()->getInfo(); cb = !!Status::getInstance()->getCallback(); break; } } };
    if (other) { std::thread t(f); t.join(); } else f();
    MC_CHECK(before && cb, "built-in code %u: found %d, callback %d", c, before, cb); if (c < 16) MC_CHECK(text == builtins[c].text, "built-in code %u has the text \"%s\"", c, text.c_str()); else MC_CHECK(!text.empty() && text != PLACEHOLDER, "built-in code 16 has no text");
}
MC_SPACE("contexts belong to their object", 2) {
    // set and read contexts of three objects and the global one, with moves between them
    std::optional<Status> s[2]; s[0].emplace(); s[1].emplace(); int v[3] = {0, 0, 0}; auto obj = [&](int i) -> Status & { return i == 2 ? *Status::getInstance() : *s[i]; }; bool live[3] = {true, true, true}; for (int i = 0; i < 3; ++i) obj(i).setContext(std::any(v[i] = 100 + i)); int next = 1;
    for (unsigned d = 0; d < 4; ++d) {
        const unsigned k = mc::choose(9); mc::step();
        if (k < 3) { MC_NOTE("context of %u set", k); obj(k).setContext(std::any(v[k] = next++)); live[k] = true; } else if (k < 6) { const int i = k - 3; if (!live[i]) mc::prune(); MC_NOTE("code of %d set", i); obj(i) = Enum(0); live[i] = false; } else if (k == 6) { if (!live[0]) mc::prune(); MC_NOTE("1 = move(0)"); *s[1] = std::move(*s[0]); v[1] = v[0]; live[1] = true; live[0] = false; } else if (k == 7) { if (!live[1]) mc::prune(); MC_NOTE("0 = move(1)"); *s[0] = std::move(*s[1]); v[0] = v[1]; live[0] = true; live[1] = false; } else { MC_NOTE("another thread's global status gets a context"); std::thread t([] { Status::getInstance()->setContext(std::any(-1)); }); t.join(); }
        for (int i = 0; i < 3; ++i) if (live[i]) MC_CHECK(obj(i).context<int>() == v[i], "object %d has the context %d, expected %d", i, obj(i).context<int>(), v[i]);
    }
}
MC_SPACE("many codes that agree in their low or high bits", 1) {
    static const std::vector<Enum> STEP{1, 7, 32, 256, 65536, 65537, 1u << 24, 1u << 20}; const Enum step = mc::pick(STEP), base = mc::choose(2) ? 0x50000u + 17 : 0x7ffffff0u; const unsigned n = 1 + mc::choose(mc::tier() ? 1200 : 300); if (n > 60 && n % 30) mc::prune(); static u64 round = 0; ++round; std::map<Enum, std::string> m; MC_NOTE("%u codes from %u in steps of %u", n, base, step);
    for (unsigned i = 0; i < n; ++i) { const Enum c = base + i * step; if (c < 400) continue; m[c] = "r" + std::to_string(round) + "c" + std::to_string(c) + (i % 50 == 3 ? std::string(70000, 'L') : ""); Status::registe(c, m[c]); }
    mc::step(n); mc::state(mc::mix(step, mc::mix(base, n)));
    for (auto &[c, text] : m) { MC_CHECK(Status::find(c), "code %u is not found", c); MC_CHECK(Status::getInfo(c) == text, "code %u has the text \"%s\", expected \"%s\"", c, Status::getInfo(c).substr(0, 100).c_str(), text.substr(0, 100).c_str()); Status s; s = c; MC_CHECK(s.getInfo() == text, "a status of code %u says \"%s\"", c, s.getInfo().substr(0, 100).c_str()); }
    for (Enum c = 0; c < 16; ++c) MC_CHECK(Status::getInfo(c) == builtins[c].text, "built-in code %u now says \"%s\"", c, Status::getInfo(c).substr(0, 100).c_str());
}
MC_MAIN()
