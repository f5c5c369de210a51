// C12/C13: expressions nested deeper than a thread's stack can hold. Every evaluation runs in a forked child, in a thread
// with the usual 8 MB of stack, so that its death is an observation and not the end of the exploration.
#include "exprspaces.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace exprs;
struct Job { const std::string *s; int *out; bool par; };
static void *work(void *p) {
    const Job &j = *(Job *)p; pgbn::Status st; st = pgbn::ErrCode::SUCCESS;
    const BigInteger x(j.par ? pgbn::expr::peval(*j.s, 2, &st) : pgbn::expr::eval(*j.s, &st));
    j.out[1] = x.toString().size() < 12 ? std::atoi(x.toString().c_str()) : -1; j.out[2] = st.getInfo() != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS); j.out[0] = 1; return nullptr;
}
static void deep(const std::string &s, const char *what, unsigned n, bool par, bool wellFormed, int value) {
    stdEnv(); MC_NOTE("%u %s", n, what); mc::step(); mc::state(mc::hashStr(what) + n * 2 + par);
    int *out = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const pid_t pid = fork();
    if (!pid) {
        Job j{&s, out, par}; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8u << 20); pthread_t t;
        if (pthread_create(&t, &a, work, &j)) _exit(95);
        pthread_join(t, nullptr); _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0); const int done = out[0], v = out[1], err = out[2]; munmap(out, 4096);
    MC_CHECK(!WIFSIGNALED(st), "the process died by signal %d evaluating %u %s%s", WTERMSIG(st), n, what, par ? " in parallel" : "");
    MC_CHECK(done, "the evaluation of %u %s ended the process with exit code %d", n, what, WEXITSTATUS(st));
    if (wellFormed) MC_CHECK(v == value && !err, "%u %s evaluate to %d instead of %d%s", n, what, v, value, err ? ", with an error status" : "");
    else MC_CHECK(v == 0 && err, "%u %s evaluate to %d%s", n, what, v, err ? "" : " without an error status");
}
static unsigned depth() { static const std::vector<unsigned> N{1000, 2000, 4000, 200000}; return mc::pick(N); }
static std::string rep(const char *p, unsigned n) { std::string s; for (unsigned i = 0; i < n; ++i) s += p; return s; }
#ifdef MC_MALFORMED
MC_SPACE("malformed expressions deeper than the stack", 2) {
    const unsigned n = depth(), shape = mc::choose(3);
    switch (shape) {
    case 0: deep(rep("(", n), "unclosed brackets", n, false, false, 0); break;
    case 1: deep(rep("(", n) + "1" + rep(")", n - 1), "brackets, one of them not closed", n, false, false, 0); break;
    case 2: deep(rep("g(", n), "unclosed calls", n, false, false, 0); break;
    }
}
#else
MC_SPACE("expressions deeper than the stack", 2) {
    const unsigned n = depth(), shape = mc::choose(5);
    switch (shape) {
    case 0: deep(rep("(", n) + "1" + rep(")", n), "nested brackets", n, false, true, 1); break;
    case 1: deep("1" + rep("+1", n), "additions", n, false, true, n + 1); break;
    case 2: deep(rep("-", n) + "1", "signs", n, false, true, 1); break;
    case 3: deep(rep("0?1:", n) + "1", "conditionals", n, false, true, 1); break;
    case 4: deep(rep("g(", n) + "0" + rep(")", n), "nested calls", n, false, true, n); break;
    }
}
#endif
MC_MAIN()
