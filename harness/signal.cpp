// C16: real processes, real signals.  For every history of entering and leaving protected sections, every placement
// of up to N signals at the library calls made inside the operations, between the operations and inside the handlers
// is run in a process of its own; what happened is recorded in shared memory and judged by the parent.
#include "vcommon.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <time.h>
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C16";
enum { BEGIN, END, SENT, WORK, EXITFN, BADFLAG };
struct Shared {
    volatile int n, points;
    struct { int what, arg; } ev[512];
};
static Shared* S;
static void record(int what, int arg)
{
    if (S->n < 512) {
        S->ev[S->n].what = what, S->ev[S->n].arg = arg;
        S->n++;
    }
}
struct Inj {
    int at, sig;
};
static std::vector<Inj>* Plan = nullptr; // armed in the child only
static void point()
{
    if (!Plan)
        return;
    int k = S->points++;
    for (auto& i : *Plan)
        if (i.at == k) {
            record(SENT, i.sig);
            raise(i.sig);
        }
}
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" {
sighandler_t signal(int s, sighandler_t h) noexcept
{
    REAL(signal);
    point();
    auto r = real(s, h);
    point();
    return r;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o) noexcept
{
    REAL(sigaction);
    point();
    auto r = real(s, a, o);
    point();
    return r;
}
int sigprocmask(int h, const sigset_t* a, sigset_t* o) noexcept
{
    REAL(sigprocmask);
    point();
    auto r = real(h, a, o);
    point();
    return r;
}
int pthread_sigmask(int h, const sigset_t* a, sigset_t* o) noexcept
{
    REAL(pthread_sigmask);
    point();
    auto r = real(h, a, o);
    point();
    return r;
}
int gettimeofday(struct timeval* t, void* z) noexcept
{
    point();
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec, t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(write);
    auto r = real(fd, b, n);
    point();
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    REAL(writev);
    auto r = real(fd, v, n);
    point();
    return r;
}
}
static void at_exit()
{
    record(EXITFN, 0);
}
static void child(const std::string& ops, std::vector<Inj> plan)
{
    struct itimerval off = {};
    setitimer(ITIMER_REAL, &off, 0);
    for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGINT, SIGTERM })
        signal(s, SIG_DFL);
    alarm(20);
    atexit(at_exit);
    LOGGER_CONF("/dev/null", "MC", Logger::file_on | Logger::screen_on, INFO, INFO);
    static char mem[sizeof(InterruptHandler)] __attribute__((aligned(16)));
    InterruptHandler* h = nullptr;
    Plan = &plan;
    for (size_t i = 0; i < ops.size(); i++) {
        point();
        char o = ops[i];
        if (o == 'w') {
            record(WORK, (int)i);
            continue;
        }
        record(BEGIN, (int)i);
        if (o == 'C')
            h = new (mem) InterruptHandler();
        else if (o == 'X')
            h->~InterruptHandler();
        else if (o == 'D')
            h->Delay();
        else if (o == 'R')
            h->Resume();
        record(END, (int)i);
        if (o != 'X' && h->IsDelaying() != (o == 'D'))
            record(BADFLAG, (int)i);
    }
    point();
    Plan = nullptr;
    _exit(200);
}
static std::string show(const std::string& ops, int status)
{
    std::string s = "history " + ops + ":";
    for (int i = 0; i < S->n; i++) {
        int a = S->ev[i].arg;
        switch (S->ev[i].what) {
        case BEGIN: s += V::fmt(" (%c", ops[a]); break;
        case END: s += V::fmt(" %c)", ops[a]); break;
        case SENT: s += V::fmt(" <signal %d>", a); break;
        case WORK: s += " work"; break;
        case EXITFN: s += " exit"; break;
        case BADFLAG: s += " wrong-flag"; break;
        }
    }
    return s + (WIFSIGNALED(status) ? V::fmt("; killed by signal %d", WTERMSIG(status)) : V::fmt("; exit status %d", WEXITSTATUS(status)));
}
static const char* judge(const std::string& ops, int status)
{
    bool built = false, open = false, pending = false, must = false; // must: nothing may follow any more
    char cur = 0;
    bool mayEnd = false, anySent = false, handled = false, raw = false;
    int exits = 0;
    for (int i = 0; i < S->n; i++) {
        int a = S->ev[i].arg;
        switch (S->ev[i].what) {
        case BEGIN:
            if (must)
                return "acted-late";
            cur = ops[a];
            if (cur == 'R' && pending)
                mayEnd = true;
            break;
        case END:
            if (must)
                return "acted-late";
            cur = 0;
            switch (ops[a]) {
            case 'C': built = true; break;
            case 'X': built = false; break;
            case 'D':
                open = true;
                if (pending)
                    mayEnd = false;
                break;
            case 'R':
                if (pending)
                    return "lost";
                open = false;
                break;
            }
            break;
        case WORK:
            if (must)
                return "acted-late";
            break;
        case BADFLAG: return "flag";
        case EXITFN: exits++; break;
        case SENT:
            anySent = true;
            if (cur == 'D' && !open)
                pending = true, mayEnd = true; // either at once or when the section ends
            else if (cur == 'R' && open)
                pending = true, mayEnd = true;
            else if (cur == 'C' || cur == 'X')
                must = true, handled = raw = true;
            else if (open)
                pending = true;
            else if (built)
                must = true, handled = true;
            else
                must = true, raw = true;
        }
    }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
        return "hang";
    bool normal = WIFEXITED(status) && WEXITSTATUS(status) == 200;
    if (!anySent)
        return normal ? nullptr : "disturbed";
    if (normal)
        return "ignored";
    if (!must && !mayEnd)
        return "inside";
    bool ok = false;
    for (int i = 0; i < S->n; i++)
        if (S->ev[i].what == SENT) {
            if (WIFSIGNALED(status))
                ok |= WTERMSIG(status) == S->ev[i].arg && raw;
            else
                ok |= WEXITSTATUS(status) == S->ev[i].arg && (handled || pending);
        }
    if (!ok)
        return "status";
    if (WIFEXITED(status) && exits != 1)
        return "not-once";
    return nullptr;
}
static uint64_t runs = 0, hist = 0;
static int MaxSignals;
static void explore(const std::string& ops, std::vector<Inj>& plan)
{
    V::beat()++;
    S->n = S->points = 0;
    pid_t p = fork();
    if (!p)
        child(ops, plan);
    int st = 0;
    while (waitpid(p, &st, 0) < 0)
        ;
    runs++;
    if (const char* t = judge(ops, st)) {
        static std::map<std::string, const char*> text = {
            { "acted-late", "a signal outside any section is not acted on at once" }, { "lost", "a signal held back is not acted on when the section ends" },
            { "flag", "IsDelaying() is wrong" }, { "hang", "the process hangs" }, { "disturbed", "no signal was sent but the process did not run to its end" },
            { "ignored", "the signal had no effect" }, { "inside", "the process ended inside a protected section" }, { "status", "the process ended in another way than by the signal sent" }, { "not-once", "the exit was not performed exactly once" }
        };
        V::viol(P, t, std::string(text[t]) + "; " + show(ops, st));
    }
    if ((int)plan.size() >= MaxSignals)
        return;
    int n = S->points, from = plan.empty() ? 0 : plan.back().at;
    for (int k = from; k < n; k++)
        for (int s : { SIGINT, SIGTERM }) {
            if (!plan.empty() && k == plan.back().at && s <= plan.back().sig)
                continue; // two signals at one point: both orders are the same up to the kernel
            plan.push_back({ k, s });
            explore(ops, plan);
            plan.pop_back();
        }
}
static void histories(std::string s, int left, bool open, std::vector<std::string>& out)
{
    out.push_back(s + (open ? "R" : "") + "Xw");
    if (!left)
        return;
    if (s.back() != 'w')
        histories(s + "w", left - 1, open, out);
    if (open)
        histories(s + "R", left - 1, false, out);
    else
        histories(s + "D", left - 1, true, out);
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P, 60);
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    MaxSignals = V::argi("signals", 2);
    std::vector<std::string> hs;
    histories("C", V::argi("depth", 5), false, hs);
    hs.push_back("wCDwRXwCDwRXw"); // a second handler after the first
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    int shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    for (size_t i = 0; i < hs.size(); i++)
        if ((int)(i % shards) == shard) {
            std::vector<Inj> plan;
            uint64_t r = runs;
            explore(hs[i], plan);
            hist++;
            if (hist <= 2)
                V::sample(V::fmt("%s (C construct, D enter, R leave, w work, X destroy): %llu placements of up to %d signals", hs[i].c_str(), (unsigned long long)(runs - r), MaxSignals));
        }
    V::stati("states", hist);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
