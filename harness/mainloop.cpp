// C21: the real worker program (main.cpp) under a clock, a file system and signals of the harness.  What it leaves on
// disk is compared, after every round of a hundred measurements, with what the specified loop over the same library
// leaves there.  Time advances and messages appear between rounds; signals arrive at any library call.
#include "jobworld.h"
#include <dlfcn.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dirent.h>
#include <time.h>
static const char* P = "C21";
int worker_main(int, const char**);
static JobWorld JW;
// ---- shared between the harness and the processes it starts ---------------------------------------------------
enum { MAXB = 400 };
struct Snap {
    uint64_t para, statis, rest;
    long printed;
    bool operator==(const Snap& o) const { return para == o.para && statis == o.statis && rest == o.rest; }
};
struct Trace {
    volatile uint64_t words;
    volatile int n;               // boundaries passed
    volatile int polls[MAXB];     // reference: what fell due (1 print, 2 save, 4 message, 8 reweight), 16 adopted, 32 reweighted
    uint64_t bound[MAXB], before[MAXB];
    Snap snap[MAXB];
    volatile int points, sent, sigBound;
    volatile uint64_t sigWords;
    Snap sigSnap;
    char error[512];
};
static Trace *TR, *TX; // reference, real
struct Inj {
    int at, sig;
};
struct Case {
    int toss = 1, sweep = 1, warm = 0;
    int iv[4] = { 1, 1, 1, 1 }; // print, save, message, reweight
    std::vector<int> adv;       // seconds passing before each explored poll
    std::vector<int> msg;       // version published before it (0: none)
    bool load = false;
    int first = 0; // version published before the start
    std::string file = "infile", type = "MC";
    std::vector<std::string> args = { "-f", "infile" };
    std::vector<Inj> plan;
    int polls() const { return warm + (int)adv.size() + 2; }
    int advance(int i) const { return i < warm ? 0 : i < warm + (int)adv.size() ? adv[i - warm] : 1000; }
    int version(int i) const { return i < warm || i >= warm + (int)msg.size() ? 0 : msg[i - warm]; }
    std::string show() const
    {
        std::string s = V::fmt("%s, thermalization %d, sweep %d, intervals print %d save %d message %d reweight %d; after %d rounds time passes", load ? "continued" : "new", toss, sweep, iv[0], iv[1], iv[2], iv[3], warm);
        for (size_t i = 0; i < adv.size(); i++)
            s += V::fmt(" %d", adv[i]) + (i < msg.size() && msg[i] ? V::fmt("+message %d", msg[i]) : std::string());
        if (args != std::vector<std::string>{ "-f", "infile" } || type != "MC") {
            s += "; started as type " + type + " with arguments";
            for (auto& a : args)
                s += " '" + a + "'";
        }
        for (auto& p : plan)
            s += V::fmt("; signal %d at point %d", p.sig, p.at);
        return s;
    }
};
// ---- clock --------------------------------------------------------------------------------------------------------
static bool Armed = false;
static long Now = 1000000;
static const std::vector<Inj>* Plan = nullptr;
static int Depth = 0;
static Snap look();
static void point()
{
    if (!Plan || Depth)
        return;
    int k = TX->points++;
    for (auto& i : *Plan)
        if (i.at == k) {
            if (!TX->sent) {
                Depth++;
                TX->sigSnap = look();
                Depth--;
                TX->sigWords = TX->words;
                TX->sigBound = TX->n;
            }
            TX->sent++;
            raise(i.sig);
        }
}
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" {
time_t time(time_t* t) noexcept
{
    point();
    struct timespec s;
    if (!Armed)
        syscall(228 /* clock_gettime */, CLOCK_REALTIME, &s);
    else
        s.tv_sec = Now;
    if (t)
        *t = s.tv_sec;
    return s.tv_sec;
}
int gettimeofday(struct timeval* t, void* z) noexcept
{
    point();
    struct timespec s;
    syscall(228, CLOCK_REALTIME, &s);
    if (Armed)
        s.tv_sec = Now, s.tv_nsec = 0;
    t->tv_sec = s.tv_sec, t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* s) noexcept
{
    point();
    int r = syscall(228, c, s);
    if (Armed && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE))
        s->tv_sec = Now, s->tv_nsec = 0;
    return r;
}
int rename(const char* a, const char* b) noexcept
{
    REAL(rename);
    point();
    int r = real(a, b);
    point();
    return r;
}
int unlink(const char* a) noexcept
{
    REAL(unlink);
    point();
    int r = real(a);
    point();
    return r;
}
#define OPENER(name)                             \
    int v_##name(const char* p, int f, ...) asm(#name); \
    int v_##name(const char* p, int f, ...)      \
    {                                            \
        static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name); \
        va_list a;                               \
        va_start(a, f);                          \
        int m = va_arg(a, int);                  \
        va_end(a);                               \
        point();                                 \
        int r = real(p, f, m);                   \
        point();                                 \
        return r;                                \
    }
OPENER(open)
OPENER(open64)
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(write);
    auto r = real(fd, b, n);
    point();
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    REAL(writev);
    auto r = real(fd, v, n);
    point();
    return r;
}
sighandler_t signal(int s, sighandler_t h) noexcept
{
    REAL(signal);
    point();
    auto r = real(s, h);
    point();
    return r;
}
}
// ---- files ----------------------------------------------------------------------------------------------------------
typedef std::map<std::string, std::string> Files;
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return i ? s.str() : std::string();
}
static void spit(const std::string& f, const std::string& s)
{
    std::ofstream o(f, std::ios::binary);
    o << s;
}
static Files Start;                 // what every run starts from
static Files Continued;             // the files a run left, to continue from
static std::map<int, Files> Public; // what a publication replaces
static void publish(int v)
{
    if (v)
        for (auto& f : Public[v])
            spit("_tmp_" + f.first, f.second), rename(("_tmp_" + f.first).c_str(), f.first.c_str());
}
static uint64_t fileHash(const std::string& s)
{
    V::H128 h;
    h.add(s.data(), s.size());
    return s.empty() ? 0 : h.a;
}
static long size(const char* f)
{
    struct stat s;
    return stat(f, &s) ? 0 : s.st_size;
}
static Snap look()
{
    Snap s;
    s.para = fileHash(slurp("7_MC_para.txt"));
    s.statis = fileHash(slurp("7_MC_statis.hkl"));
    s.rest = 0;
    for (auto f : { "infile.txt", "Weight.hkl", "Message.txt", "FermiBasis.dat.txt", "BoseBasis.dat.txt", "infile/_in_MC_7.txt", "elsewhere/input.txt" })
        s.rest = V::mix(s.rest ^ fileHash(slurp(f)));
    fflush(stdout);
    s.printed = size("7_MC.log") + size("out");
    return s;
}
static void clear(const std::string& dir)
{
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != ".." && n != "infile" && n != "elsewhere" && n.find(".py") == std::string::npos)
                ::unlink((dir + "/" + n).c_str());
        }
        closedir(d);
    }
}
static std::string settings(std::string t, const Case& c)
{
    auto put = [&](const char* key, int v) {
        std::string k = V::fmt("'%s': ", key);
        size_t p = t.find(k);
        if (p == std::string::npos)
            throw std::runtime_error("no " + k);
        size_t q = p += k.size();
        while (isdigit((unsigned char)t[q]))
            q++;
        t.replace(p, q - p, V::fmt("%d", v));
    };
    put("Toss", c.toss), put("Sweep", c.sweep), put("PrinterTimer", c.iv[0]), put("DiskWriterTimer", c.iv[1]), put("MessageTimer", c.iv[2]), put("ReweightTimer", c.iv[3]);
    return t;
}
static void prepare(const std::string& dir, const Case& c)
{
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/infile").c_str(), 0755), mkdir((dir + "/elsewhere").c_str(), 0755);
    clear(dir + "/infile"), clear(dir + "/elsewhere");
    clear(dir);
    for (auto& f : Start)
        spit(dir + "/" + f.first, f.second);
    if (c.load) // a continued run keeps the settings of its own parameter file
        for (auto& f : Continued)
            spit(dir + "/" + f.first, f.first == "7_MC_para.txt" ? settings(f.second, c) : f.second);
    if (c.first)
        for (auto& f : Public[c.first])
            spit(dir + "/" + f.first, f.second);
    std::string t = settings(JW.paraText(JW.Beta, 0, 3), c);
    spit(dir + "/" + c.file + ".txt", V::fmt("{'Job': {'Type': '%s', 'DoesLoad': %s, 'Sample': 50, 'PID': 7, 'WeightFile': 'Weight', 'MessageFile': 'Message'}, 'Para': %s}", c.type.c_str(), c.load ? "True" : "False", t.c_str()));
}
// ---- the random words, the same in both --------------------------------------------------------------------------------
struct Words : Verif::WordSource {
    std::mt19937 e{ 12345 };
    Trace* t;
    std::function<void()> hook;
    std::mt19937::result_type Word(int, int, int) override
    {
        if (hook)
            hook();
        V::beat()++;
        t->words++;
        return e();
    }
};
Verif::WordSource* Verif::Source = nullptr;
static void enter(const std::string& dir)
{
    struct itimerval off = {};
    setitimer(ITIMER_REAL, &off, 0);
    for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGINT, SIGTERM })
        signal(s, SIG_DFL);
    alarm(60);
    if (chdir(dir.c_str()))
        _exit(250);
    int n = open("out", O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(n, 1), dup2(n, 2);
}
// ---- the specification ----------------------------------------------------------------------------------------------------
static void reference(const Case& c)
{
    enter("ref");
    static Words w;
    w.t = TR;
    Verif::Source = &w;
    long now = 0, last[4] = { 0, 0, 0, 0 };
    auto boundary = [&] {
        TR->bound[TR->n] = TR->words;
        TR->snap[TR->n] = look();
        TR->n++;
    };
    try {
        para::Job job(c.file);
        EnvMonteCarlo E(job);
        if (c.load)
            E.Load();
        else
            E.BuildNew();
        if (E.ListenToMessage())
            TR->polls[0] |= 16;
        boundary();
        for (int i = 0; i < c.toss; i++)
            E.Markov.Hop(c.sweep);
        for (int p = 0; p < c.polls(); p++) {
            now += c.advance(p);
            publish(c.version(p));
            for (int i = 0; i < 100; i++) {
                E.Markov.Hop(c.sweep);
                E.MarkovMonitor.Measure();
            }
            TR->before[p + 1] = TR->words;
            E.MarkovMonitor.AddStatistics();
            int due = 0;
            for (int k = 0; k < 4; k++)
                if (now - last[k] >= c.iv[k])
                    due |= 1 << k, last[k] = now;
            if (due & 1)
                if (!E.Diag.CheckDiagram())
                    _exit(251);
            if (due & 2)
                E.Save();
            if (due & 4)
                if (E.ListenToMessage())
                    due |= 16;
            if (due & 8) {
                double before = E.Para.WormSpaceReweight;
                E.AdjustOrderReWeight();
                if (E.Para.WormSpaceReweight != before)
                    due |= 32;
            }
            TR->polls[p + 1] = due;
            boundary();
        }
    } catch (std::exception& e) {
        snprintf(TR->error, sizeof TR->error, "%s", e.what());
        _exit(252);
    }
    _exit(201);
}
// ---- the real program -------------------------------------------------------------------------------------------------------
static void realRun(const Case& c)
{
    enter("real");
    static Words w;
    w.t = TX;
    w.hook = [&] {
        int b = TX->n;
        if (b < TR->n && TX->words == TR->bound[b]) {
            Depth++;
            TX->bound[b] = TX->words;
            TX->snap[b] = look();
            TX->n++;
            if (b == c.polls())
                _exit(201);
            Now += c.advance(b);
            publish(c.version(b));
            Depth--;
            point();
        } else if (b < TR->n && b > 0 && TX->words + 1 == TR->before[b])
            point();
    };
    Verif::Source = &w;
    Armed = true;
    if (!c.plan.empty())
        Plan = &c.plan;
    std::vector<const char*> argv = { "worker" };
    for (auto& a : c.args)
        argv.push_back(a.c_str());
    argv.push_back(nullptr);
    int rc = 250;
    try {
        rc = worker_main((int)argv.size() - 1, argv.data());
    } catch (std::exception& e) {
        snprintf(TX->error, sizeof TX->error, "%s", e.what());
        _exit(252);
    }
    _exit(rc == 0 ? 202 : 203);
}
static int run(void (*f)(const Case&), const Case& c)
{
    V::beat()++;
    fflush(V::out());
    pid_t p = fork();
    if (!p)
        f(c);
    int st = 0;
    while (waitpid(p, &st, 0) < 0)
        ;
    return st;
}
static uint64_t runs = 0, cases = 0, rounds = 0, saves = 0, adopted = 0, reweighted = 0, printed = 0, pointsSeen = 0, delayed = 0;
static std::string how(int st, Trace* t)
{
    if (WIFSIGNALED(st))
        return V::fmt("killed by signal %d", WTERMSIG(st));
    return V::fmt("exit status %d %s", WEXITSTATUS(st), t->error);
}
static void referenceFor(const Case& c)
{
    memset((void*)TR, 0, sizeof(Trace));
    prepare("ref", c);
    int st = run(reference, c);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 201) {
        V::line("ERROR\treference: %s (%s)", how(st, TR).c_str(), c.show().c_str());
        V::line("END\t2");
        _exit(2);
    }
}
static std::string dueText(int d)
{
    std::string s;
    for (int k = 0; k < 4; k++)
        if (d & 1 << k)
            s += std::string(s.empty() ? "" : ", ") + (const char*[]){ "print", "save", "message", "reweight" }[k];
    return s.empty() ? "nothing" : s;
}
static bool follow(const Case& c)
{
    referenceFor(c);
    memset((void*)TX, 0, sizeof(Trace));
    prepare("real", c);
    int st = run(realRun, c);
    cases++, runs += 2, rounds += c.polls();
    for (int b = 0; b <= c.polls(); b++) {
        int d = TR->polls[b];
        saves += !!(d & 2), adopted += !!(d & 16), reweighted += !!(d & 32), printed += !!(d & 1);
        std::string at = V::fmt("%s; round %d, due: %s", c.show().c_str(), b, dueText(d).c_str());
        if (b >= TX->n) {
            V::viol(P, "stopped", at + ": the worker did not get through it: " + how(st, TX));
            return false;
        }
        const Snap &r = TR->snap[b], &x = TX->snap[b];
        if (r == x) {
            if (b && d == 1 && r.printed > TR->snap[b - 1].printed && !(x.printed > TX->snap[b - 1].printed)) {
                V::viol(P, "silent", at + ": nothing is printed");
                return false;
            }
            continue;
        }
        const Snap& o = b ? TX->snap[b - 1] : x;
        const char* t = r.rest != x.rest ? "input, weight, message or basis files were changed" : r.para != x.para ? (x.para == o.para ? "the saved configuration and parameters were not renewed" : b && r.para == TR->snap[b - 1].para ? "the configuration was saved although nothing was due" : "the saved configuration and parameters differ from those of the specified run") : x.statis == o.statis ? "the saved statistics were not renewed" : "the saved statistics differ from those of the specified run";
        V::viol(P, r.rest != x.rest ? "files" : r.para != x.para ? "configuration" : "statistics", at + ": " + t);
        return false;
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 201) {
        V::viol(P, "ended", c.show() + ": " + how(st, TX));
        return false;
    }
    return true;
}
// ---- signals -------------------------------------------------------------------------------------------------------------
static void signals(Case c, std::vector<Inj> plan, int from, int max, bool onlySave)
{
    // the plan without a signal gives the number of points
    c.plan = plan.empty() ? std::vector<Inj>{ { -1, 0 } } : plan;
    memset((void*)TX, 0, sizeof(Trace));
    prepare("real", c);
    int st = run(realRun, c);
    runs++;
    int npoints = TX->points;
    pointsSeen = std::max<uint64_t>(pointsSeen, npoints);
    bool inSave = false;
    if (!plan.empty()) {
        cases++;
        std::string at = c.show() + V::fmt(" (round %d, %llu random words used, due at its end: %s)", TX->sigBound, (unsigned long long)TX->sigWords, dueText(TX->sigBound < TR->n ? TR->polls[TX->sigBound] : 0).c_str());
        int b = TX->sigBound; // boundaries passed when the signal came
        if (!TX->sent) {
            V::line("ERROR\tpoint not reached: %s", at.c_str());
            return;
        }
        bool exited = WIFEXITED(st), ok = false;
        for (auto& p : plan)
            ok |= exited ? WEXITSTATUS(st) == p.sig : WTERMSIG(st) == p.sig;
        if (!ok) {
            V::viol(P, "signal", at + ": the worker ends otherwise: " + how(st, TX));
            return;
        }
        if (TX->words != TX->sigWords)
            V::viol(P, "late", at + V::fmt(": the worker goes on for %llu random words", (unsigned long long)(TX->words - TX->sigWords)));
        if (chdir("real"))
            _exit(2);
        Snap e = look();
        if (chdir(".."))
            _exit(2);
        if (b == 0) {
            if (e.statis != (c.load ? fileHash(Continued["7_MC_statis.hkl"]) : 0) || e.rest != TR->snap[0].rest)
                V::viol(P, "starting", at + ": stopped while starting, and the statistics, weight or message files are not as before");
            if (c.load && !(e == TR->snap[0]))
                V::viol(P, "starting", at + ": stopped while starting, and the files it was to continue from are not as before");
        } else {
            const Snap &o = TR->snap[b - 1], &n = TR->snap[std::min<int>(b, TR->n - 1)];
            bool old = e.para == o.para && e.statis == o.statis, nw = e.para == n.para && e.statis == n.statis;
            inSave = !old && nw;
            delayed += inSave;
            if (!old && !nw)
                V::viol(P, "torn", at + (e.para == n.para ? ": new configuration, old or damaged statistics" : e.statis == n.statis ? ": new statistics, old or damaged configuration" : ": the files left are of no save"));
            bool touched = TX->sigSnap.para != o.para || TX->sigSnap.statis != o.statis;
            (void)touched;
            if (e.rest != o.rest && e.rest != n.rest)
                V::viol(P, "files", at + ": input, weight, message or basis files were changed");
        }
    }
    if ((int)plan.size() >= max || (onlySave && !plan.empty() && !inSave))
        return;
    for (int k = from; k < npoints; k++)
        for (int s : { SIGINT, SIGTERM }) {
            if (V::nviol() > 20)
                return;
            if (plan.empty() && V::argi("shards", 1) > 1 && k % V::argi("shards", 1) != V::argi("shard", 0))
                continue;
            auto q = plan;
            q.push_back({ k, s });
            signals(c, q, k + 1, max, onlySave);
        }
}
int main(int argc, char** argv)
{
    if (!JobWorld::install(argv[0]))
        return 2;
    V::init(argc, argv);
    V::guard(P, 120);
    JW.setup();
    TR = (Trace*)mmap(0, 2 * sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    TX = TR + 1;
    // what is published
    double beta[] = { JW.Beta, JW.Beta, 1.5 * JW.Beta };
    for (int v = 0; v < 3; v++) {
        JW.writeWeights(5 + v);
        JW.writeBasis(beta[v]);
        Files f;
        for (auto n : { "Weight.hkl", "FermiBasis.dat.txt", "BoseBasis.dat.txt" })
            f[n] = slurp(n);
        if (v)
            f["Message.txt"] = V::fmt("{'Version': %d, 'Beta': %.17g, 'SqueezeFactor': %d}", v, beta[v], v);
        (v ? Public[v] : Start) = f;
    }
    std::string part = V::arg("part", "clock");
    Case c;
    c.toss = V::argi("toss", 3), c.sweep = V::argi("sweep", 1), c.warm = V::argi("warm", 0);
    // files to continue from
    {
        Case k = c;
        k.adv = { 5, 5 };
        k.warm = V::argi("prep", c.warm); // rounds of measurements they hold
        referenceFor(k);
        for (auto n : { "7_MC_para.txt", "7_MC_statis.hkl" })
            Continued[n] = slurp(std::string("ref/") + n);
        if (!TR->snap[k.polls()].statis)
            V::line("ERROR\tno files to continue from");
    }
    int shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    if (part == "clock") {
        std::vector<int> ivals, advs;
        auto list = [](std::string s) { std::vector<int> r; std::stringstream i(s); std::string x; while (std::getline(i, x, ',')) r.push_back(atoi(x.c_str())); return r; };
        ivals = list(V::arg("ivals", "1,2,3")), advs = list(V::arg("advs", "0,1,2"));
        int depth = V::argi("depth", 3), msgs = V::argi("msgs", 0);
        c.load = V::argi("load", 0), c.first = V::argi("first", 0);
        long idx = 0;
        std::vector<int> iv(4, 0);
        std::function<void(int)> intervals = [&](int k) {
            if (k == 4) {
                for (int i = 0; i < 4; i++)
                    c.iv[i] = ivals[iv[i]];
                long total = 1;
                for (int i = 0; i < depth; i++)
                    total *= advs.size();
                for (long a = 0; a < total; a++) {
                    c.adv.clear();
                    for (long x = a, i = 0; i < depth; i++, x /= advs.size())
                        c.adv.push_back(advs[x % advs.size()]);
                    // at which rounds versions 1 and 2 appear (depth: not at all)
                    for (int m1 = msgs ? 0 : depth; m1 <= depth; m1++)
                        for (int m2 = msgs > 1 && m1 < depth ? m1 + 1 : depth; m2 <= depth; m2++) {
                            c.msg.assign(depth, 0);
                            if (m1 < depth)
                                c.msg[m1] = c.first ? 2 : 1;
                            if (m2 < depth)
                                c.msg[m2] = 2;
                            if (idx++ % shards != shard || V::nviol() > 10)
                                continue;
                            follow(c);
                            if (cases <= 2)
                                V::sample(c.show());
                        }
                }
                return;
            }
            for (size_t i = 0; i < ivals.size(); i++)
                iv[k] = i, intervals(k + 1);
        };
        intervals(0);
    } else if (part == "stop") {
        c.load = V::argi("load", 0), c.first = V::argi("first", 0);
        int iv[] = { 2, 1, 2, 3 };
        std::copy(iv, iv + 4, c.iv);
        c.adv = { 1, 1, 0, 1 };
        c.msg = { 0, c.first ? 2 : 1, 0, 0 };
        if (follow(c))
            signals(c, {}, 0, V::argi("signals", 1), V::argi("signals", 1) > 1);
        V::note(V::fmt("%llu points, %llu runs in which a save was completed before the process ended", (unsigned long long)pointsSeen, (unsigned long long)delayed));
        V::sample("signals 2 and 15 at every library call of a run: " + c.show());
    }
    else if (part == "start") {
        c.adv = { 1, 1 };
        for (int load = 0; load < 2; load++)
            for (int toss : { 0, 1, 2, 7 })
                for (int sweep : { 0, 1, 2, 5 }) {
                    c.load = load, c.toss = toss, c.sweep = sweep;
                    if (sweep)
                        follow(c);
                }
        c.sweep = 1;
        for (auto f : { "-p", "--PID", "-f", "--file" }) {
            c.load = f[1] == '-';
            if (strchr(f, 'p') && !strchr(f, 'f') || strchr(f, 'P'))
                c.args = { f, "7" }, c.file = "infile/_in_MC_7";
            else
                c.args = { f, "elsewhere/input" }, c.file = "elsewhere/input";
            follow(c);
        }
        // what must not start anything
        std::vector<std::pair<std::string, std::vector<std::string>>> wrong;
        std::vector<std::string> words = { "", "-p", "-f", "--PID", "--file", "infile", "7", "-x", "-pf", "p", "--pid", "-P", "--f", "-F" };
        wrong.push_back({ "MC", {} });
        for (auto& a : words) {
            wrong.push_back({ "MC", { a } });
            for (auto& b : words) {
                bool p = a == "-p" || a == "--PID", f = a == "-f" || a == "--file";
                if (!(p && b == "7") && !(f && b == "infile"))
                    wrong.push_back({ "MC", { a, b } });
                wrong.push_back({ "MC", { "-f", a, b } });
            }
        }
        wrong.push_back({ "MC", { "-f", "infile", "-f", "infile" } });
        for (auto t : { "DYSON", "", "mc", "MCX", "DiagCount" })
            wrong.push_back({ t, { "-f", "infile" } });
        c.file = "infile/_in_MC_7";
        c.load = false;
        referenceFor(c);
        for (auto& w : wrong) {
            c.type = w.first, c.args = w.second;
            memset((void*)TX, 0, sizeof(Trace));
            c.file = "infile/_in_MC_7", prepare("real", c);
            std::string in = slurp("real/infile/_in_MC_7.txt");
            spit("real/infile.txt", in);
            int st = run(realRun, c);
            runs++, cases++;
            Snap e = {};
            if (!chdir("real")) {
                e = look();
                if (chdir(".."))
                    _exit(2);
            }
            bool fine = c.type == "DiagCount"; // known, but nothing is done for it
            if (TX->words || e.para || e.statis)
                V::viol(P, "arguments", c.show() + ": a run is started");
            if (!fine && WIFEXITED(st) && (WEXITSTATUS(st) == 202 || WEXITSTATUS(st) == 201 || WEXITSTATUS(st) == 0))
                V::viol(P, "arguments", c.show() + ": no complaint: " + how(st, TX));
        }
        V::sample(V::fmt("%d command lines and job types that must not start a run", (int)wrong.size()));
    }
    V::note(V::fmt("%llu rounds, %llu saves, %llu adopted messages, %llu reweightings, %llu printings", (unsigned long long)rounds, (unsigned long long)saves, (unsigned long long)adopted, (unsigned long long)reweighted, (unsigned long long)printed));
    V::stati("states", cases);
    V::stati("transitions", rounds + cases);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
