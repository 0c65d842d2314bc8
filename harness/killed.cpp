// C35: the real EnvMonteCarlo, killed or disturbed at every operation that changes a file (and inside every write),
// then restarted from what is on disk.  Every crash point of every history of starting, running, saving and restarting.
#include "jobworld.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fstream>
#include <limits.h>
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C35";
static JobWorld JW;
static long Seed, Gap;
enum { NONE, CRASH, TORN, FAIL, SHORT, FAILALL };
static void (*fs_root)(const char*);
static void (*fs_arm)(int, int, long, int);
static int (*fs_disarm)();
static const char* (*fs_op)(int);
static const char *PARA = "7_MC_para.txt", *STATIS = "7_MC_statis.hkl";
// what the worker had in hand when a save began; 'done' when the save was reported complete
struct Saved {
    uint64_t para[2], statis[2];
    bool done;
};
struct Shared {
    int n, ops;
    Saved s[64];
    bool ok;
    char text[2048];
    uint64_t runs, loads, anew, mixed, nodes;
    char op[64][12];
};
static Shared* S;
static void digest(uint64_t* to, const std::string& t)
{
    V::H128 h;
    h.add(t.data(), t.size());
    to[0] = h.a, to[1] = h.b;
}
static std::string vertexStatistics(EnvMonteCarlo& E)
{
    std::string s;
    auto x = E.Weight.ToDict(weight::GammaGWStatis);
    for (const char* k : { "GammaGStatis", "GammaWStatis" }) {
        auto p = x.Get<Dictionary>(k);
        auto u = p.Get<Python::ArrayObject>("WeightAccu");
        s += V::fmt("%s %.17g %.17g:", k, p.Get<real>("Norm"), p.Get<real>("NormAccu"));
        for (uint i = 0; i < u.Size(); i++)
            s += k[5] == 'W' ? V::fmt(" %.9g %.9g", (double)(float)u.Data<Complex>()[i].Re, (double)(float)u.Data<Complex>()[i].Im) : V::fmt(" %.17g %.17g", u.Data<Complex>()[i].Re, u.Data<Complex>()[i].Im);
    }
    return s;
}
static void fingerprint(EnvMonteCarlo& E, Saved& f)
{
    auto m = image(E, false);
    digest(f.para, m["parameters"] + m["settings"] + m["diagram"] + m["diagram state"] + m["occupancy"]);
    digest(f.statis, m["statistics"] + m["estimators"] + m["measured averages"] + (JW.Gamma ? vertexStatistics(E) : ""));
}
static void step(EnvMonteCarlo& E, int n)
{
    for (int i = 0; i < n; i++) {
        V::beat()++;
        E.Markov.Hop(1);
        E.MarkovMonitor.Measure();
    }
}
static void record(EnvMonteCarlo& E)
{
    if (S->n < 63) {
        fingerprint(E, S->s[S->n]);
        S->s[S->n++].done = false;
    }
}
static void save(EnvMonteCarlo& E)
{
    for (int i = 0; E.Diag.HasGammaGW && i < 5000; i++)
        step(E, 1); // nothing is written while a vertex function is present
    if (E.Diag.HasGammaGW)
        return;
    record(E);
    E.Save();
    S->s[S->n - 1].done = true;
}
static bool there(const char* f) { return access(f, F_OK) == 0; }
// one life of a worker: saves with steps in between
static void life(int saves, bool cont)
{
    std::unique_ptr<EnvMonteCarlo> E(new EnvMonteCarlo(para::Job("infile")));
    if (cont)
        E->Load();
    else
        E->BuildNew();
    for (int i = 0; i < saves; i++) {
        step(*E, Gap + 3 * i);
        save(*E);
    }
    step(*E, 2);
}
static std::string describe(int mode, int k, long part, int e, const char* op)
{
    switch (mode) {
    case CRASH: return V::fmt("killed before operation %d (%s)", k, op);
    case TORN: return V::fmt("killed inside operation %d (%s) after part %ld", k, op, part);
    case FAIL: return V::fmt("operation %d (%s) fails with error %d", k, op, e);
    case FAILALL: return V::fmt("operation %d (%s) and all later ones fail with error %d", k, op, e);
    }
    return "undisturbed";
}
// runs f in a process of its own; 0 when it ended, 77 when it was killed, else its status
template <class F>
static int apart(F f)
{
    S->runs++;
    V::beat()++;
    pid_t p = fork();
    if (!p) {
        S->text[0] = 0, S->ok = false;
        try {
            f();
            S->ok = true;
        } catch (std::exception& e) {
            snprintf(S->text, sizeof S->text, "%s", e.what());
        }
        fflush(V::out());
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        return 1000 + WTERMSIG(st);
    return WEXITSTATUS(st);
}
// the files of the worker
typedef std::map<std::string, std::string> Disk;
static Disk disk()
{
    Disk d;
    DIR* h = opendir(".");
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if ((n.compare(0, 5, "7_MC_") && n.compare(0, 6, "_7_MC_")) || n.find("log") != std::string::npos)
            continue;
        std::ifstream f(n, std::ios::binary);
        d[n] = std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    }
    closedir(h);
    return d;
}
static void onto(const Disk& d)
{
    for (auto& e : disk())
        if (!d.count(e.first))
            unlink(e.first.c_str());
    for (auto& e : d) {
        std::ofstream f(e.first, std::ios::binary);
        f << e.second;
    }
}
static bool Fresh;
static long shard, shards;
struct Found {
    int p, s;
};
static Found* found;
// what a restart finds
static bool restart(const std::string& where)
{
    snprintf(V::crash_ctx(), 4096, "%s", where.c_str());
    bool cont = there(STATIS); // the job manager continues the workers whose statistics exist
    int last = -1;
    for (int i = 0; i < S->n; i++)
        if (S->s[i].done)
            last = i;
    if (!cont && last >= 0) {
        V::viol(P, "lost", where + ": the statistics of a completed save are gone");
        return false;
    }
    JW.writeInput(cont, Seed);
    found->p = found->s = -1;
    int rc = apart([&] {
        EnvMonteCarlo* E = new EnvMonteCarlo(para::Job("infile"));
        if (cont)
            E->Load();
        else
            E->BuildNew();
        Saved f;
        fingerprint(*E, f);
        for (int i = 0; i < S->n; i++) {
            if (!memcmp(f.para, S->s[i].para, 16))
                found->p = i;
            if (!memcmp(f.statis, S->s[i].statis, 16))
                found->s = i;
        }
        if (!E->Diag.CheckDiagram())
            throw std::runtime_error("the diagram is broken");
        // and it goes on and is saved again
        step(*E, 20);
        for (int i = 0; E->Diag.HasGammaGW && i < 5000; i++)
            step(*E, 1);
        if (E->Diag.HasGammaGW)
            return;
        fingerprint(*E, f);
        E->Save();
        JW.writeInput(true, Seed);
        EnvMonteCarlo* N = new EnvMonteCarlo(para::Job("infile"));
        N->Load();
        Saved g;
        fingerprint(*N, g);
        if (memcmp(f.para, g.para, 16) || memcmp(f.statis, g.statis, 16))
            throw std::runtime_error("the next save is not what it saved");
    });
    (cont ? S->loads : S->anew)++;
    if (rc || !S->ok) {
        V::viol(P, "restart", where + V::fmt(": it can not be %s: ", cont ? "continued" : "started again") + (rc ? V::fmt("ends with %d", rc) : std::string(S->text)));
        return false;
    }
    if (!cont) {
        if (found->p < 0)
            V::viol(P, "anew", where + ": started again, it does not start from the initial diagram");
        return found->p >= 0;
    }
    if (found->p < 0 || found->s < 0) {
        V::viol(P, found->p < 0 ? "configuration" : "statistics", where + ": continued with " + (found->p < 0 ? "a configuration" : "statistics") + " that it never saved");
        return false;
    }
    if (found->s < last || found->p < last) {
        V::viol(P, "old", where + V::fmt(": save %d was complete, but it is continued with configuration %d and statistics %d", last, found->p, found->s));
        return false;
    }
    if (found->s > found->p) {
        V::viol(P, "twice", where + V::fmt(": continued with configuration %d and statistics %d, so that what was measured in between counts twice", found->p, found->s));
        return false;
    }
    if (found->s != found->p)
        S->mixed++;
    return true;
}
static std::set<std::pair<uint64_t, uint64_t> > seen;
static uint64_t lives = 0, maxops = 0;
static std::vector<std::string> hist;
static void explore(int depth, int level, int saves)
{
    Disk d0 = disk();
    int n0 = S->n;
    bool cont = there(STATIS) && !(Fresh && level == 0);
    Saved s0[64];
    memcpy(s0, S->s, sizeof s0);
    auto attempt = [&](int mode, int k, long part, int e) {
        onto(d0);
        JW.writeInput(cont, Seed);
        memcpy(S->s, s0, sizeof s0);
        S->n = n0, S->ops = 0;
        return apart([&] {
            fs_arm(mode, k, part, e);
            try {
                life(saves, cont);
            } catch (...) {
                S->ops = fs_disarm();
                throw;
            }
            S->ops = fs_disarm();
            for (int i = 0; i < S->ops && i < 64; i++)
                snprintf(S->op[i], 12, "%s", fs_op(i));
        });
    };
    int rc = attempt(NONE, -1, 0, 0);
    std::string pre;
    for (auto& h : hist)
        pre += h + "; ";
    pre += cont ? "continued" : "started";
    if (rc || !S->ok) {
        V::viol(P, "life", pre + ": an undisturbed run fails: " + (rc ? V::fmt("ends with %d", rc) : std::string(S->text)));
        return;
    }
    int ops = S->ops;
    std::vector<std::string> op(ops);
    for (int i = 0; i < ops && i < 64; i++)
        op[i] = S->op[i];
    maxops = std::max<uint64_t>(maxops, ops);
    lives++;
    auto one = [&](int mode, int k, long part, int e) {
        if (level == 0 && depth > 1 && shards > 1 && V::mix(k * 977 + mode * 31 + part * 7 + e) % shards != (uint64_t)shard)
            return;
        if (V::nviol() > 6)
            return;
        std::string what = pre + ", " + describe(mode, k, part, e, op[k < ops ? k : ops - 1].c_str());
        int rc = attempt(mode, k, part, e);
        S->nodes++;
        if (rc >= 1000) {
            V::viol(P, "crash", what + V::fmt(": the worker ends with signal %d", rc - 1000));
            return;
        }
        Disk d1 = disk();
        Saved s1[64];
        int n1 = S->n;
        memcpy(s1, S->s, sizeof s1);
        if (!restart(what + ", restarted"))
            return;
        int p = found->p, s = found->s;
        if (level + 1 < depth) {
            V::H128 h;
            for (auto& f : d1)
                h.add(f.first.data(), f.first.size()), h.add(f.second.data(), f.second.size());
            h.add(p), h.add(s), h.add(level);
            if (!seen.insert({ h.a, h.b }).second)
                return;
            onto(d1);
            memcpy(S->s, s1, sizeof s1);
            S->n = n1;
            hist.push_back(what);
            explore(depth, level + 1, 1);
            hist.pop_back();
        }
    };
    for (int k = 0; k <= ops; k++) {
        one(CRASH, k, 0, 0);
        if (k == ops)
            break;
        one(FAIL, k, 0, ENOSPC);
        one(FAILALL, k, 0, EIO);
        if (op[k] == "write" || op[k].empty())
            for (long part : { 1L, 1000000L, -1L })
                one(TORN, k, part, 0);
    }
}
int main(int argc, char** argv)
{
    char self[PATH_MAX];
    ssize_t nl = readlink("/proc/self/exe", self, sizeof self - 1);
    if (nl <= 0)
        return 2;
    self[nl] = 0;
    if (!getenv("KILLED_PRELOADED")) {
        std::string root = self, home = getenv("VERIF_HOME") ? getenv("VERIF_HOME") : root.substr(0, root.rfind("/build/"));
        if (system(("/usr/bin/gcc -w -shared -fPIC -O1 -o crashfs.so " + home + "/harness/crashfs.c -ldl").c_str()))
            return 2;
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd))
            return 2;
        setenv("LD_PRELOAD", (std::string(cwd) + "/crashfs.so").c_str(), 1);
        setenv("KILLED_PRELOADED", "1", 1);
        execv(self, argv);
        return 2;
    }
    unsetenv("LD_PRELOAD");
    fs_root = (void (*)(const char*))dlsym(RTLD_DEFAULT, "crashfs_root");
    fs_arm = (void (*)(int, int, long, int))dlsym(RTLD_DEFAULT, "crashfs_arm");
    fs_disarm = (int (*)())dlsym(RTLD_DEFAULT, "crashfs_disarm");
    fs_op = (const char* (*)(int))dlsym(RTLD_DEFAULT, "crashfs_op");
    if (!fs_root || !fs_arm || !JobWorld::install(self))
        return 2;
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    V::init(argc, argv);
    V::guard(P, 60);
    JW.setup();
    JW.writeBasis(JW.Beta);
    JW.writeWeights(5);
    Seed = V::argi("seed", 1), Gap = V::argi("gap", 40);
    shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    char cwd[PATH_MAX];
    (void)!getcwd(cwd, sizeof cwd);
    found = (Found*)mmap(0, sizeof(Found), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // what the first start puts on disk
    auto initial = [&](long seed) {
        Disk d = disk();
        onto({});
        JW.writeInput(false, seed);
        apart([&] {
            EnvMonteCarlo E(para::Job("infile"));
            E.BuildNew();
            record(E);
            memset(S->s[S->n - 1].statis, 0, 16);
        });
        onto(d);
    };
    fs_root(cwd);
    int saves = V::argi("saves", 2);
    long left = V::argi("left", 0);
    if (left) { // files of an earlier run of other random numbers
        JW.writeInput(false, Seed + 77);
        Seed += 77;
        initial(Seed);
        apart([&] { life(left, false); });
        Seed -= 77;
    }
    if (V::argi("fresh", 0)) {
        // started anew although files of an earlier run are there
        initial(Seed);
        Fresh = true;
    } else if (!left)
        initial(Seed);
    explore(V::argi("depth", 1), 0, saves);
    V::note(V::fmt("%llu lives of up to %llu operations, %llu disturbed ones, then %llu continued and %llu started again, %llu with the configuration of a save that did not finish", (unsigned long long)lives, (unsigned long long)maxops, (unsigned long long)S->nodes, (unsigned long long)S->loads, (unsigned long long)S->anew, (unsigned long long)S->mixed));
    V::sample(V::fmt("order %d, lattice %dx%dx%d, vertex functions %d: %d saves, every operation disturbed, %ld deep; files of an earlier run: %ld", JW.Order, JW.L0, JW.L1, JW.Sub, JW.Gamma, saves, V::argi("depth", 1), left));
    V::stati("states", S->nodes);
    V::stati("transitions", S->loads + S->anew);
    V::stati("runs", S->runs);
    V::stati("complete", 1);
    V::finish();
}
