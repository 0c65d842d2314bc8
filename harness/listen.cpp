// C19: the real worker and the real message, weight and basis files.  Every sequence of publications, deletions,
// corruptions, steps and restarts up to a depth, with a poll after each, in forked processes.
#include "jobworld.h"
#include "state.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C19";
static JobWorld JW;
struct Shared {
    volatile uint64_t nodes, polls, adopted, passed, deferred, runs, viols, restarts, orders[4][2], failures;
};
static Shared* S;
static std::unique_ptr<EnvMonteCarlo> E;
static std::vector<std::string> Hist;
// what is on disk
static std::string Msg; // empty with HasMsg false: no file
static bool HasMsg = false;
static int PubVersion = 0; // version of a well formed message, -1 when none can be read
static double PubBeta, PubSqueeze = 1;
static int WState = 0; // 0 good, 1 missing, 2 truncated
static long WSeed = 5;
static double BasisBeta;
static std::map<long, std::string> WBytes;
static std::map<double, std::pair<std::string, std::string>> BBytes;
static std::string slurp(const char* f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static void spit(const char* f, const std::string& s)
{
    std::ofstream o(f, std::ios::binary);
    o << s;
}
static void onDisk()
{
    if (HasMsg)
        spit("Message.txt", Msg);
    else
        unlink("Message.txt");
    if (WState == 1)
        unlink("Weight.hkl");
    else
        spit("Weight.hkl", WState == 2 ? WBytes[WSeed].substr(0, WBytes[WSeed].size() / 2) : WBytes[WSeed]);
    spit("FermiBasis.dat.txt", BBytes[BasisBeta].first);
    spit("BoseBasis.dat.txt", BBytes[BasisBeta].second);
}
static std::string where()
{
    std::string s;
    for (auto& h : Hist)
        s += (s.empty() ? "" : "; ") + h;
    return s.empty() ? "start" : s;
}
static void bad(const char* tag, const std::string& t)
{
    S->viols++;
    V::viol(P, tag, t + "; history: " + where());
    fflush(V::out());
}
// the weights, vertex functions and lines of a simulation against the published tables
static std::string against(EnvMonteCarlo& X, long seed, double beta)
{
    World w;
    w.L0 = JW.L0, w.L1 = JW.L1, w.Sub = JW.Sub, w.Order = JW.Order, w.Bins = JW.Bins, w.TinyBins = JW.Tiny, w.Beta = beta, w.Gamma = JW.Gamma, w.Vol = JW.L0 * JW.L1, w.NK = 2 * MAX_K + 1;
    w.Para = X.Para;
    w.Dg = &X.Diag;
    w.Wt = &X.Weight;
    auto cv = [](const std::vector<Complex>& v) { std::vector<cd> r; for (auto& c : v) r.push_back(cd(c.Re, c.Im)); return r; };
    uint s = JW.Sub, v = w.Vol, b = JW.Bins, R = v * v, T = JW.Tiny * JW.Tiny;
    w.tG = cv(JW.table(seed, 1, 4 * s * s * v * b)), w.tW = cv(JW.table(seed, 2, 16 * s * s * v * b)), w.tD = cv(JW.table(seed, 3, 16 * s * s * v));
    auto same = [](const Python::ArrayObject& a, const std::vector<cd>& t) {
        auto o = a;
        if (o.Size() != t.size())
            return false;
        for (size_t i = 0; i < t.size(); i++)
            if (o.Data<Complex>()[i].Re != t[i].real() || o.Data<Complex>()[i].Im != t[i].imag())
                return false;
        return true;
    };
    auto d = X.Weight.ToDict(weight::GW);
    if (!same(d.Get<Dictionary>("G").Get<Python::ArrayObject>("SmoothT"), w.tG) || !same(d.Get<Dictionary>("W").Get<Python::ArrayObject>("SmoothT"), w.tW) || !same(d.Get<Dictionary>("W").Get<Python::ArrayObject>("DeltaT"), w.tD))
        return "the weights are not the published ones";
    if (JW.Gamma) {
        auto g = X.Weight.ToDict(weight::GammaGW);
        auto gg = JW.weights(seed);
        for (const char* k : { "GGGammaG", "WWGammaW" }) {
            auto a = gg.Get<Dictionary>(k).Get<Python::ArrayObject>("SmoothT"), c = g.Get<Dictionary>(k).Get<Python::ArrayObject>("SmoothT");
            std::vector<Complex> t(a.Data<Complex>(), a.Data<Complex>() + a.Size());
            if (!same(c, cv(t)))
                return "the vertex functions are not the published ones";
        }
        // read through the table: the time bins follow the new beta
        w.tGG = cv(JW.table(seed, 4, 2 * v * b * b));
        Site a(0, Vec<int>({ 0, 0 }));
        for (double f : { 0.1, 0.45, 0.7, 0.95 })
            for (double h : { 0.3, 0.8 }) {
                Complex q = X.Weight.GammaG->Weight(a, a, a, f * beta, h * beta, 0, UP, UP, UP);
                cd r = w.oGG(a, a, f * beta, h * beta, 0, UP);
                if (std::abs(cd(q.Re, q.Im) - r) > 1e-12)
                    return "the fermionic vertex function is not read with the new beta";
            }
    }
    std::set<double> ts;
    for (int i = 0; i < X.Diag.Ver.HowMany(); i++)
        ts.insert(X.Diag.Ver(i)->Tau);
    w.tau.assign(ts.begin(), ts.end());
    w.NTau = w.tau.size();
    StateReader r(w);
    if (!r.read() || !r.err02.empty() || !r.err03.empty())
        return "the diagram is not that of the new weights: " + r.err02 + " " + r.err03;
    return "";
}
static std::vector<std::pair<std::string, double>> statistics(EnvMonteCarlo& X, double q2, double q3, double sq, bool raw)
{
    // every accumulated number; unless raw divided by the squeeze factor, norms rescaled to the new beta
    std::vector<std::pair<std::string, double>> r;
    auto add = [&](const std::string& k, double v, double f) { r.push_back({ k, raw ? v : v * f }); };
    auto acc = [&](const std::string& k, const Dictionary& d, double q) {
        add(k + " norm", d.Get<double>("Norm"), q);
        add(k + " accumulated norm", d.Get<double>("NormAccu"), q / sq);
        auto a = d.Get<Python::ArrayObject>("WeightAccu");
        for (uint i = 0; i < a.Size(); i++)
            add(k + " weight", a.Data<Complex>()[i].Re, 1 / sq), add(k + " weight", a.Data<Complex>()[i].Im, 1 / sq);
    };
    acc("self energy", X.Weight.Sigma->Estimator.ToDict(), q2);
    acc("polarization", X.Weight.Polar->Estimator.ToDict(), q2);
    if (JW.Gamma)
        acc("fermionic vertex function", X.Weight.GammaG->StatisToDict(), q3), acc("bosonic vertex function", X.Weight.GammaW->StatisToDict(), q3);
    auto est = [&](const std::string& k, Estimator<double>& e) { add(k, e.Value(), 1 / sq), add(k + " norm", e.Norm(), 1 / sq); };
    auto& M = X.MarkovMonitor;
    for (int i = 0; i <= JW.Order; i++)
        est("worm visits", M.WormEstimator[i]), est("physical visits", M.PhyEstimator[i]);
    est("self energy visits", M.SigmaEstimator), est("polarization visits", M.PolarEstimator);
    if (JW.Gamma)
        est("vertex function visits", M.GammaGEstimator), est("vertex function visits", M.GammaWEstimator);
    return r;
}
static std::string diagramOnly(const std::map<std::string, std::string>& m)
{
    std::string s;
    for (auto& e : m)
        if (e.first == "diagram" || e.first == "diagram state" || e.first == "occupancy")
            s += e.first + e.second + "\n";
    return s;
}
// parameters with version and beta taken out
static std::string otherParameters(EnvMonteCarlo& X)
{
    auto b = X.Para.Beta, t = X.Para.T;
    auto v = X.Para.Version;
    X.Para.Beta = 1, X.Para.Version = 0;
    std::string s = py_text(X.Para.ToDict());
    X.Para.Beta = b, X.Para.Version = v, X.Para.T = t;
    return s;
}
static void go(EnvMonteCarlo& X, int n)
{
    for (int i = 0; i < n; i++)
        X.Markov.Hop(1), X.MarkovMonitor.Measure();
}
// a worker restarted after the adoption is the worker that adopted, now and later
static void likeRestarted()
{
    fflush(V::out());
    pid_t p = fork();
    if (p) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            bad("crash", V::fmt("continuing after an adoption ends with status %d", st));
        return;
    }
    try {
        E->Save();
        EnvMonteCarlo X(para::Job("infile"));
        X.Load();
        S->restarts++;
        S->runs++;
        for (int k = 0; k < 2; k++) {
            std::set<std::string> skip;
            if (JW.Gamma)
                skip = { "vertex statistics" };
            std::string d = differ(image(*E, JW.Gamma), image(X, JW.Gamma), skip, 1e-9);
            if (d.empty())
                d = numbers(E->Diag, X.Diag);
            if (!d.empty()) {
                bad("derived", std::string(k ? "40 steps after" : "after") + " the adoption a restarted worker is different: " + d);
                break;
            }
            go(*E, 40), go(X, 40);
            S->runs += 2;
            if (E->Diag.HasGammaGW || X.Diag.HasGammaGW)
                break;
        }
    }
    catch (std::exception& e) {
        bad("exception", std::string("restarting after an adoption: ") + e.what());
    }
    fflush(V::out());
    _exit(0);
}
static void poll()
{
    onDisk();
    auto& X = *E;
    S->polls++, S->runs++;
    V::beat()++;
    S->orders[std::min(X.Diag.Order, 3)][X.Diag.Worm.Exist]++;
    bool newer = HasMsg && PubVersion > X.Para.Version, blocked = JW.Gamma && X.Diag.HasGammaGW != 0;
    bool expect = newer && WState == 0 && !blocked;
    auto before = image(X, JW.Gamma);
    auto params = otherParameters(X);
    Complex w0 = X.Diag.Weight, p0 = X.Diag.Phase;
    double b0 = X.Para.Beta, q = b0 / (expect ? PubBeta : b0);
    auto stat = statistics(X, q * q, q * q * q, expect ? PubSqueeze : 1, false);
    bool got = false;
    try {
        got = X.ListenToMessage();
    }
    catch (std::exception& e) {
        bad("ends", std::string("polling ends the worker: ") + e.what());
        fflush(V::out());
        _exit(0);
    }
    if (got != expect) {
        bad("decision", V::fmt("version %d, own version %d, %s, weights %s, vertex function %d: ", HasMsg ? PubVersion : -1, X.Para.Version, HasMsg ? "message there" : "no message", WState ? "unreadable" : "good", X.Diag.HasGammaGW) + (got ? "reported as adopted" : "not adopted"));
        return;
    }
    if (!expect) {
        (blocked && newer ? S->deferred : S->passed)++;
        std::string d = differ(before, image(X, JW.Gamma));
        if (d.empty() && (X.Diag.Weight.Re != w0.Re || X.Diag.Weight.Im != w0.Im || X.Diag.Phase.Re != p0.Re || X.Diag.Phase.Im != p0.Im))
            d = "the weight of the diagram";
        if (!d.empty())
            bad("changed", "a poll that adopts nothing changes " + d);
        return;
    }
    S->adopted++;
    if (X.Para.Version != PubVersion || X.Para.Beta != PubBeta || std::fabs(X.Para.T - 1 / PubBeta) > 1e-15)
        bad("parameters", V::fmt("adopted version %d beta %g T %g instead of %d, %g, %g", X.Para.Version, X.Para.Beta, X.Para.T, PubVersion, PubBeta, 1 / PubBeta));
    if (otherParameters(X) != params)
        bad("parameters", "an adoption changes other parameters: " + cut(params, otherParameters(X)));
    auto after = image(X, JW.Gamma);
    if (diagramOnly(before) != diagramOnly(after))
        bad("diagram", "an adoption changes the diagram: " + cut(diagramOnly(before), diagramOnly(after)));
    if (X.Markov.Beta != PubBeta)
        bad("beta", "the updates keep the old beta");
    std::string e = against(X, WSeed, PubBeta);
    if (!e.empty())
        bad("weights", e);
    auto now = statistics(X, 1, 1, 1, true);
    for (size_t i = 0; i < now.size(); i++)
        if (!(std::fabs(now[i].second - stat[i].second) <= 1e-12 * std::fabs(stat[i].second))) {
            bad("statistics", now[i].first + V::fmt(" is %.15g after the adoption instead of %.15g", now[i].second, stat[i].second));
            break;
        }
    likeRestarted();
}
static void publish(int version, double beta, double squeeze, int wstate)
{
    HasMsg = true;
    PubVersion = version, PubBeta = beta, PubSqueeze = squeeze;
    Msg = V::fmt("{'Beta': %.17g, 'SqueezeFactor': %.17g, 'Version': %d}", beta, squeeze, version);
    WState = wstate;
}
static void weights(long seed)
{
    WSeed = seed;
    if (!WBytes.count(seed)) {
        JW.writeWeights(seed);
        WBytes[seed] = slurp("Weight.hkl");
    }
}
static void basisFor(double b)
{
    BasisBeta = b;
    if (!BBytes.count(b)) {
        JW.writeBasis(b);
        BBytes[b] = { slurp("FermiBasis.dat.txt"), slurp("BoseBasis.dat.txt") };
    }
}
static const char* Garbage[] = { "", "{'Beta': 0.5, 'Ver", "{'Beta': 0.5, 'Version': 99}", "{'Version': 99, 'Beta': 'x', 'SqueezeFactor': 1.0}", "[99, 0.5, 1.0]", "nonsense 99 (", "{'Beta': 0.5, 'Version': None, 'SqueezeFactor': 1.0}", "\n\0\x01", "99" };
static const int NACT = 13 + 9;
// returns false when the action is not possible here
static bool act(int a)
{
    auto& X = *E;
    // a publication is judged against what the worker has adopted
    int v = X.Para.Version;
    double cur = BasisBeta;
    switch (a) {
    case 0: Hist.push_back("next version"); weights(5 + v + 1); publish(v + 1, cur, 1, 0); return true;
    case 1: Hist.push_back("version after next, larger beta, squeezed by 2"); weights(5 + v + 2); basisFor(cur * 1.5); publish(v + 2, cur * 1.5, 2, 0); return !(JW.Gamma && X.Diag.HasGammaGW);
    case 2: Hist.push_back("7 steps"); go(X, 7); return true;
    case 3: Hist.push_back("150 steps"); go(X, 150); return true;
    case 4: Hist.push_back("same version, another beta and other weights"); weights(40 + v); publish(v, cur * 1.25, 4, 0); return true;
    case 5: Hist.push_back("older version, another beta"); publish(v - 1, cur * 1.25, 4, 0); return true;
    case 6: Hist.push_back("message deleted"); HasMsg = false; return true;
    case 7: Hist.push_back("next version without a weight file"); publish(v + 1, cur, 2, 1); return true;
    case 8: Hist.push_back("next version with a truncated weight file"); publish(v + 1, cur, 2, 2); return true;
    case 9: Hist.push_back("weight file back"); if (WState == 0) return false; WState = 0; return true;
    case 10:
        if (WState != 0 || X.Diag.HasGammaGW)
            return false;
        Hist.push_back("saved and restarted");
        onDisk();
        X.Save();
        E.release(); // the old one stays: its tables may still be looked at
        E.reset(new EnvMonteCarlo(para::Job("infile")));
        E->Load();
        return true;
    case 11: Hist.push_back("polled again"); return true;
    case 12: Hist.push_back("far newer version with a fraction as squeeze factor"); weights(5 + v + 7); publish(v + 7, cur, 1.75, 0); return true;
    default:
        Hist.push_back(std::string("unreadable message ") + V::fmt("'%s'", Garbage[a - 13]));
        HasMsg = true, PubVersion = -1;
        Msg = a == 13 + 7 ? std::string("\n\0\x01", 3) : Garbage[a - 13];
        return true;
    }
}
// ---- publications in the middle of a poll ---------------------------------------------------------------------------
// The solver replaces the weights, then the message, and again for the version after; each of these four steps lands at
// any point before and after each look-up of either file by the worker.
struct Step {
    const char* file;
    std::string bytes;
    int version; // of the weights or the message
};
static std::vector<Step> Solver;
static std::vector<int> At; // the point of each step
static size_t Done = 0;
static int Points = 0, OutW = 0, OutM = 0; // versions out by now
static bool Counting = false;
static void step()
{
    auto& s = Solver[Done++];
    std::string t = std::string("_tmp_") + s.file;
    int fd = syscall(257 /* openat */, AT_FDCWD, t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (size_t o = 0; o < s.bytes.size();) {
        long n = syscall(1 /* write */, fd, s.bytes.data() + o, s.bytes.size() - o);
        if (n <= 0)
            break;
        o += n;
    }
    syscall(3 /* close */, fd);
    syscall(82 /* rename */, t.c_str(), s.file);
    (s.file[0] == 'W' ? OutW : OutM) = s.version;
}
// a step replaces whole files, so it commutes with all but the looking up of the two names
static void point(const char* path)
{
    if (!Counting || !path || (!strstr(path, "Weight") && !strstr(path, "Message")))
        return;
    int k = ++Points, e = errno;
    while (Done < At.size() && At[Done] == k)
        step();
    errno = e;
}
#define OPENER(name)                                                                  \
    int v_##name(const char* p, int f, ...) asm(#name);                               \
    int v_##name(const char* p, int f, ...)                                           \
    {                                                                                 \
        static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name);   \
        va_list a;                                                                    \
        va_start(a, f);                                                               \
        int m = va_arg(a, int);                                                       \
        va_end(a);                                                                    \
        point(p);                                                                     \
        return real(p, f, m);                                                         \
    }
extern "C" {
OPENER(open)
OPENER(open64)
FILE* v_fopen(const char* p, const char* m) asm("fopen");
FILE* v_fopen(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    point(p);
    return real(p, m);
}
FILE* v_fopen64(const char* p, const char* m) asm("fopen64");
FILE* v_fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    point(p);
    return real(p, m);
}
int v_stat(const char* p, void* s) asm("stat");
int v_stat(const char* p, void* s)
{
    static auto real = (int (*)(const char*, void*))dlsym(RTLD_NEXT, "stat");
    point(p);
    return real(p, s);
}
int v_stat64(const char* p, void* s) asm("stat64");
int v_stat64(const char* p, void* s)
{
    static auto real = (int (*)(const char*, void*))dlsym(RTLD_NEXT, "stat64");
    point(p);
    return real(p, s);
}
}
static double MBeta[3], MSqueeze[3] = { 1, 2, 3 };
// one poll with the steps at the given points, then one with everything out
static void disturbed(bool restart)
{
    auto* X = E.get();
    onDisk();
    int v0 = X->Para.Version;
    double b0 = X->Para.Beta;
    auto before = image(*X, JW.Gamma);
    auto params = otherParameters(*X);
    bool blocked = JW.Gamma && X->Diag.HasGammaGW != 0;
    Hist.push_back(restart ? "restart and poll while the solver publishes" : "poll while the solver publishes");
    OutW = OutM = v0;
    Done = 0, Points = 0;
    int first = v0; // the newest message when the poll begins
    bool got = false;
    std::map<int, decltype(statistics(*X, 1, 1, 1, true))> stat;
    auto scaled = [&](EnvMonteCarlo& Y) {
        for (int i = 1; i <= 2; i++) {
            double q = b0 / MBeta[i];
            stat[v0 + i] = statistics(Y, q * q, q * q * q, MSqueeze[i], false);
        }
    };
    scaled(*X);
    try {
        while (Done < At.size() && At[Done] == 0)
            step();
        first = OutM;
        S->polls++, S->runs++;
        Counting = true;
        if (restart) {
            E.release();
            E.reset(new EnvMonteCarlo(para::Job("infile")));
            X = E.get();
            X->Load();
            first = OutM;
        }
        got = X->ListenToMessage();
        Counting = false;
    }
    catch (std::exception& e) {
        Counting = false;
        bad("ends", std::string("polling while the solver publishes ends the worker: ") + e.what());
        return;
    }
    int last = OutM, lastW = OutW, now = X->Para.Version;
    auto judge = [&](bool adopted, int lo, int hi, int hiW, const char* when) {
        if (now < lo || now > hi || adopted != (now != v0 && (now > v0))) {
            bad("version", V::fmt("%s version %d, %s; messages out: %d before, %d after; started with %d", when, now, adopted ? "adopted" : "not adopted", lo, hi, v0));
            return false;
        }
        int i = now - v0;
        if (i && (X->Para.Beta != MBeta[i] || X->Markov.Beta != MBeta[i]))
            bad("beta", V::fmt("%s beta %g (updates %g) with version %d of beta %g", when, X->Para.Beta, X->Markov.Beta, now, MBeta[i]));
        if (otherParameters(*X) != params)
            bad("parameters", std::string(when) + " other parameters: " + cut(params, otherParameters(*X)));
        std::string e;
        for (int w = now; w <= hiW; w++) {
            e = against(*X, 5 + w, X->Para.Beta);
            if (e.empty())
                break;
        }
        if (!e.empty())
            bad("weights", V::fmt("%s version %d and no weights from then to %d: ", when, now, hiW) + e);
        return true;
    };
    if (blocked && !restart) {
        S->deferred++;
        if (got || now != v0)
            bad("decision", "adopted with a vertex function in the diagram");
        std::string d = differ(before, image(*X, JW.Gamma));
        if (!d.empty())
            bad("changed", "a poll that adopts nothing changes " + d);
        return;
    }
    if (!judge(got, first, last, lastW, "a poll in the middle of a publication ends with"))
        return;
    if (!got && !restart) {
        S->passed++;
        std::string d = differ(before, image(*X, JW.Gamma));
        if (!d.empty())
            bad("changed", "a poll that adopts nothing changes " + d);
    }
    auto check = [&](int v) {
        S->adopted++;
        if (diagramOnly(before) != diagramOnly(image(*X, JW.Gamma)))
            bad("diagram", "an adoption changes the diagram: " + cut(diagramOnly(before), diagramOnly(image(*X, JW.Gamma))));
        auto s = statistics(*X, 1, 1, 1, true);
        for (size_t i = 0; i < s.size(); i++)
            if (!(std::fabs(s[i].second - stat[v][i].second) <= 1e-12 * std::fabs(stat[v][i].second))) {
                bad("statistics", s[i].first + V::fmt(" is %.15g after the adoption of version %d instead of %.15g", s[i].second, v, stat[v][i].second));
                break;
            }
    };
    if (got)
        check(now);
    // the rest, then a poll on its own
    while (Done < At.size())
        step();
    int was = now;
    double bwas = X->Para.Beta;
    stat.clear();
    {
        double q = bwas / MBeta[OutM - v0];
        stat[OutM] = statistics(*X, q * q, q * q * q, was < OutM ? MSqueeze[OutM - v0] : 1, was >= OutM);
    }
    try {
        S->polls++, S->runs++;
        got = X->ListenToMessage();
    }
    catch (std::exception& e) {
        bad("ends", std::string("the poll after the publications ends the worker: ") + e.what());
        return;
    }
    now = X->Para.Version;
    int all = OutM;
    if (got != (was < all) || now != all) {
        bad("version", V::fmt("with version %d out and nothing in the way a worker of version %d is at %d, %s", all, was, now, got ? "adopted" : "not adopted"));
        return;
    }
    if (all > v0 && (X->Para.Beta != MBeta[all - v0]))
        bad("beta", V::fmt("the last version has beta %g, the worker %g", MBeta[all - v0], X->Para.Beta));
    std::string e = against(*X, 5 + all, X->Para.Beta);
    // adopted in the middle of a publication: the weights may be those of the message or later, and this was the last
    if (!e.empty())
        bad("weights", "after everything is published: " + e);
    if (got)
        check(now);
}
static long shard, shards;
static void interleave()
{
    int v = E->Para.Version;
    int maxp = 0;
    // the message that is there at first: none, or the one the worker has
    for (int pre = 0; pre < 2; pre++)
        for (int restart = 0; restart < 2; restart++) {
            HasMsg = false, WState = 0;
            weights(5 + v);
            if (pre)
                publish(v, BasisBeta, 8, 0);
            std::vector<Step> all;
            MBeta[0] = BasisBeta;
            for (int i = 1; i <= 2; i++) {
                MBeta[i] = BasisBeta; // the solver of a run has one beta and writes the basis once
                weights(5 + v + i);
                all.push_back({ "Weight.hkl", WBytes[5 + v + i], v + i });
                all.push_back({ "Message.txt", V::fmt("{'Beta': %.17g, 'SqueezeFactor': %.17g, 'Version': %d}", MBeta[i], MSqueeze[i], v + i), v + i });
            }
            weights(5 + v);
            onDisk();
            if (restart) {
                if (E->Diag.HasGammaGW)
                    continue;
                E->Save();
            }
            struct Out {
                int points;
            };
            auto* out = (Out*)mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            auto run = [&](std::vector<int> at) {
                fflush(V::out());
                pid_t p = fork();
                if (!p) {
                    std::string h = pre ? "own message out" : "no message";
                    for (size_t i = 0; i < at.size(); i++)
                        h += V::fmt("; %s of version +%d at point %d", i % 2 ? "message" : "weights", (int)i / 2 + 1, at[i]);
                    Hist.push_back(h);
                    snprintf(V::crash_ctx(), 4096, "%s", where().c_str());
                    At = at;
                    Solver = all;
                    S->nodes++;
                    disturbed(restart);
                    out->points = Points;
                    fflush(V::out());
                    _exit(0);
                }
                int st;
                waitpid(p, &st, 0);
                V::beat()++;
                if (!WIFEXITED(st) || WEXITSTATUS(st))
                    S->failures++, bad("crash", V::fmt("polling while the solver publishes ends with status %d", st));
            };
            // the length of the longest poll of this kind: everything out at first
            int n = 0;
            for (auto at : { std::vector<int>{ 0, 0, 0, 0 }, std::vector<int>{ 0, 0 }, std::vector<int>{} }) {
                run(at);
                n = std::max(n, out->points);
            }
            maxp = std::max(maxp, n);
            long k = 0;
            // one publication at any two points, two at any four; the last point is after the poll
            for (int a = 0; a <= n + 1; a++)
                for (int b = a; b <= n + 1; b++) {
                    if (k++ % shards == shard)
                        run({ a, b });
                    if (S->viols > 12)
                        return;
                    for (int c = b; c <= n + 1; c++)
                        for (int d = c; d <= n + 1; d++) {
                            if (k++ % shards == shard)
                                run({ a, b, c, d });
                            if (S->viols > 12)
                                return;
                        }
                }
            munmap(out, sizeof(Out));
        }
    V::note(V::fmt("up to %d points within a poll or a restart", maxp));
}
static void explore(int depth, int level)
{
    for (int a = 0; a < NACT; a++) {
        fflush(V::out());
        if (S->viols > 12)
            return;
        // corrupted messages as last action or directly followed by one more
        if (a >= 13 + 3 && level + 2 < depth)
            continue;
        if (level == 1) { // shards share the pairs of first and second action
            uint64_t h = V::mix(a * 131 + (Hist.empty() ? 0 : V::mix(std::hash<std::string>()(Hist[0]))));
            if ((long)(h % shards) != shard)
                continue;
        }
        pid_t p = fork();
        if (!p) {
            int rc = 0;
            try {
                snprintf(V::crash_ctx(), 4096, "%s", where().c_str());
                bool possible = act(a);
                snprintf(V::crash_ctx(), 4096, "%s", where().c_str());
                if (possible) {
                    S->nodes++;
                    poll();
                    if (level + 1 < depth)
                        explore(depth, level + 1);
                }
            }
            catch (std::exception& e) {
                bad("exception", e.what());
            }
            fflush(V::out());
            _exit(rc);
        }
        int st;
        waitpid(p, &st, 0);
        V::beat()++;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            S->failures++;
            if (WIFSIGNALED(st))
                bad("crash", V::fmt("the worker ends with signal %d in or after action %d", WTERMSIG(st), a));
        }
    }
}
int main(int argc, char** argv)
{
    if (!JobWorld::install(argv[0]))
        return 2;
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    V::init(argc, argv);
    V::guard(P, (int)V::argi("hang", 60));
    JW.setup();
    JW.hold.reserve(512);
    shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    long seed = V::argi("seed", 1), warm = V::argi("warm", 0);
    basisFor(JW.Beta);
    weights(5);
    PubBeta = JW.Beta, PubVersion = -1;
    onDisk();
    JW.writeInput(false, seed);
    V::in_code() = true;
    try {
        E.reset(new EnvMonteCarlo(para::Job("infile")));
        E->BuildNew();
        JW.writeInput(true, seed);
        go(*E, warm);
        S->nodes++;
        poll(); // as the real worker does before its first step
        if (V::argi("interleave", 0))
            interleave();
        else
            explore(V::argi("depth", 3), 0);
    }
    catch (std::exception& e) {
        bad("exception", e.what());
    }
    V::in_code() = false;
    V::note(V::fmt("%llu polls: %llu adopted, %llu passed over, %llu put off by a vertex function; %llu restarts; polled at order 0: %llu, 1: %llu (worm %llu), 2: %llu (worm %llu), 3: %llu (worm %llu)", (unsigned long long)S->polls, (unsigned long long)S->adopted, (unsigned long long)S->passed, (unsigned long long)S->deferred, (unsigned long long)S->restarts, (unsigned long long)S->orders[0][0], (unsigned long long)S->orders[1][0], (unsigned long long)S->orders[1][1], (unsigned long long)S->orders[2][0], (unsigned long long)S->orders[2][1], (unsigned long long)S->orders[3][0], (unsigned long long)S->orders[3][1]));
    if (V::argi("interleave", 0))
        V::sample(V::fmt("all placements of one and of two publications, weights before message, between the file operations of a poll and of a restart; seed %ld, %ld steps before", seed, warm));
    else
        V::sample(V::fmt("all sequences of %ld of %d actions, each followed by a poll; seed %ld, %ld steps before", V::argi("depth", 3), NACT, seed, warm));
    V::stati("states", S->nodes);
    V::stati("transitions", S->polls);
    V::stati("runs", S->runs);
    V::stati("adoptions", S->adopted);
    V::stati("complete", 1);
    V::finish();
}
