// C33: what a worker makes of its input file.  Every single and every pair of variations of the fields of an input file,
// and every pair of a worker's and a weight file's dimensions.
#include "jobworld.h"
#include "state.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fstream>
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C33";
static uint64_t cases = 0, refused = 0, taken = 0, loads = 0;
struct Value {
    const char* text; // Python literal; 0: the field is left out
    const char* want; // 0: to be refused
};
struct Field {
    const char *section, *name;
    std::vector<Value> values; // the first is the usual one
    std::function<std::string(para::Job&, para::ParaMC&)> got;
};
static std::string txt(long long i) { return V::fmt("%lld", i); }
static std::string txt(int i) { return V::fmt("%d", i); }
static std::string txt(uint i) { return V::fmt("%u", i); }
static std::string txt(double i) { return V::fmt("%.15g", i); }
static std::string txt(bool b) { return b ? "yes" : "no"; }
static std::string txt(const std::string& s) { return s; }
static std::string txt(const std::vector<double>& v)
{
    std::string s;
    for (double d : v)
        s += txt(d) + " ";
    return s;
}
#define J(n) [](para::Job& j, para::ParaMC&) { return txt(j.n); }
#define M(n) [](para::Job&, para::ParaMC& p) { return txt(p.n); }
#define BADINT { "None", 0 }, { "'7'", 0 }, { "2.5", 0 }, { "2147483648", 0 }, { "-2147483649", 0 }, { "[3]", 0 }, { 0, 0 }
#define BADREAL { "None", 0 }, { "'0.5'", 0 }, { "[0.5]", 0 }, { "0.5j", 0 }, { 0, 0 }
static const std::vector<Field> F = {
    { "Job", "Type", { { "'MC'", "MC" }, { "'DiagCount'", "DiagCount" }, { "'DYSON'", 0 }, { "''", 0 }, { "3", 0 }, { 0, 0 } }, J(Type) },
    { "Job", "DoesLoad", { { "False", "no" }, { "True", "yes" }, { 0, 0 } }, J(DoesLoad) },
    { "Job", "Sample", { { "50", "50" }, { "100000000", "100000000" }, { "2147483647", "2147483647" }, BADINT }, J(Sample) },
    { "Job", "PID", { { "7", "7" }, { "0", "0" }, { "123", "123" }, BADINT }, J(PID) },
    { "Job", "WeightFile", { { "'Weight'", "Weight" }, { "'other/W.x'", "other/W.x" }, { 0, 0 }, { "5", 0 } }, J(WeightFile) },
    { "Job", "MessageFile", { { "'Message'", "Message" }, { "'Weight'", "Weight" }, { "'m'", "m" }, { 0, 0 } }, J(MessageFile) },
    { "Job", "OutputFile", { { "'Dyson_Output'", "" }, { 0, "" } }, [](para::Job&, para::ParaMC&) { return std::string(); } },
    { "", "Version", { { "3", "3" }, { 0, "0" }, { "0", "0" }, { "2147483647", "2147483647" }, { "'x'", 0 }, { "2.5", 0 } }, M(Version) },
    { "Tau", "Beta", { { "0.5", "0.5" }, { "1", "1" }, { "13.25", "13.25" }, { "1e-3", "0.001" }, BADREAL }, M(Beta) },
    { "Tau", "MaxTauBin", { { "16", "16" }, { "128", "128" }, { "1", "1" }, { "4294967295", "4294967295" }, { "4294967296", 0 }, { "-1", 0 }, { "2.5", 0 }, { 0, 0 } }, M(MaxTauBin) },
    { "Tau", "MaxTauBinTiny", { { "4", "4" }, { "16", "16" }, { "-1", 0 }, { "None", 0 }, { 0, 0 } }, M(MaxTauBinTiny) },
    { "Lattice", "NSublat", { { "2", "2" }, { "1", "1" }, { "3", "3" }, BADINT }, M(NSublat) },
    { "Lattice", "L", { { "[4, 6]", "4 6" }, { "[6, 4]", "6 4" }, { "[3, 3]", "3 3" }, { "[16, 1]", "16 1" }, { "[4]", 0 }, { "[4, 4, 4]", 0 }, { "[]", 0 }, { "16", 0 }, { "[4, 'x']", 0 }, { "[4, 2.5]", 0 }, { 0, 0 } }, [](para::Job&, para::ParaMC& p) { return V::fmt("%d %d", p.Lat.Size[0], p.Lat.Size[1]); } },
    { "Markov", "Toss", { { "1000", "1000" }, { "0", "0" }, { "3", "3" }, BADINT }, M(Toss) },
    { "Markov", "Sweep", { { "10", "10" }, { "1", "1" }, { "1000", "1000" }, BADINT }, M(Sweep) },
    { "Markov", "WormSpaceReweight", { { "0.0625", "0.0625" }, { "2", "2" }, { "1e-5", "1e-05" }, BADREAL }, M(WormSpaceReweight) },
    { "Markov", "PolarReweight", { { "1.5", "1.5" }, { "0.0625", "0.0625" }, { "3", "3" }, BADREAL }, M(PolarReweight) },
    { "Markov", "runGamma3", { { "False", "no" }, { "True", "yes" }, { 0, 0 } }, M(runGamma3) },
    { "Markov", "GammaGReweight", { { "0.75", "0.75" }, { "1.5", "1.5" }, { "1", "1" }, BADREAL }, M(GammaGReweight) },
    { "Markov", "GammaWReweight", { { "0.125", "0.125" }, { "0.75", "0.75" }, { "1", "1" }, BADREAL }, M(GammaWReweight) },
    { "Markov", "Order", { { "3", "3" }, { "0", "0" }, { "1", "1" }, { "5", "5" }, { "9", "9" }, { "10", 0 }, { "11", 0 }, { "1000000", 0 }, BADINT }, M(Order) },
    { "Markov", "OrderReWeight", { { "[1.0, 0.25, 4.0, 0.125, 0.5, 2]", "1 0.25 4 0.125 0.5 2 " }, { "[1.0, 0.25, 4.0, 0.125]", "1 0.25 4 0.125 " }, { "[1, 2, 3]", "1 2 3 " }, { "[2.0]", "2 " }, { "[]", "" }, { "[.5]*10", "0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 " }, { "[1.0, 'x', 1.0, 1.0]", 0 }, { "3.0", 0 }, { 0, 0 } }, M(OrderReWeight) },
    { "Markov", "OrderTimeRatio", { { "[1.0, 1.5, 2.0, 2.5, 3.0, 3.5]", "1 1.5 2 2.5 3 3.5 " }, { "[1.0, 0.25, 4.0, 0.125]", "1 0.25 4 0.125 " }, { "[1, 2, 3]", "1 2 3 " }, { "[2.0]", "2 " }, { "[]", "" }, { "[.5]*10", "0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 " }, { "[1.0, None, 1.0, 1.0]", 0 }, { 0, 0 } }, M(OrderTimeRatio) },
    { "Markov", "Counter", { { 0, "0" }, { "12345678901234", "12345678901234" }, { "7", "7" }, { "'x'", 0 }, { "9223372036854775808", 0 } }, M(Counter) },
    { "Markov", "Seed", { { "519180543", "519180543" }, { "1", "1" }, { "1073741823", "1073741823" }, { 0, "0" }, { "0", "0" }, { "'x'", 0 }, { "2.5", 0 }, { "2147483648", 0 } }, M(Seed) },
    { "Timer", "PrinterTimer", { { "30", "30" }, { "31", "31" }, { "0", "0" }, BADINT }, M(PrinterTimer) },
    { "Timer", "DiskWriterTimer", { { "300", "300" }, { "31", "31" }, { "0", "0" }, BADINT }, M(DiskWriterTimer) },
    { "Timer", "MessageTimer", { { "310", "310" }, { "31", "31" }, { "0", "0" }, BADINT }, M(MessageTimer) },
    { "Timer", "ReweightTimer", { { "600", "600" }, { "31", "31" }, { "0", "0" }, BADINT }, M(ReweightTimer) },
};
static int at(const char* n)
{
    for (size_t i = 0; i < F.size(); i++)
        if (!strcmp(F[i].name, n))
            return i;
    return -1;
}
typedef std::vector<int> Choice;
static std::string describe(const Choice& c)
{
    std::string s;
    for (size_t i = 0; i < F.size(); i++)
        if (c[i])
            s += V::fmt("%s%s=%s", s.empty() ? "" : ", ", F[i].name, F[i].values[c[i]].text ? F[i].values[c[i]].text : "left out");
    return s.empty() ? "the usual file" : s;
}
// in one of several orders and with fields nobody asks for, as the common part of the input list has them
static std::string fileText(const Choice& c, int order)
{
    std::map<std::string, std::vector<std::string>> sec;
    for (size_t k = 0; k < F.size(); k++) {
        size_t i = order & 1 ? F.size() - 1 - k : k;
        if (F[i].values[c[i]].text)
            sec[F[i].section].push_back(V::fmt("'%s': %s", F[i].name, F[i].values[c[i]].text));
    }
    if (order & 2)
        sec["Tau"].insert(sec["Tau"].begin(), "'BasisNum': 16"), sec["Lattice"].push_back("'Name': 'Square'"), sec["Markov"].push_back("'Beta': 99, 'L': [9, 9], 'MaxTauBin': 99, 'Version': 99"), sec["Job"].push_back("'SumRule': False, 'Order': 99, 'Toss': 99"), sec[""].push_back("'Gamma3': True, 'Order': 99, 'Seed': 99, 'Beta': 99, 'Model': {'Name': 'J1J2', 'Symmetry': ['SU2'], 'Hopping': [1.0, 0.0]}, 'Dyson': {'Order': 99}");
    auto join = [&](const std::string& k) {
        std::string s;
        for (auto& e : sec[k])
            s += e + ", ";
        return s;
    };
    std::string markov = "'Markov': {" + join("Markov") + "'Timer': {" + join("Timer") + "}}, ";
    std::string para = "{" + join("") + "'Tau': {" + join("Tau") + "}, 'Lattice': {" + join("Lattice") + "}, " + markov + "}";
    return order & 1 ? "{'Para': " + para + ", 'Job': {" + join("Job") + "}}" : "{'Job': {" + join("Job") + "}, 'Para': " + para + "}";
}
static std::string words(RandomFactory r)
{
    std::string s;
    for (int i = 0; i < 8; i++)
        s += V::fmt("%.9g ", r.urn());
    return s;
}
static std::map<std::string, std::string> streams; // first words of each seed
static void bad(const char* tag, const Choice& c, const std::string& t) { V::viol(P, tag, describe(c) + ": " + t); }
static void one(const Choice& c, int order)
{
    cases++;
    V::beat()++;
    snprintf(V::crash_ctx(), 4096, "%s", describe(c).c_str());
    bool want = true;
    for (size_t i = 0; i < F.size(); i++)
        want &= F[i].values[c[i]].want != 0;
    if (want) {
        size_t n = atol(F[at("Order")].values[c[at("Order")]].want) + 1;
        for (const char* k : { "OrderReWeight", "OrderTimeRatio" }) {
            std::string t = F[at(k)].values[c[at(k)]].want;
            want &= (size_t)std::count(t.begin(), t.end(), ' ') >= n;
        }
    }
    {
        std::ofstream f("case.txt");
        f << fileText(c, order);
    }
    for (int form = 0; form < 2; form++) { // named with and without its ending
        std::string name = form ? "case.txt" : "case";
        loads++;
        try {
            para::Job j(name);
            para::ParaMC p;
            Dictionary d;
            d.Load(name);
            p.FromDict(d.Get<Dictionary>("Para"));
            if (!want) {
                bad("accepted", c, "accepted");
                return;
            }
            taken++;
            auto compare = [&](para::ParaMC& q, const char* what) {
                for (size_t i = 0; i < F.size(); i++) {
                    if (what[0] && !strcmp(F[i].name, "Seed"))
                        continue; // a saved simulation keeps the generator instead
                    std::string g = F[i].got(j, q);
                    if (g != F[i].values[c[i]].want)
                        bad("value", c, V::fmt("%s%s is %s instead of %s", what, F[i].name, g.c_str(), F[i].values[c[i]].want));
                }
                int L0 = q.Lat.Size[0], L1 = q.Lat.Size[1];
                if (q.T != 1 / q.Beta)
                    bad("derived", c, V::fmt("%sT is %.17g at beta %.17g", what, q.T, q.Beta));
                if (q.Lat.Vol != L0 * L1 || q.Lat.SublatVol != q.NSublat)
                    bad("derived", c, V::fmt("%sthe lattice has %d cells of %d sites", what, q.Lat.Vol, q.Lat.SublatVol));
            };
            compare(p, "");
            std::string pre = V::fmt("%d_%s", j.PID, j.Type.c_str());
            if (j.ParaFile != pre + "_para" || j.StatisticsFile != pre + "_statis" || j.LogFile != pre + ".log" || j.InputFile != name)
                bad("files", c, "files " + j.ParaFile + " " + j.StatisticsFile + " " + j.LogFile + " " + j.InputFile);
            RandomFactory r;
            std::string seed = F[at("Seed")].values[c[at("Seed")]].want;
            r.Reset(atoi(seed.c_str()));
            std::string w = words(p.RNG);
            if (w != words(r))
                bad("seed", c, "random numbers are not those of the seed");
            auto& s = streams[w];
            if (s.empty())
                s = seed;
            else if (s != seed)
                bad("seed", c, "seeds " + s + " and " + seed + " give the same random numbers");
            // saved and read again
            if (form == 0) {
                p.ToDict().Save("saved", "w");
                para::ParaMC q;
                q.BuildNew("saved");
                compare(q, "read again, ");
                if (words(q.RNG) != w)
                    bad("seed", c, "read again, the random numbers are different");
            }
        }
        catch (std::exception& e) {
            refused++;
            if (want)
                bad("refused", c, std::string("refused: ") + e.what());
            else if (!*e.what())
                bad("mute", c, "refused without a word");
        }
    }
}
static void fields(long shard, long shards, bool pairs)
{
    bool triples = V::argi("triples", 0);
    long k = 0;
    Choice c(F.size(), 0);
    for (int order = 0; order < 4; order++)
        if (k++ % shards == shard)
            one(c, order);
    for (size_t a = 0; a < F.size(); a++)
        for (size_t x = 1; x < F[a].values.size(); x++) {
            c[a] = x;
            for (int order = 0; order < 4; order++)
                if (k++ % shards == shard)
                    one(c, order);
            if (pairs)
                for (size_t b = a + 1; b < F.size(); b++) {
                    for (size_t y = 1; y < F[b].values.size(); y++) {
                        c[b] = y;
                        // what is refused on its own is refused with another: those are all equal
                        if ((F[a].values[x].want && F[b].values[y].want) || y == 1 || x == 1)
                            if (k++ % shards == shard)
                                one(c, k % 4);
                        if (triples && F[a].values[x].want && F[b].values[y].want)
                            for (size_t d = b + 1; d < F.size(); d++) {
                                for (size_t z = 1; z < F[d].values.size(); z++) {
                                    c[d] = z;
                                    if (F[d].values[z].want && k++ % shards == shard)
                                        one(c, k % 4);
                                }
                                c[d] = 0;
                            }
                        // orders and the lists of their length
                        if (F[a].values[x].want && F[b].values[y].want && std::string(F[a].name) == "Order" && std::string(F[b].name) == "OrderReWeight")
                            for (size_t z = 1, t = at("OrderTimeRatio"); z < F[t].values.size(); z++) {
                                c[t] = z;
                                if (k++ % shards == shard)
                                    one(c, k % 4);
                                c[t] = 0;
                            }
                    }
                    c[b] = 0;
                }
            c[a] = 0;
        }
}
// ---- dimensions of the worker against those of the tables -----------------------------------------------------------
struct Dim {
    int L0, L1, Sub, Bins, Tiny;
    bool Gamma;
};
static std::string say(const Dim& d) { return V::fmt("%dx%d cells of %d, %d bins, %d tiny%s", d.L0, d.L1, d.Sub, d.Bins, d.Tiny, d.Gamma ? ", vertex functions" : ""); }
struct Shared {
    volatile uint64_t runs, built, refused, steps;
};
static Shared* S;
static void sized(JobWorld& w, const Dim& d) { w.L0 = d.L0, w.L1 = d.L1, w.Sub = d.Sub, w.Bins = d.Bins, w.Tiny = d.Tiny, w.Gamma = d.Gamma; }
static void dims(long shard, long shards, bool deep)
{
    std::vector<Dim> all;
    typedef std::vector<int> I;
    for (bool g : { false, true })
        for (auto l : deep ? std::vector<std::pair<int, int> >{ { 2, 2 }, { 4, 1 }, { 3, 1 }, { 1, 1 } } : std::vector<std::pair<int, int> >{ { 2, 2 }, { 4, 1 }, { 3, 1 } })
            for (int s : deep ? I{ 1, 2, 3 } : I{ 1, 2 })
                for (int b : deep ? I{ 1, 3, 4, 9 } : I{ 3, 4, 9 })
                    for (int t : deep ? I{ 1, 2, 3 } : I{ 2, 3 })
                        all.push_back({ l.first, l.second, s, b, t, g });
    long k = 0;
    for (auto& w : all)
        for (auto& f : all) {
            if (k++ % shards != shard)
                continue;
            // a file need not have what the worker does not use
            bool fit = w.L0 * w.L1 == f.L0 * f.L1 && w.Sub == f.Sub && w.Bins == f.Bins && (!w.Gamma || (f.Gamma && w.Tiny == f.Tiny));
            std::string h = "worker of " + say(w) + ", tables of " + say(f);
            cases++;
            V::beat()++;
            fflush(V::out());
            pid_t p = fork();
            if (!p) {
                snprintf(V::crash_ctx(), 4096, "%s", h.c_str());
                bool did = false;
                try {
                    JobWorld A, B;
                    A.hold.reserve(64), B.hold.reserve(64);
                    sized(A, w), sized(B, f);
                    A.Order = B.Order = 2;
                    B.writeWeights(5);
                    A.writeBasis(A.Beta);
                    A.writeInput(false, 1);
                    unlink("Message.txt");
                    S->runs++;
                    EnvMonteCarlo E(para::Job("infile"));
                    E.BuildNew();
                    did = true;
                    if (fit) {
                        S->built++;
                        auto shape = [&](const char* what, std::vector<uint> got, std::vector<uint> want) {
                            if (got != want) {
                                std::string s;
                                for (uint g : got)
                                    s += V::fmt("%u ", g);
                                V::viol(P, "tables", h + ": " + what + " has the shape " + s);
                            }
                        };
                        uint s = w.Sub, v = w.L0 * w.L1, b = w.Bins;
                        auto st = E.Weight.ToDict(weight::SigmaPolar);
                        shape("the self energy", st.Get<Dictionary>("Sigma").Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT").Get<Python::ArrayObject>("WeightAccu").Shape(), { 2, 2, s, 2, s, v, b });
                        shape("the polarization", st.Get<Dictionary>("Polar").Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT").Get<Python::ArrayObject>("WeightAccu").Shape(), { 2, 4, s, 4, s, v, b });
                        // the numbers are the file's
                        auto g = E.Weight.ToDict(weight::GW);
                        auto same = [&](const char* what, Python::ArrayObject a, std::vector<Complex>& t) {
                            if (a.Size() != t.size() || memcmp(a.Data<Complex>(), t.data(), t.size() * sizeof(Complex)))
                                V::viol(P, "tables", h + ": " + what + " is not that of the file");
                        };
                        same("G", g.Get<Dictionary>("G").Get<Python::ArrayObject>("SmoothT"), B.table(5, 1, 4 * s * s * v * b));
                        same("W", g.Get<Dictionary>("W").Get<Python::ArrayObject>("SmoothT"), B.table(5, 2, 16 * s * s * v * b));
                        same("the instantaneous W", g.Get<Dictionary>("W").Get<Python::ArrayObject>("DeltaT"), B.table(5, 3, 16 * s * s * v));
                        for (int i = 0; i < 300; i++)
                            E.Markov.Hop(1), E.MarkovMonitor.Measure(), S->steps++;
                        if (!E.Diag.CheckDiagram())
                            V::viol(P, "tables", h + ": the diagram is broken after 300 steps");
                        if (!E.Diag.HasGammaGW) {
                            E.Save();
                            // continued with the tables it has
                            EnvMonteCarlo X(para::Job("infile"));
                            X.Load();
                        }
                    }
                }
                catch (std::exception& e) {
                    S->refused++;
                    if (fit)
                        V::viol(P, "misfit", h + (did ? ": does not run: " : ": refused: ") + e.what());
                    did = false;
                }
                if (did && !fit)
                    V::viol(P, "misfit", h + ": accepted");
                fflush(V::out());
                _exit(V::nviol() ? 1 : 0);
            }
            int st;
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
                V::nviol()++;
            else if (!WIFEXITED(st) || WEXITSTATUS(st))
                V::viol(P, "crash", h + V::fmt(": ends with status %d", st));
        }
    // statistics of other dimensions
    for (auto& w : all)
        for (auto& f : all) {
            if (w.Gamma != f.Gamma || k++ % shards != shard)
                continue;
            bool fit = w.L0 * w.L1 == f.L0 * f.L1 && w.Sub == f.Sub && w.Bins == f.Bins && (!w.Gamma || w.Tiny == f.Tiny);
            std::string h = "worker of " + say(w) + ", statistics of " + say(f);
            cases++;
            V::beat()++;
            fflush(V::out());
            pid_t p = fork();
            if (!p) {
                snprintf(V::crash_ctx(), 4096, "%s", h.c_str());
                bool did = false;
                try {
                    JobWorld A, B;
                    A.hold.reserve(64), B.hold.reserve(64);
                    sized(A, w), sized(B, f);
                    A.Order = B.Order = 2;
                    B.writeWeights(5), B.writeBasis(B.Beta), B.writeInput(false, 1);
                    {
                        EnvMonteCarlo* E = new EnvMonteCarlo(para::Job("infile"));
                        E->BuildNew();
                        E->Save();
                    }
                    unlink("7_MC_para.txt"); // the input file says what the worker is
                    A.writeWeights(5), A.writeBasis(A.Beta), A.writeInput(true, 1);
                    S->runs++;
                    EnvMonteCarlo X(para::Job("infile"));
                    X.Load();
                    did = true;
                    S->built++;
                    if (fit)
                        for (int i = 0; i < 100; i++)
                            X.Markov.Hop(1), X.MarkovMonitor.Measure(), S->steps++;
                }
                catch (std::exception& e) {
                    S->refused++;
                    if (fit)
                        V::viol(P, "misfit", h + (did ? ": does not run: " : ": refused: ") + e.what());
                    did = false;
                }
                if (did && !fit)
                    V::viol(P, "misfit", h + ": accepted");
                fflush(V::out());
                _exit(V::nviol() ? 1 : 0);
            }
            int st;
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
                V::nviol()++;
            else if (!WIFEXITED(st) || WEXITSTATUS(st))
                V::viol(P, "crash", h + V::fmt(": ends with status %d", st));
        }
}
int main(int argc, char** argv)
{
    if (!JobWorld::install(argv[0]))
        return 2;
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    V::init(argc, argv);
    V::guard(P, (int)V::argi("hang", 60));
    std::string part = V::arg("part", "fields");
    long shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    V::in_code() = true;
    if (part == "fields")
        fields(shard, shards, V::argi("pairs", 1));
    else
        dims(shard, shards, V::argi("deep", 0));
    V::in_code() = false;
    if (part == "fields") {
        V::note(V::fmt("%llu files read: %llu taken, %llu refused", (unsigned long long)loads, (unsigned long long)taken, (unsigned long long)refused));
        V::sample(V::fmt("every value of each of %zu fields, alone in four layouts and with every value of every other field%s", F.size(), V::argi("triples", 0) ? " and two others" : ""));
    }
    else {
        V::note(V::fmt("%llu workers: %llu started, %llu refused; %llu steps", (unsigned long long)S->runs, (unsigned long long)S->built, (unsigned long long)S->refused, (unsigned long long)S->steps));
        V::sample("every pair of dimensions of a worker and of the tables and statistics it is given");
    }
    V::stati("states", cases);
    V::stati("transitions", loads + S->steps + S->runs);
    V::stati("runs", loads + S->runs);
    V::stati("complete", 1);
    V::finish();
}
