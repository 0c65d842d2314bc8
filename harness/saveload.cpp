// C17: the real EnvMonteCarlo.  Along runs of the real chain every step is taken as a save point: the simulation is
// saved, restored into a new one, compared in everything observable, and both are continued and compared again.
#include "jobworld.h"
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C17";
static JobWorld JW;
static uint64_t runs = 0, states = 0, trans = 0;
static long kinds[4][2][2];
struct Shape { int order; bool worm, g; };
static void step(EnvMonteCarlo& E, int n)
{
    for (int i = 0; i < n; i++) {
        V::beat()++;
        E.Markov.Hop(1);
        E.MarkovMonitor.Measure();
    }
}
static std::unique_ptr<EnvMonteCarlo> restore()
{
    JW.writeInput(true, 99); // the input file is not where the state comes from
    std::unique_ptr<EnvMonteCarlo> E(new EnvMonteCarlo(para::Job("infile")));
    E->Load();
    return E;
}
static bool compare(EnvMonteCarlo& A, EnvMonteCarlo& B, const std::string& where, const char* tag, double tol = 0)
{
    auto a = image(A, JW.Gamma), b = image(B, JW.Gamma);
    std::set<std::string> skip;
    if (A.Diag.Order == 0) // the lines kept at order 0 hold no weight
        skip.insert("nothing");
    if (JW.Gamma)
        skip.insert("vertex statistics"); // kept in single precision, compared below
    std::string d = differ(a, b, skip, tol);
    if (d.empty())
        d = numbers(A.Diag, B.Diag);
    if (d.empty() && JW.Gamma) {
        auto x = A.Weight.ToDict(weight::GammaGWStatis), y = B.Weight.ToDict(weight::GammaGWStatis);
        for (const char* k : { "GammaGStatis", "GammaWStatis" }) {
            auto p = x.Get<Dictionary>(k), q = y.Get<Dictionary>(k);
            auto u = p.Get<Python::ArrayObject>("WeightAccu"), v = q.Get<Python::ArrayObject>("WeightAccu");
            if (std::fabs(p.Get<real>("Norm") - q.Get<real>("Norm")) > tol * p.Get<real>("Norm") || std::fabs(p.Get<real>("NormAccu") - q.Get<real>("NormAccu")) > tol * p.Get<real>("NormAccu") || u.Size() != v.Size())
                d = std::string("norm of ") + k;
            for (uint i = 0; d.empty() && i < u.Size(); i++)
                if (!close(v.Data<Complex>()[i], u.Data<Complex>()[i], k[5] == 'W' ? 2e-7 : tol))
                    d = V::fmt("%s[%u]: %.17g%+.17gi against %.17g%+.17gi", k, i, u.Data<Complex>()[i].Re, u.Data<Complex>()[i].Im, v.Data<Complex>()[i].Re, v.Data<Complex>()[i].Im);
        }
    }
    if (!d.empty())
        V::viol(P, tag, where + ": " + d);
    return d.empty();
}
int main(int argc, char** argv)
{
    if (!JobWorld::install(argv[0]))
        return 2;
    V::init(argc, argv);
    V::guard(P, 60);
    JW.setup();
    JW.writeBasis(JW.Beta);
    JW.writeWeights(5);
    long seed = V::argi("seed", 1), points = V::argi("points", 150), gap = V::argi("gap", 1), cont = V::argi("cont", 25);
    JW.writeInput(false, seed);
    V::in_code() = true;
    try {
        std::unique_ptr<EnvMonteCarlo> E(new EnvMonteCarlo(para::Job("infile")));
        E->BuildNew();
        V::note("built");
        long k = 0, skipped = 0, done = 0;
        while (done < points) {
            std::string where = V::fmt("saved after %ld steps (order %d, worm %d, %s measured)", k, E->Diag.Order, E->Diag.Worm.Exist, E->Diag.MeasureGLine ? "G" : "W");
            snprintf(V::crash_ctx(), 4096, "%s", where.c_str());
            if (E->Diag.HasGammaGW != 0) {
                // nothing is written while a vertex function is present
                (void)!system("rm -f ./7_MC_para.txt ./7_MC_statis.hkl");
                E->Save();
                if (access("7_MC_para.txt", F_OK) == 0 || access("7_MC_statis.hkl", F_OK) == 0)
                    V::viol(P, "gammasave", where + ": a state with a vertex function was written");
                skipped++;
            } else {
                auto before = image(*E, JW.Gamma);
                E->Save();
                runs++;
                std::string ch = differ(before, image(*E, JW.Gamma));
                if (!ch.empty())
                    V::viol(P, "saving", where + ": saving changed the running simulation: " + ch);
                auto F = restore();
                runs++;
                states++, done++;
                kinds[std::min(E->Diag.Order, 3)][E->Diag.Worm.Exist][E->Diag.MeasureGLine]++;
                if (compare(*E, *F, where, "restored") && cont && done % V::argi("every", 3) == 0) {
                    // a second generation, then the same random continuation
                    F->Save();
                    auto H = restore();
                    compare(*F, *H, where + ", saved and restored twice", "second");
                    step(*H, cont);
                    // the original is continued by the main loop below; compare with it then
                    auto G = restore();
                    step(*G, cont);
                    for (long i = 0; i < cont; i++) {
                        E->Markov.Hop(1);
                        E->MarkovMonitor.Measure();
                        k++;
                    }
                    trans += 3 * cont, runs += 3;
                    if (E->Diag.HasGammaGW == 0 && G->Diag.HasGammaGW == 0)
                        compare(*E, *G, where + V::fmt(", continued for %ld steps", cont), "continued", 1e-9), compare(*E, *H, where + V::fmt(", restored twice, continued for %ld steps", cont), "continued2", 1e-9);
                }
            }
            step(*E, gap);
            k += gap, trans += gap;
            if (V::nviol() > 3)
                break;
        }
        V::note(V::fmt("%ld save points, %ld with a vertex function left out; order 0: %ld, order 1: %ld worm %ld no worm, order 2: %ld worm %ld no worm, order 3: %ld worm %ld no worm", done, skipped, kinds[0][0][0] + kinds[0][0][1], kinds[1][1][0] + kinds[1][1][1], kinds[1][0][0] + kinds[1][0][1], kinds[2][1][0] + kinds[2][1][1], kinds[2][0][0] + kinds[2][0][1], kinds[3][1][0] + kinds[3][1][1], kinds[3][0][0] + kinds[3][0][1]));
        // a first start after a crash before the first save: the parameter file is missing
        (void)!system("rm -f ./7_MC_para.txt");
        if (access("7_MC_statis.hkl", F_OK) == 0) {
            JW.writeInput(true, seed);
            EnvMonteCarlo X(para::Job("infile"));
            X.Load();
            if (!X.Diag.CheckDiagram() || X.Diag.Order != 1)
                V::viol(P, "nopara", "without a parameter file the simulation does not start from the initial diagram");
            runs++;
        }
    } catch (std::exception& e) {
        V::viol(P, "exception", std::string(V::crash_ctx()) + ": " + e.what());
    }
    V::in_code() = false;
    V::sample(V::fmt("lattice %dx%dx%d, order %d, vertex functions %d, seed %ld: every %ld step(s) a save point", JW.L0, JW.L1, JW.Sub, JW.Order, JW.Gamma, seed, gap));
    V::stati("states", states);
    V::stati("transitions", trans);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
