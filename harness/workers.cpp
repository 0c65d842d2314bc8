// Real workers on a small system leave their statistics files for pyharness/collecting.py.
#include "jobworld.h"
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
int main(int argc, char** argv)
{
    if (!JobWorld::install(argv[0]))
        return 2;
    V::init(argc, argv);
    JobWorld JW;
    JW.setup();
    JW.writeBasis(JW.Beta);
    JW.writeWeights(5);
    for (long k = 0; k < V::argi("workers", 3); k++) {
        JW.writeInput(false, 10 + k);
        EnvMonteCarlo E(para::Job("infile"));
        E.BuildNew();
        for (long i = 0; i < V::argi("steps", 3000) || (E.Diag.HasGammaGW != 0 && i < 100000); i++)
            E.Markov.Hop(1), E.MarkovMonitor.Measure();
        E.Save();
        if (rename("7_MC_statis.hkl", V::fmt("%ld_MC_statis.hkl", k + 1).c_str()))
            return 2;
        new EnvMonteCarlo(para::Job("infile")); // nothing is taken apart before the end
    }
    fflush(stdout);
    _exit(0);
}
