// A complete small simulation built from public constructors, with generic weight tables,
// plus an independent description ("oracle") of what a diagram is worth.
#pragma once
#include "vcommon.h"
#include "module/diagram/diagram.h"
#include "module/markov/markov.h"
#include "module/markov/markov_monitor.h"
#include "module/parameter/parameter.h"
#include "module/weight/weight.h"
#include "module/weight/component.h"
#ifndef VERIF_GAMMA3_H
#define VERIF_GAMMA3_H
#include "module/weight/gamma3.h"
#endif
#include "lattice/lattice.h"
#include <complex>
typedef std::complex<double> cd;

struct World {
    int L0, L1, Sub, Order, Bins, NTau, TinyBins;
    double Beta;
    bool Gamma;
    long Seed;
    int Zeros;
    std::vector<double> tauU; // the NTau values a uniform draw may take for a time
    std::vector<double> tau;
    int Vol;
    int NK;
    para::ParaMC Para;
    weight::Weight* Wt;
    diag::Diagram* Dg;
    mc::Markov* Mk;
    mc::MarkovMonitor* Mon;
    // independent tables
    std::vector<cd> tG, tW, tD, tGG, tWW;
    std::vector<int> RSq, RSym, TSq, TSym, TFlag;
    int RSize, TSize;

    cd entry(uint64_t which, uint64_t i)
    {
        double m = 0.5 + 1.5 * V::u01(Seed * 31 + which, 2 * i), p = 6.283185307179586 * V::u01(Seed * 31 + which, 2 * i + 1);
        if (Zeros && (int)(V::mix(Seed * 977 + which * 131 + i) % 100) < Zeros)
            return cd(0, 0);
        return std::polar(m, p);
    }
    static std::vector<Complex> conv(const std::vector<cd>& v)
    {
        std::vector<Complex> r(v.size());
        for (size_t i = 0; i < v.size(); i++)
            r[i] = Complex(v[i].real(), v[i].imag());
        return r;
    }
    static void put(Dictionary& d, const char* key, std::vector<Complex>& buf, std::vector<uint> shape)
    {
        d[key] = Python::ArrayObject(buf.data(), shape, (int)shape.size());
    }
    std::vector<std::vector<Complex>> keep; // numpy views must outlive their users
    std::vector<Complex>& hold(const std::vector<cd>& v)
    {
        keep.push_back(conv(v));
        return keep.back();
    }
    void build()
    {
        using namespace weight;
        keep.reserve(32);
        L0 = V::argi("Lx", 2), L1 = V::argi("Ly", 1), Sub = V::argi("Sub", 1), Order = V::argi("Order", 2);
        Bins = V::argi("Bins", 4), NTau = V::argi("NTau", 2), TinyBins = V::argi("Tiny", 2);
        Beta = V::argf("Beta", 2.0), Gamma = V::argi("Gamma", 0), Seed = V::argi("seed", 1), Zeros = V::argi("Zeros", 0);
        Vol = L0 * L1, NK = 2 * MAX_K + 1;
        // distinct dyadic positions, not aligned with the bins, pairwise distinct distances
        for (int k = 0; k < NTau; k++) {
            double u = (k + 0.5) / NTau;
            double off = (k % 2 ? 0.1875 : -0.0625) / NTau + 0.01953125 * k / NTau;
            u = std::floor((u + off) * 4096) / 4096;
            if (k == 0 && V::argi("tau0", 0))
                u = 0.0;
            tauU.push_back(u);
            tau.push_back(u * Beta);
        }
        Para.Lat = Lattice(Vec<int>({ L0, L1 }), Sub);
        Para.Beta = Beta, Para.Order = Order, Para.MaxTauBin = Bins, Para.MaxTauBinTiny = TinyBins, Para.NSublat = Sub, Para.Version = 0;
        Para.T = 1.0 / Beta;
        Para.runGamma3 = Gamma, Para.Counter = 4294967295LL; // more steps than any 32 bits hold
        Para.WormSpaceReweight = V::argf("WormRW", 0.75);
        Para.PolarReweight = V::argf("PolarRW", 1.625);
        Para.GammaGReweight = V::argf("GammaGRW", 0.375);
        Para.GammaWReweight = V::argf("GammaWRW", 2.75);
        Para.OrderReWeight.clear();
        for (int i = 0; i <= Order; i++)
            Para.OrderReWeight.push_back(i == 0 ? 1.25 : i == 1 ? 0.8125 : i == 2 ? 0.34375 : 0.21875);
        Norm::NormFactor = Vol * Sub;

        Wt = new weight::Weight(false);
        Wt->GammaG = nullptr;
        Wt->GammaW = nullptr;
        Wt->G = new GClass(Para.Lat, Beta, Bins);
        Wt->W = new WClass(Para.Lat, Beta, Bins);
        Wt->Sigma = new SigmaClass(Para.Lat, Beta, Bins, Order);
        Wt->Polar = new PolarClass(Para.Lat, Beta, Bins, Order);
        Wt->Sigma->BuildNew();
        Wt->Polar->BuildNew();
        std::vector<basis> bb(1, basis(TinyBins, 1.0));
        Wt->GammaG = new GammaGClass(Para.Lat, Beta, Bins);
        Wt->GammaW = new GammaWClass(Para.Lat, Beta, TinyBins, bb);
        Wt->G->GGGammaGWeight = Wt->GammaG;
        Wt->W->WWGammaWWeight = Wt->GammaW;

        uint u2 = 2, u4 = 4, s = Sub, v = Vol, b = Bins;
        tG.resize(2 * s * 2 * s * v * b);
        for (size_t i = 0; i < tG.size(); i++)
            tG[i] = entry(1, i);
        tW.resize(4 * s * 4 * s * v * b);
        for (size_t i = 0; i < tW.size(); i++)
            tW[i] = entry(2, i);
        tD.resize(4 * s * 4 * s * v);
        for (size_t i = 0; i < tD.size(); i++)
            tD[i] = entry(3, i);
        tGG.resize(2 * v * b * b);
        for (size_t i = 0; i < tGG.size(); i++)
            tGG[i] = entry(4, i);
        if (Zeros) { // the initial diagram must be allowed; the worm interaction is never zero in practice
            for (uint sa = 0; sa < s; sa++)
                for (uint sb = 0; sb < s; sb++)
                    for (uint c = 0; c < v; c++)
                        for (uint t = 0; t < b; t++)
                            tW[((((3 * s + sa) * 4 + 3) * s + sb) * v + c) * b + t] = std::polar(1.25, 0.3 * t + c);
            for (uint t = 0; t < b; t++)
                tG[((((1 * s + 0) * 2 + 1) * s + 0) * v + 0) * b + t] = std::polar(0.75, 0.2 * t + 1);
        }
        RSize = Vol * Vol, TSize = TinyBins * TinyBins;
        for (int i = 0; i < Vol * Vol; i++) {
            RSq.push_back((i * 5 + 3) % RSize == i ? i : RSize - 1 - i);
            RSym.push_back(1 + (i % 3 == 1));
        }
        for (int i = 0; i < TSize; i++) {
            TSq.push_back(TSize - 1 - i);
            TSym.push_back(1 + (i % 2));
            TFlag.push_back(i % 3 == 1);
        }
        tWW.resize(2 * RSize * TSize);
        for (size_t i = 0; i < tWW.size(); i++)
            tWW[i] = entry(5, i);
        {
            Dictionary d;
            put(d, "SmoothT", hold(tG), { u2, s, u2, s, v, b });
            Wt->G->FromDict(d);
        }
        {
            Dictionary d;
            put(d, "SmoothT", hold(tW), { u4, s, u4, s, v, b });
            put(d, "DeltaT", hold(tD), { u4, s, u4, s, v });
            Wt->W->FromDict(d);
        }
        {
            Dictionary d;
            put(d, "SmoothT", hold(tGG), { u2, v, b, b });
            Wt->GammaG->WeightFromDict(d);
        }
        {
            Dictionary d;
            put(d, "SmoothT", hold(tWW), { u2, (uint)RSize, (uint)TSize });
            d["RSqueeze"] = RSq;
            d["RSymFactor"] = RSym;
            d["TauSqueeze"] = TSq;
            d["TauSymFactor"] = TSym;
            d["TauFlag"] = TFlag;
            d["RSize"] = (uint)RSize;
            d["TauSize"] = (uint)TSize;
            Wt->GammaW->WeightFromDict(d);
            Wt->GammaW->ClearStatistics();
        }
        if (!V::arg("weights", "").empty()) { // weights written by the solver; the independent tables above do not describe them
            Dictionary d;
            d.BigLoad(V::arg("weights", ""));
            Wt->G->FromDict(d.Get<Dictionary>("G"));
            Wt->W->FromDict(d.Get<Dictionary>("W"));
            if (Gamma) {
                Wt->GammaG->WeightFromDict(d.Get<Dictionary>("GGGammaG"));
                delete Wt->GammaW;
                std::vector<basis> again(1, basis(TinyBins, 1.0));
                Wt->GammaW = new GammaWClass(Para.Lat, Beta, TinyBins, again);
                Wt->GammaW->WeightFromDict(d.Get<Dictionary>("WWGammaW"));
                Wt->W->WWGammaWWeight = Wt->GammaW;
            }
        }
        Dg = new diag::Diagram();
        memset(Dg->GHash, 0, sizeof Dg->GHash);
        memset(Dg->WHash, 0, sizeof Dg->WHash);
        Dg->SignFermiLoop = 1.0;
        Dg->MeasureGLine = false;
        Dg->GMeasure = nullptr;
        Dg->WMeasure = nullptr;
        Dg->Vin = Dg->Vout = nullptr;
        Dg->Worm.Weight = 1.0;
        Dg->UExt.Tau = 0;
        Dg->UExt.Spin = UP;
        Dg->BuildNew(Para.Lat, *Wt->G, *Wt->W);
        // the initial diagram sits at tau=0; move it onto the explored time values
        if (!V::argi("tau0", 0)) {
            for (int i = 0; i < 2; i++)
                Dg->Ver(i)->Tau = tau[0];
            Dg->FixDiagram();
        }
        Mk = new mc::Markov();
        Mk->BuildNew(Para, *Dg, *Wt);
        Mon = new mc::MarkovMonitor();
        Mon->BuildNew(Para, *Dg, *Wt);
    }
    // ---- oracle -------------------------------------------------------------------------
    int coord(const Site& a, const Site& b) const // displacement a -> b
    {
        int d0 = ((b.Coordinate[0] - a.Coordinate[0]) % L0 + L0) % L0;
        int d1 = ((b.Coordinate[1] - a.Coordinate[1]) % L1 + L1) % L1;
        return d0 * L1 + d1;
    }
    int tbin(double dt, int bins) const // time difference folded into [0,Beta)
    {
        if (dt < 0)
            dt += Beta;
        int k = (int)std::floor(dt * bins / Beta);
        return k;
    }
    // G from a to b
    cd oG(const Site& a, const Site& b, double ta, double tb, int sa, int sb) const
    {
        size_t i = ((((size_t)(sa * Sub + a.Sublattice) * 2 + sb) * Sub + b.Sublattice) * Vol + coord(a, b)) * Bins + tbin(tb - ta, Bins);
        return (tb > ta ? 1.0 : -1.0) * tG[i];
    }
    cd oW(const Site& a, const Site& b, double ta, double tb, const int* sa, const int* sb, bool delta) const
    {
        size_t i = (((size_t)((sa[0] * 2 + sa[1]) * Sub + a.Sublattice) * 4 + (sb[0] * 2 + sb[1])) * Sub + b.Sublattice) * Vol + coord(a, b);
        if (delta)
            return tD[i];
        return tW[i * Bins + tbin(tb - ta, Bins)];
    }
    cd oGG(const Site& a, const Site& u, double ta, double tb, double tu, int sa) const
    {
        double sg = 1;
        if (tb < tu)
            sg = -sg;
        if (ta < tu)
            sg = -sg;
        return sg * tGG[((size_t)(sa * Vol + coord(a, u)) * Bins + tbin(tb - tu, Bins)) * Bins + tbin(ta - tu, Bins)];
    }
    // class of the (out,in) spin pattern: 0,1 density-density same, 2,3 opposite, 4,5 exchange
    static int spinClass(const int* l, const int* r)
    {
        int c = l[0] * 8 + l[1] * 4 + r[0] * 2 + r[1];
        switch (c) {
        case 15: return 0;
        case 0: return 1;
        case 12: return 2;
        case 3: return 3;
        case 9: return 4;
        case 6: return 5;
        }
        return -1;
    }
    void wwIndex(const Site& a, const Site& b, const Site& u, double ta, double tb, double tu, int& ri, int& ti) const
    {
        ri = coord(b, u) * Vol + coord(a, u);
        ti = tbin(tb - tu, TinyBins) * TinyBins + tbin(ta - tu, TinyBins);
        if (TFlag[ti]) // kept as minus the conjugate of the entry with the two ends exchanged, times and positions
            ri = coord(a, u) * Vol + coord(b, u);
    }
    cd oWW(const Site& a, const Site& b, const Site& u, double ta, double tb, double tu, const int* sa, const int* sb) const
    {
        int ri, ti;
        wwIndex(a, b, u, ta, tb, tu, ri, ti);
        int sc = spinClass(sb, sa);
        size_t i = (size_t)RSq[ri] * TSize + TSq[ti];
        if (sc >= 4)
            i += (size_t)RSize * TSize;
        cd w = tWW[i];
        if (TFlag[ti])
            w = -std::conj(w);
        if (sc == 2 || sc == 3)
            w = -w;
        if (sc == 4)
            w = -std::conj(w);
        return w;
    }
};
