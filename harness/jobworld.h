// A small complete worker: input file, weight file, message file and basis files in the current directory, written
// through the repository's own (translated) IO.py.
#pragma once
#include "vcommon.h"
#include "pycopy.h"
#include "environment/environment.h"
#include "module/weight/component.h"
#ifndef VERIF_GAMMA3_H
#define VERIF_GAMMA3_H
#include "module/weight/gamma3.h"
#endif
struct JobWorld {
    int L0 = 2, L1 = 2, Sub = 1, Order = 2, Bins = 4, Tiny = 2;
    bool Gamma = false;
    double Beta = 0.5;
    std::vector<std::vector<Complex>> hold;
    void setup()
    {
        L0 = V::argi("Lx", 2), L1 = V::argi("Ly", 2), Sub = V::argi("Sub", 1), Order = V::argi("Order", 2), Bins = V::argi("Bins", 4), Tiny = V::argi("Tiny", 2), Gamma = V::argi("Gamma", 0), Beta = V::argf("Beta", 0.5);
        hold.reserve(64);
    }
    // translated python modules beside the data; called before Python starts
    static bool install(const char* self)
    {
        std::string root = self; // .../build/bin/x -> ...
        std::string v = getenv("VERIF_HOME") ? getenv("VERIF_HOME") : root.substr(0, root.rfind("/build/"));
        return system(("/usr/bin/python3 -B " + v + "/lib/py2/translate.py . IO.py hickle.py 1>&2").c_str()) == 0;
    }
    std::vector<Complex>& table(long seed, uint64_t which, size_t n)
    {
        if (hold.size() > 48)
            hold.clear(), hold.reserve(64);
        hold.push_back(std::vector<Complex>(n));
        auto& t = hold.back();
        for (size_t i = 0; i < n; i++) {
            double m = 0.5 + 1.5 * V::u01(seed * 31 + which, 2 * i), p = 6.283185307179586 * V::u01(seed * 31 + which, 2 * i + 1);
            t[i] = Complex(m * cos(p), m * sin(p));
        }
        return t;
    }
    Dictionary weights(long seed)
    {
        uint s = Sub, v = L0 * L1, b = Bins, R = v * v, T = Tiny * Tiny;
        Dictionary d, g, w;
        g["SmoothT"] = Python::ArrayObject(table(seed, 1, 4 * s * s * v * b).data(), std::vector<uint>{ 2, s, 2, s, v, b }, 6);
        w["SmoothT"] = Python::ArrayObject(table(seed, 2, 16 * s * s * v * b).data(), std::vector<uint>{ 4, s, 4, s, v, b }, 6);
        w["DeltaT"] = Python::ArrayObject(table(seed, 3, 16 * s * s * v).data(), std::vector<uint>{ 4, s, 4, s, v }, 5);
        d["G"] = g, d["W"] = w;
        if (Gamma) {
            Dictionary gg, ww;
            gg["SmoothT"] = Python::ArrayObject(table(seed, 4, 2 * v * b * b).data(), std::vector<uint>{ 2, v, b, b }, 4);
            // values exact in the single precision the file keeps them in
            auto& t = table(seed, 5, 2 * R * T);
            for (auto& c : t)
                c = Complex(std::floor(c.Re * 1024) / 1024, std::floor(c.Im * 1024) / 1024);
            ww["SmoothT"] = Python::ArrayObject(t.data(), std::vector<uint>{ 2, R, T }, 3);
            std::vector<int> a, bb, c, e, f;
            for (uint i = 0; i < R; i++)
                a.push_back(R - 1 - i), bb.push_back(1 + i % 2);
            for (uint i = 0; i < T; i++)
                c.push_back(i), e.push_back(1 + (i % 3 == 1)), f.push_back(i % 2);
            ww["RSqueeze"] = a, ww["RSymFactor"] = bb, ww["TauSqueeze"] = c, ww["TauSymFactor"] = e, ww["TauFlag"] = f;
            ww["RSize"] = R, ww["TauSize"] = T;
            d["GGGammaG"] = gg, d["WWGammaW"] = ww;
        }
        return d;
    }
    void writeWeights(long seed) { weights(seed).BigSave("Weight"); }
    void writeBasis(double beta)
    {
        for (const char* n : { "FermiBasis.dat", "BoseBasis.dat" }) {
            Dictionary d;
            d.LoadFromString(V::fmt("{'Beta': %.17g, 'MaxTauBin': %d, 'Number': 2, 'Basis': [[1.0]*%d, [0.5]*%d]}", beta, Tiny, Tiny, Tiny));
            d.Save(n, "w");
        }
    }
    std::string paraText(double beta, int version, long seed)
    {
        std::string rw = "[1.25", tr = "[1.0";
        for (int i = 1; i <= Order; i++)
            rw += V::fmt(", %.17g", 0.8125 / i), tr += V::fmt(", %.17g", 1.0 + i);
        return V::fmt("{'Version': %d, 'Tau': {'Beta': %.17g, 'MaxTauBin': %d, 'MaxTauBinTiny': %d}, 'Lattice': {'L': [%d, %d], 'NSublat': %d, 'Name': 'x'},"
                      "'Markov': {'Toss': %ld, 'Sweep': %ld, 'WormSpaceReweight': %.17g, 'PolarReweight': 1.625, 'runGamma3': %s, 'GammaGReweight': 0.375, 'GammaWReweight': 2.75,"
                      "'OrderReWeight': %s], 'OrderTimeRatio': %s], 'Order': %d, 'Seed': %ld, 'Timer': {'PrinterTimer': %ld, 'DiskWriterTimer': %ld, 'MessageTimer': %ld, 'ReweightTimer': %ld}}}",
                      version, beta, Bins, Tiny, L0, L1, Sub, V::argi("Toss", 10), V::argi("Sweep", 3), V::argf("WormRW", 0.75), Gamma ? "True" : "False", rw.c_str(), tr.c_str(), Order, seed, V::argi("Tprint", 7), V::argi("Tdisk", 3), V::argi("Tmsg", 5), V::argi("Trw", 11));
    }
    void writeInput(bool load, long seed, int version = (int)V::argi("Version", 0))
    {
        Dictionary d;
        d.LoadFromString(V::fmt("{'Job': {'Type': 'MC', 'DoesLoad': %s, 'Sample': 50, 'PID': 7, 'WeightFile': 'Weight', 'MessageFile': 'Message'}, 'Para': %s}", load ? "True" : "False", paraText(Beta, version, seed).c_str()));
        d.Save("infile", "w");
    }
};
inline void put(V::H128& h, const void* p, size_t n) { h.add(p, n); }
// everything observable of a simulation, as text, in named parts
inline std::map<std::string, std::string> image(EnvMonteCarlo& E, bool gamma)
{
    std::map<std::string, std::string> m;
    m["parameters"] = py_text(E.Para.ToDict());
    m["derived"] = V::fmt("T=%.17g Vol=%d SublatVol=%d Beta=%.17g Version=%d Order=%d bins=%u/%u", E.Para.T, E.Para.Lat.Vol, E.Para.Lat.SublatVol, E.Para.Beta, E.Para.Version, E.Para.Order, E.Para.MaxTauBin, E.Para.MaxTauBinTiny);
    m["weights"] = py_text(E.Weight.ToDict(weight::GW));
    m["statistics"] = py_text(E.Weight.ToDict(weight::SigmaPolar));
    m["estimators"] = py_text(E.MarkovMonitor.ToDict());
    if (gamma) {
        m["vertex weights"] = py_text(E.Weight.ToDict(weight::GammaGW));
        m["vertex statistics"] = py_text(E.Weight.ToDict(weight::GammaGWStatis));
    }
    auto& d = E.Diag;
    if (d.HasGammaGW == 0)
        m["diagram"] = py_text(d.ToDict());
    std::string s = V::fmt("order %d, sign %.17g, measured %s %d, worm %d", d.Order, d.SignFermiLoop, d.MeasureGLine ? "G" : "W", d.MeasureGLine ? d.GMeasure->Name : d.WMeasure->Name, d.Worm.Exist);
    if (d.Worm.Exist)
        s += V::fmt(" (%d %d K%d s%d)", d.Worm.Ira->Name, d.Worm.Masha->Name, d.Worm.K.K, d.Worm.dSpin);
    for (int i = 0; i < d.W.HowMany(); i++)
        s += V::fmt(" W%d:%d", i, d.W(i)->IsWorm);
    for (int i = 0; i < d.Ver.HowMany(); i++)
        s += V::fmt(" V%d:%d,%d,%d,%d", i, d.Ver(i)->nG[0]->Name, d.Ver(i)->nG[1]->Name, d.Ver(i)->nW->Name, d.Ver(i)->Dir);
    // the components themselves, not what saving them would write
    if (d.HasGammaGW) // otherwise it is left over
        s += V::fmt(" UExt %d,%d/%d %.17g", d.UExt.R.Coordinate[0], d.UExt.R.Coordinate[1], d.UExt.R.Sublattice, d.UExt.Tau);
    for (int i = 0; i < d.Ver.HowMany(); i++) {
        auto v = d.Ver(i);
        s += V::fmt(" V%d at %d,%d/%d time %.17g spins %d%d", v->Name, v->R.Coordinate[0], v->R.Coordinate[1], v->R.Sublattice, v->Tau, v->Spin(IN), v->Spin(OUT));
    }
    for (int i = 0; i < d.G.HowMany(); i++)
        s += V::fmt(" G%d %d>%d K%d m%d g%d", d.G(i)->Name, d.G(i)->nVer[IN]->Name, d.G(i)->nVer[OUT]->Name, d.G(i)->K.K, d.G(i)->IsMeasure, d.G(i)->IsGGGammaG);
    for (int i = 0; i < d.W.HowMany(); i++)
        s += V::fmt(" W%d %d>%d K%d m%d d%d g%d", d.W(i)->Name, d.W(i)->nVer[IN]->Name, d.W(i)->nVer[OUT]->Name, d.W(i)->K.K, d.W(i)->IsMeasure, d.W(i)->IsDelta, d.W(i)->IsWWGammaW);
    m["diagram state"] = s;
    s = "";
    for (auto* e : { &E.MarkovMonitor.SigmaEstimator, &E.MarkovMonitor.PolarEstimator, &E.MarkovMonitor.GammaGEstimator, &E.MarkovMonitor.GammaWEstimator })
        s += V::fmt(" %s: %.17g of %.17g", e->Name.c_str(), e->Norm() > 0 ? e->Value() : 0.0, e->Norm());
    m["measured averages"] = s;
    s = V::fmt("step %lld, %d %d, reweighting %.17g %.17g %.17g %.17g, timers %d %d %d %d,", E.Para.Counter, E.Para.Toss, E.Para.Sweep, E.Para.WormSpaceReweight, E.Para.PolarReweight, E.Para.GammaGReweight, E.Para.GammaWReweight, E.Para.PrinterTimer, E.Para.DiskWriterTimer, E.Para.MessageTimer, E.Para.ReweightTimer);
    for (real x : E.Para.OrderReWeight)
        s += V::fmt(" %.17g", x);
    for (real x : E.Para.OrderTimeRatio)
        s += V::fmt(" %.17g", x);
    m["settings"] = s;
    V::H128 h;
    h.add(d.GHash, sizeof d.GHash), h.add(d.WHash, sizeof d.WHash);
    m["occupancy"] = V::fmt("%llx%llx", (unsigned long long)h.a, (unsigned long long)h.b);
    return m;
}
inline bool close(Complex a, Complex b, double tol = 1e-9) { return std::hypot(a.Re - b.Re, a.Im - b.Im) <= tol * (1e-300 + std::hypot(b.Re, b.Im)); }
// compared up to rounding: weights of lines, of the diagram and its phase
inline std::string numbers(diag::Diagram& a, diag::Diagram& b)
{
    if (!close(a.Weight, b.Weight))
        return V::fmt("diagram weight %.15g%+.15gi against %.15g%+.15gi", a.Weight.Re, a.Weight.Im, b.Weight.Re, b.Weight.Im);
    if (!close(a.Phase, b.Phase))
        return V::fmt("phase %.15g%+.15gi against %.15g%+.15gi", a.Phase.Re, a.Phase.Im, b.Phase.Re, b.Phase.Im);
    if (a.Order) {
        for (int i = 0; i < a.G.HowMany(); i++)
            if (!close(a.G(i)->Weight, b.G(i)->Weight))
                return V::fmt("weight of propagator %d", i);
        for (int i = 0; i < a.W.HowMany(); i++)
            if (!close(a.W(i)->Weight, b.W(i)->Weight))
                return V::fmt("weight of interaction %d: %.15g%+.15gi against %.15g%+.15gi", i, a.W(i)->Weight.Re, a.W(i)->Weight.Im, b.W(i)->Weight.Re, b.W(i)->Weight.Im);
    }
    if (a.Worm.Exist && a.Worm.Weight != b.Worm.Weight)
        return "worm weight";
    return "";
}
inline std::string cut(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    size_t s = i > 60 ? i - 60 : 0;
    return "..." + a.substr(s, 160) + " against ..." + b.substr(s, 160);
}
// the same text up to rounding of the numbers in it
inline bool sameNumbers(const std::string& a, const std::string& b, double tol)
{
    const char *p = a.c_str(), *q = b.c_str();
    while (*p || *q) {
        bool np = isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1])), nq = isdigit((unsigned char)*q) || (*q == '-' && isdigit((unsigned char)q[1]));
        if (np && nq) {
            char *e, *f;
            double x = strtod(p, &e), y = strtod(q, &f);
            if (!(x == y) && !(std::fabs(x - y) <= tol * std::max(1.0, std::max(std::fabs(x), std::fabs(y)))))
                return false;
            p = e, q = f;
        } else if (*p != *q)
            return false;
        else
            p++, q++;
    }
    return true;
}
inline std::string differ(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const std::set<std::string>& skip = {}, double tol = 0)
{
    for (auto& e : a)
        if (!skip.count(e.first) && (!b.count(e.first) || (b.at(e.first) != e.second && !(tol > 0 && sameNumbers(e.second, b.at(e.first), tol)))))
            return e.first + ": " + (b.count(e.first) ? cut(e.second, b.at(e.first)) : "missing");
    return "";
}
