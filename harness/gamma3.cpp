// C22: reading and accumulating three-point vertex tables for every argument combination, under several symmetry maps.
#include "world.h"
Verif::WordSource* Verif::Source = nullptr;
using namespace weight;
static const char* P = "C22";
static uint64_t runs = 0, states = 0;
static World Wd;
static bool same(const Complex& a, cd b) { return std::abs(cd(a.Re, a.Im) - b) <= 1e-12 * (1 + std::abs(b)); }
static Complex* view(Dictionary d, size_t& n)
{
    auto a = d.Get<Python::ArrayObject>("WeightAccu");
    n = a.Size();
    return a.Data<Complex>();
}
static std::string args(const Site& a, const Site& b, const Site& x, double ta, double tb, double tx)
{
    return V::fmt("in (%d,%d)@%.9g out (%d,%d)@%.9g external (%d,%d)@%.9g", a.Coordinate[0], a.Coordinate[1], ta, b.Coordinate[0], b.Coordinate[1], tb, x.Coordinate[0], x.Coordinate[1], tx);
}
static std::vector<double> times(double Beta, int Bins, bool edges)
{
    std::vector<double> T;
    for (int k = 0; k < Bins; k++) {
        if (edges)
            T.push_back(Beta * k / Bins);
        T.push_back(Beta * (k + 0.5 + 0.0625 * (k % 3)) / Bins);
        if (edges)
            T.push_back(Beta * ((double)(k + 1) / Bins - 1.0 / 4294967296.0));
    }
    return T;
}
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P);
    Wd.build();
    World& w = Wd;
    bool edges = V::argi("edges", 1);
    std::vector<Site> S;
    for (int c = 0; c < w.Vol; c++)
        for (int u = 0; u < w.Sub; u++)
            S.push_back(Site(u, Vec<int>({ c / w.L1, c % w.L1 })));
    const Complex mark(0.625, -1.375);
    const cd cmark(mark.Re, mark.Im);
    // ---- fermionic ----
    {
        std::vector<double> T = times(w.Beta, w.Bins, edges);
        size_t n;
        V::in_code() = true;
        w.Wt->GammaG->ClearStatistics();
        Complex* acc = view(w.Wt->GammaG->StatisToDict(), n);
        V::in_code() = false;
        if (n != w.tGG.size())
            V::viol(P, "size", V::fmt("the fermionic table has %zu cells", n));
        std::vector<char> touched(n, 0);
        for (auto& a : S)
            for (auto& b : S)
                for (auto& x : S)
                    for (double ta : T)
                        for (double tb : T)
                            for (double tx : T)
                                for (int s = 0; s < 2; s++) {
                                    V::beat()++;
                                    snprintf(V::crash_ctx(), 4096, "fermionic %s", args(a, b, x, ta, tb, tx).c_str());
                                    cd r = w.oGG(a, x, ta, tb, tx, s);
                                    int c = w.coord(a, x), i1 = w.tbin(tb - tx, w.Bins), i2 = w.tbin(ta - tx, w.Bins);
                                    size_t at = ((size_t)(s * w.Vol + c) * w.Bins + i1) * w.Bins + i2;
                                    double sg = (tb < tx ? -1 : 1) * (ta < tx ? -1 : 1);
                                    V::in_code() = true;
                                    Complex q = w.Wt->GammaG->Weight(a, b, x, ta, tb, tx, (spin)s, (spin)s, (spin)s);
                                    w.Wt->GammaG->Measure(a, b, x, ta, tb, tx, (spin)s, (spin)s, (spin)s, mark);
                                    V::in_code() = false;
                                    runs += 2;
                                    states++;
                                    if (!same(q, r))
                                        V::viol(P, "read-fermionic", args(a, b, x, ta, tb, tx) + V::fmt(" spin %d reads (%g,%g), expected (%g,%g)", s, q.Re, q.Im, r.real(), r.imag()));
                                    if (!same(acc[at], sg * cmark)) {
                                        size_t k = 0;
                                        while (k < n && acc[k].Re == 0 && acc[k].Im == 0)
                                            k++;
                                        V::viol(P, "write-fermionic", args(a, b, x, ta, tb, tx) + V::fmt(" spin %d: cell %zu received (%g,%g), expected (%g,%g); first cell changed is %zu", s, at, acc[at].Re, acc[at].Im, sg * mark.Re, sg * mark.Im, k));
                                        for (size_t j = 0; j < n; j++)
                                            acc[j] = Complex(0, 0);
                                    }
                                    acc[at] = Complex(0, 0);
                                    touched[at] = 1;
                                    if (states % 64 == 0)
                                        for (size_t j = 0; j < n; j++)
                                            if (acc[j].Re != 0 || acc[j].Im != 0) {
                                                V::viol(P, "write-elsewhere", V::fmt("accumulating into the fermionic table also changed cell %zu", j));
                                                acc[j] = Complex(0, 0);
                                            }
                                }
        for (size_t j = 0; j < n; j++) {
            if (acc[j].Re != 0 || acc[j].Im != 0)
                V::viol(P, "write-elsewhere", V::fmt("accumulating into the fermionic table also changed cell %zu", j));
            if (!touched[j])
                V::note(V::fmt("fermionic cell %zu is not the image of any argument", j));
        }
        // what was accumulated is what is read back once it becomes the table
        for (auto& a : S)
            for (auto& x : S)
                for (double ta : T)
                    for (double tb : T)
                        for (double tx : T) {
                            V::in_code() = true;
                            w.Wt->GammaG->Measure(a, a, x, ta, tb, tx, UP, UP, UP, mark);
                            size_t m = ((size_t)(UP * w.Vol + w.coord(a, x)) * w.Bins + w.tbin(tb - tx, w.Bins)) * w.Bins + w.tbin(ta - tx, w.Bins);
                            Complex stored = acc[m];
                            acc[m] = Complex(0, 0);
                            Complex q = w.Wt->GammaG->Weight(a, a, x, ta, tb, tx, UP, UP, UP);
                            V::in_code() = false;
                            runs += 2;
                            cd f = cd(stored.Re, stored.Im) / cmark; // sign used when writing
                            cd want = f * w.tGG[m];
                            if (!same(q, want))
                                V::viol(P, "round-trip", args(a, a, x, ta, tb, tx) + ": the sign used when reading differs from the one used when accumulating");
                        }
    }
    // ---- bosonic, several symmetry maps ----
    const int RS = w.Vol * w.Vol, TS = w.TinyBins * w.TinyBins;
    std::vector<double> T = times(w.Beta, w.TinyBins, edges);
    for (int fam = 0; fam < 4; fam++) {
        std::vector<int>&Rq = w.RSq, &Rs = w.RSym, &Tq = w.TSq, &Ts = w.TSym, &Tf = w.TFlag;
        int rsize = RS, tsize = TS;
        Rq.assign(RS, 0), Rs.assign(RS, 1), Tq.assign(TS, 0), Ts.assign(TS, 1), Tf.assign(TS, 0);
        if (fam == 0) { // no symmetry
            for (int i = 0; i < RS; i++)
                Rq[i] = i;
            for (int i = 0; i < TS; i++)
                Tq[i] = i;
        } else if (fam == 1) { // times exchanged
            std::map<int, int> id;
            for (int i = 0; i < RS; i++)
                Rq[i] = i;
            for (int a = 0; a < w.TinyBins; a++)
                for (int b = 0; b < w.TinyBins; b++) {
                    int lo = std::min(a, b), hi = std::max(a, b), k = lo * w.TinyBins + hi;
                    if (!id.count(k)) {
                        int z = id.size();
                        id[k] = z;
                    }
                    Tq[a * w.TinyBins + b] = id[k];
                    Ts[a * w.TinyBins + b] = a == b ? 1 : 2;
                    Tf[a * w.TinyBins + b] = a > b;
                }
            tsize = id.size();
            for (int& q : Tq) // classes numbered independently of the cells they come from
                q = tsize - 1 - q;
        } else if (fam == 2) { // points inverted through the external vertex, times folded
            std::map<int, int> id;
            auto inv = [&](int c) { int x = c / w.L1, y = c % w.L1; return (w.L0 - x) % w.L0 * w.L1 + (w.L1 - y) % w.L1; };
            for (int a = 0; a < w.Vol; a++)
                for (int b = 0; b < w.Vol; b++) {
                    int i = a * w.Vol + b, j = inv(a) * w.Vol + inv(b), k = std::min(i, j);
                    if (!id.count(k)) {
                        int z = id.size();
                        id[k] = z;
                    }
                    Rq[i] = id[k];
                    Rs[i] = i == j ? 1 : 2;
                }
            rsize = id.size();
            for (int& q : Rq)
                q = rsize - 1 - q;
            for (int i = 0; i < TS; i++)
                Tq[i] = std::min(i, TS - 1 - i), Ts[i] = i == TS - 1 - i ? 1 : 2, Tf[i] = i > TS - 1 - i;
            tsize = (TS + 1) / 2;
        } else { // everything in one cell
            for (int i = 0; i < RS; i++)
                Rs[i] = RS;
            for (int i = 0; i < TS; i++)
                Ts[i] = TS, Tf[i] = i & 1;
            rsize = tsize = 1;
        }
        w.RSize = rsize, w.TSize = tsize;
        w.tWW.resize(2 * rsize * tsize);
        for (size_t i = 0; i < w.tWW.size(); i++)
            w.tWW[i] = w.entry(60 + fam, i);
        std::vector<basis> bb(1, basis(w.TinyBins, 1.0));
        V::in_code() = true;
        GammaWClass* G = new GammaWClass(w.Para.Lat, w.Beta, w.TinyBins, bb);
        Dictionary d;
        std::vector<Complex> buf = World::conv(w.tWW);
        World::put(d, "SmoothT", buf, { 2, (uint)rsize, (uint)tsize });
        d["RSqueeze"] = Rq;
        d["RSymFactor"] = Rs;
        d["TauSqueeze"] = Tq;
        d["TauSymFactor"] = Ts;
        d["TauFlag"] = Tf;
        d["RSize"] = (uint)rsize;
        d["TauSize"] = (uint)tsize;
        G->WeightFromDict(d);
        G->ClearStatistics();
        size_t n;
        Complex* acc = view(G->StatisToDict(), n);
        V::in_code() = false;
        if (n != w.tWW.size())
            V::viol(P, "size", V::fmt("the bosonic table has %zu cells, expected %zu", n, w.tWW.size()));
        for (auto& a : S)
            for (auto& b : S)
                for (auto& x : S)
                    for (double ta : T)
                        for (double tb : T)
                            for (double tx : T)
                                for (int s = 0; s < 16; s++) {
                                    spin sa[2] = { (spin)(s >> 3 & 1), (spin)(s >> 2 & 1) }, sb[2] = { (spin)(s >> 1 & 1), (spin)(s & 1) };
                                    int xa[2] = { sa[0], sa[1] }, xb[2] = { sb[0], sb[1] };
                                    int sc = World::spinClass(xb, xa);
                                    if (sc < 0)
                                        continue;
                                    V::beat()++;
                                    snprintf(V::crash_ctx(), 4096, "bosonic %s", args(a, b, x, ta, tb, tx).c_str());
                                    cd r = w.oWW(a, b, x, ta, tb, tx, xa, xb);
                                    int ri, ti;
                                    w.wwIndex(a, b, x, ta, tb, tx, ri, ti);
                                    size_t at = (size_t)Rq[ri] * tsize + Tq[ti] + (sc >= 4 ? (size_t)rsize * tsize : 0);
                                    cd v = cmark / (double)(Rs[ri] * Ts[ti]);
                                    if (Tf[ti])
                                        v = -std::conj(v);
                                    if (sc == 2 || sc == 3)
                                        v = -v;
                                    if (sc == 4)
                                        v = v / 2.0;
                                    if (sc == 5)
                                        v = -std::conj(v) / 2.0;
                                    V::in_code() = true;
                                    Complex q = G->Weight(a, b, x, ta, tb, tx, sa, sb, UP);
                                    G->Measure(a, b, x, ta, tb, tx, sa, sb, UP, mark);
                                    V::in_code() = false;
                                    runs += 2;
                                    states++;
                                    if (!same(q, r))
                                        V::viol(P, "read-bosonic", args(a, b, x, ta, tb, tx) + V::fmt(" spins %d%d|%d%d maps %d reads (%g,%g), expected (%g,%g)", sa[0], sa[1], sb[0], sb[1], fam, q.Re, q.Im, r.real(), r.imag()));
                                    if (!same(acc[at], v)) {
                                        V::viol(P, "write-bosonic", args(a, b, x, ta, tb, tx) + V::fmt(" spins %d%d|%d%d maps %d: cell %zu received (%g,%g), expected (%g,%g)", sa[0], sa[1], sb[0], sb[1], fam, at, acc[at].Re, acc[at].Im, v.real(), v.imag()));
                                        for (size_t j = 0; j < n; j++)
                                            acc[j] = Complex(0, 0);
                                    }
                                    acc[at] = Complex(0, 0);
                                    if (states % 64 == 0)
                                        for (size_t j = 0; j < n; j++)
                                            if (acc[j].Re != 0 || acc[j].Im != 0) {
                                                V::viol(P, "write-elsewhere", V::fmt("accumulating into the bosonic table also changed cell %zu", j));
                                                acc[j] = Complex(0, 0);
                                            }
                                }
        for (size_t j = 0; j < n; j++)
            if (acc[j].Re != 0 || acc[j].Im != 0)
                V::viol(P, "write-elsewhere", V::fmt("accumulating into the bosonic table also changed cell %zu", j));
        delete G;
        V::sample(V::fmt("lattice %dx%d, %d bins, symmetry maps %d: %d+%d cells, every argument", w.L0, w.L1, w.TinyBins, fam, rsize * tsize, rsize * tsize));
    }
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
