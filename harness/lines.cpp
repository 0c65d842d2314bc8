// C09: the propagator and interaction weight functions on every combination of ends, spins, times and flags,
// both overloads, both directions.
#include "world.h"
Verif::WordSource* Verif::Source = nullptr;
using namespace weight;
static const char* P = "C09";
static uint64_t runs = 0, states = 0;
static World Wd;
static bool same(const Complex& a, cd b) { return std::abs(cd(a.Re, a.Im) - b) <= 1e-12 * (1 + std::abs(b)); }
static bool ident(const Complex& a, const Complex& b) { return a.Re == b.Re && a.Im == b.Im; }
static std::string ends(const Site& a, const Site& b, double ta, double tb)
{
    return V::fmt("(%d,%d|%d)@%.9g -> (%d,%d|%d)@%.9g", a.Coordinate[0], a.Coordinate[1], a.Sublattice, ta, b.Coordinate[0], b.Coordinate[1], b.Sublattice, tb);
}
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P);
    Wd.build();
    World& w = Wd;
    std::vector<Site> S;
    for (int c = 0; c < w.Vol; c++)
        for (int u = 0; u < w.Sub; u++)
            S.push_back(Site(u, Vec<int>({ c / w.L1, c % w.L1 })));
    std::vector<double> T;
    bool dyadic = V::argi("edges", 1);
    int n = std::max(w.Bins, w.TinyBins);
    for (int k = 0; k < n; k++) {
        if (dyadic)
            T.push_back(w.Beta * k / n);
        T.push_back(w.Beta * (k + 0.5 + 0.0625 * (k % 3)) / n);
    }
    T.push_back(w.Beta * (1 - 1.0 / 4294967296.0));
    std::vector<Site> X = S; // external vertex of a vertex-function line
    std::vector<double> TX = { T[0], T[T.size() / 2], T.back() };
    for (auto& a : S)
        for (auto& b : S)
            for (double ta : T)
                for (double tb : T) {
                    V::beat()++;
                    snprintf(V::crash_ctx(), 4096, "%s", ends(a, b, ta, tb).c_str());
                    for (int s = 0; s < 4; s++) {
                        spin si = (spin)(s >> 1), so = (spin)(s & 1);
                        cd ref = w.oG(a, b, ta, tb, si, so);
                        states++;
                        V::in_code() = true;
                        Complex p = w.Wt->G->Weight(a, b, ta, tb, si, so, false, false);
                        Complex pi = w.Wt->G->Weight(IN, a, b, ta, tb, si, so, false, false);
                        Complex po = w.Wt->G->Weight(OUT, b, a, tb, ta, so, si, false, false);
                        Complex m = w.Wt->G->Weight(a, b, ta, tb, si, so, true, false);
                        Complex mi = w.Wt->G->Weight(IN, a, b, ta, tb, si, so, true, false);
                        Complex mo = w.Wt->G->Weight(OUT, b, a, tb, ta, so, si, true, false);
                        V::in_code() = false;
                        runs += 6;
                        if (!same(p, ref))
                            V::viol(P, "G", "propagator " + ends(a, b, ta, tb) + V::fmt(" spins %d%d is (%g,%g), the table says (%g,%g)", si, so, p.Re, p.Im, ref.real(), ref.imag()));
                        if (!ident(pi, p) || !ident(po, p))
                            V::viol(P, "G-ends", "propagator " + ends(a, b, ta, tb) + V::fmt(" spins %d%d differs between its ends: (%g,%g), from the start (%g,%g), from the end (%g,%g)", si, so, p.Re, p.Im, pi.Re, pi.Im, po.Re, po.Im));
                        if (!same(m, 1) || !same(mi, 1) || !same(mo, 1))
                            V::viol(P, "G-measured", "measured propagator " + ends(a, b, ta, tb) + " does not have unit weight");
                        for (auto& x : X)
                            for (double tx : TX)
                                if (si == so) {
                                    ExtPoint e;
                                    e.R = x, e.Tau = tx, e.Spin = si;
                                    cd r = w.oGG(a, b, ta, tb, tx, si);
                                    r = w.oGG(a, x, ta, tb, tx, si);
                                    V::in_code() = true;
                                    Complex q = w.Wt->G->Weight(a, b, ta, tb, si, so, false, true, &e);
                                    Complex qi = w.Wt->G->Weight(IN, a, b, ta, tb, si, so, false, true, &e);
                                    Complex qo = w.Wt->G->Weight(OUT, b, a, tb, ta, so, si, false, true, &e);
                                    Complex qm = w.Wt->G->Weight(a, b, ta, tb, si, so, true, true, &e);
                                    V::in_code() = false;
                                    runs += 4;
                                    states++;
                                    if (!same(q, r))
                                        V::viol(P, "GG", "vertex-function propagator " + ends(a, b, ta, tb) + V::fmt(" external (%d,%d)@%g is (%g,%g), the table says (%g,%g)", x.Coordinate[0], x.Coordinate[1], tx, q.Re, q.Im, r.real(), r.imag()));
                                    if (!ident(qi, q) || !ident(qo, q))
                                        V::viol(P, "GG-ends", "vertex-function propagator " + ends(a, b, ta, tb) + " differs between its ends");
                                    if (!same(qm, 1))
                                        V::viol(P, "G-measured", "measured propagator " + ends(a, b, ta, tb) + " does not have unit weight");
                                }
                    }
                    for (int s = 0; s < 16; s++) {
                        spin sa[2], sb[2];
                        sa[IN] = (spin)(s >> 3 & 1), sa[OUT] = (spin)(s >> 2 & 1), sb[IN] = (spin)(s >> 1 & 1), sb[OUT] = (spin)(s & 1);
                        for (int fl = 0; fl < 8; fl++) { // worm, measured, instantaneous
                            bool worm = fl & 1, meas = fl & 2, delta = fl & 4;
                            if (meas && delta)
                                continue; // a measured line is never an instantaneous one
                            int ia[2] = { sa[0], sa[1] }, ib[2] = { sb[0], sb[1] };
                            if (worm)
                                ia[0] = ia[1] = ib[0] = ib[1] = 1;
                            int xa[2] = { ia[IN], ia[OUT] }, xb[2] = { ib[IN], ib[OUT] };
                            cd ref = meas ? cd(1, 0) : w.oW(a, b, ta, tb, xa, xb, delta);
                            states++;
                            spin k1[4] = { sa[0], sa[1], sb[0], sb[1] };
                            V::in_code() = true;
                            Complex p = w.Wt->W->Weight(a, b, ta, tb, sa, sb, worm, meas, delta, false);
                            Complex pi = w.Wt->W->Weight(IN, a, b, ta, tb, sa, sb, worm, meas, delta, false);
                            Complex po = w.Wt->W->Weight(OUT, b, a, tb, ta, sb, sa, worm, meas, delta, false);
                            V::in_code() = false;
                            runs += 3;
                            if (k1[0] != sa[0] || k1[1] != sa[1] || k1[2] != sb[0] || k1[3] != sb[1])
                                V::viol(P, "W-spins", "evaluating an interaction changed the spins passed to it");
                            const char* what = meas ? "measured" : delta ? "instantaneous" : worm ? "worm" : "ordinary";
                            if (!same(p, ref))
                                V::viol(P, std::string("W-") + what, std::string(what) + " interaction " + ends(a, b, ta, tb) + V::fmt(" spins %d%d%d%d worm=%d is (%g,%g), expected (%g,%g)", sa[0], sa[1], sb[0], sb[1], worm, p.Re, p.Im, ref.real(), ref.imag()));
                            if (!ident(pi, p) || !ident(po, p))
                                V::viol(P, std::string("W-ends-") + what, std::string(what) + " interaction " + ends(a, b, ta, tb) + V::fmt(" spins %d%d%d%d worm=%d differs between its ends: (%g,%g), from the start (%g,%g), from the end (%g,%g)", sa[0], sa[1], sb[0], sb[1], worm, p.Re, p.Im, pi.Re, pi.Im, po.Re, po.Im));
                        }
                        int xa[2] = { sa[0], sa[1] }, xb[2] = { sb[0], sb[1] };
                        for (int worm = 0; worm < 2; worm++) {
                            if (worm)
                                xa[0] = xa[1] = xb[0] = xb[1] = 1;
                            if (World::spinClass(xb, xa) < 0)
                                continue;
                            for (auto& x : X)
                                for (double tx : TX) {
                                    ExtPoint e;
                                    e.R = x, e.Tau = tx, e.Spin = UP;
                                    cd r = w.oWW(a, b, x, ta, tb, tx, xa, xb);
                                    V::in_code() = true;
                                    Complex q = w.Wt->W->Weight(a, b, ta, tb, sa, sb, worm, false, false, true, &e);
                                    Complex qi = w.Wt->W->Weight(IN, a, b, ta, tb, sa, sb, worm, false, false, true, &e);
                                    Complex qo = w.Wt->W->Weight(OUT, b, a, tb, ta, sb, sa, worm, false, false, true, &e);
                                    V::in_code() = false;
                                    runs += 3;
                                    states++;
                                    if (!same(q, r))
                                        V::viol(P, "WW", "vertex-function interaction " + ends(a, b, ta, tb) + V::fmt(" external (%d,%d)@%g worm=%d is (%g,%g), the table says (%g,%g)", x.Coordinate[0], x.Coordinate[1], tx, worm, q.Re, q.Im, r.real(), r.imag()));
                                    if (!ident(qi, q) || !ident(qo, q))
                                        V::viol(P, "WW-ends", "vertex-function interaction " + ends(a, b, ta, tb) + " differs between its ends");
                                }
                        }
                    }
                }
    V::sample(V::fmt("lattice %dx%d, %d sublattices, %d bins (%d for the bosonic vertex function), %d times: every pair of ends, every spin and flag", w.L0, w.L1, w.Sub, w.Bins, w.TinyBins, (int)T.size()));
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
