// C08: every argument combination of the table index maps on small lattices, and every pair of times taken
// from the bin edges, their nearest neighbours and the bin interiors, for a family of temperatures and bin counts.
#include "vcommon.h"
#include "module/weight/index_map.h"
#include "lattice/lattice.h"
#include <set>
Verif::WordSource* Verif::Source = nullptr;
using namespace weight;
static const char* P = "C08";
static uint64_t runs = 0, states = 0, grids = 0;

// the bins an exact half-open equal-width binning may assign to dt (two only if rounding may matter)
static void allowed(double dt, double Beta, int Bins, int& b0, int& b1)
{
    long double x = dt;
    if (dt < 0)
        x += (long double)Beta;
    x = x * Bins / Beta;
    long double f = floorl(x);
    b0 = b1 = (int)f;
    long double eps = 1e-12L * (1 + x);
    long double near = roundl(x);
    if (fabsl(x - near) < eps && x != near) // not exactly on the edge, but too close to tell in double precision
        b0 = (int)near - 1, b1 = (int)near;
    else if (x == near) {
        // exactly on the edge: one answer if the width is representable, else rounding may go either way
        double w = Beta / Bins;
        if ((long double)w * Bins != (long double)Beta || (long double)(1.0 / w) * w != 1.0L)
            b0 = (int)near - 1;
    }
    if (b0 < 0)
        b0 = dt < 0 ? 0 : 0;
    if (b1 >= Bins)
        b1 = Bins - 1;
    if (b0 >= Bins)
        b0 = Bins - 1;
}
static void times(double Beta, int Bins)
{
    Lattice lat(Vec<int>(1), 1);
    std::set<double> S;
    auto put = [&](double t) { if (t >= 0 && t < Beta) S.insert(t); };
    for (int k = 0; k <= Bins; k++) {
        double u = floor((double)k / Bins * 4294967296.0) / 4294967296.0;
        for (int j = -2; j <= 2; j++)
            put((u + j / 4294967296.0) * Beta);
        double e = k * (Beta / Bins);
        put(e), put(nextafter(e, 1e9)), put(nextafter(e, -1e9));
        put((k + 0.5) * (Beta / Bins)), put((k + 0.25) * (Beta / Bins)), put((k + 0.9375) * (Beta / Bins));
    }
    put(5e-324), put(1e-300), put(nextafter(Beta, 0));
    V::in_code() = true;
    IndexMapSPIN2 A(Beta, Bins, lat, TauAntiSymmetric), B(Beta, Bins, lat, TauSymmetric);
    IndexMapSPIN4 C(Beta, Bins, lat, TauSymmetric), Dm(Beta, Bins, lat, TauAntiSymmetric);
    V::in_code() = false;
    IndexMap* M[4] = { &A, &B, &C, &Dm };
    std::vector<double> T(S.begin(), S.end());
    if (T.size() > 260) { // keep the pair count bounded on the largest grids
        std::vector<double> R;
        for (size_t i = 0; i < T.size(); i++)
            if (i < 90 || i + 90 >= T.size() || i % (T.size() / 80) == 0)
                R.push_back(T[i]);
        T = R;
    }
    for (int m = 0; m < 4; m++)
        for (int k = 0; k < Bins; k++) {
            V::in_code() = true;
            double mid = M[m]->IndexToTau(k);
            int back = M[m]->TauIndex(mid), back2 = M[m]->TauIndex(0.0, mid), neg = M[m]->TauIndex(mid - Beta);
            V::in_code() = false;
            runs += 4;
            if (fabs(mid - (k + 0.5) * Beta / Bins) > 1e-9 * Beta)
                V::viol(P, "midpoint", V::fmt("beta=%.17g, %d bins: bin %d has its time at %.17g", Beta, Bins, k, mid));
            if (back != k || back2 != k || neg != k)
                V::viol(P, "inverse", V::fmt("beta=%.17g, %d bins: the middle of bin %d is assigned to bin %d, shifted by -beta to %d", Beta, Bins, k, back, neg));
        }
    for (double a : T)
        for (double b : T) {
            int b0, b1;
            allowed(b - a, Beta, Bins, b0, b1);
            V::beat()++;
            for (int m = 0; m < 4; m++) {
                V::in_code() = true;
                int k = M[m]->TauIndex(a, b), s = M[m]->GetTauSymmetryFactor(a, b);
                V::in_code() = false;
                runs += 2;
                if (k != b0 && k != b1)
                    V::viol(P, k < 0 || k >= Bins ? "range" : "bin", V::fmt("beta=%.17g, %d bins: times %.17g to %.17g are assigned to bin %d, expected %d", Beta, Bins, a, b, k, b1));
                int w = (m == 0 || m == 3) && !(b > a) ? -1 : 1;
                if (s != w)
                    V::viol(P, "sign", V::fmt("beta=%.17g: times %.17g to %.17g have sign %d, expected %d (%s)", Beta, a, b, s, w, m == 0 || m == 3 ? "antiperiodic" : "periodic"));
            }
        }
    states += T.size() * T.size();
    grids++;
    if (grids % 37 == 1)
        V::sample(V::fmt("beta=%g, %d bins: %d times, all pairs, periodic and antiperiodic", Beta, Bins, (int)T.size()));
}
static void grid(const Vec<int>& size, int sub, int Bins, double Beta)
{
    Lattice lat(size, sub);
    int vol = size[0] * size[1];
    V::in_code() = true;
    IndexMapSPIN2 A(Beta, Bins, lat, TauAntiSymmetric);
    IndexMapSPIN4 C(Beta, Bins, lat, TauSymmetric);
    V::in_code() = false;
    const uint *sa = A.GetShape(), *sc = C.GetShape();
    uint wa[6] = { 2, (uint)sub, 2, (uint)sub, (uint)vol, (uint)Bins }, wc[6] = { 4, (uint)sub, 4, (uint)sub, (uint)vol, (uint)Bins };
    for (int i = 0; i < 6; i++)
        if (sa[i] != wa[i] || sc[i] != wc[i])
            V::viol(P, "shape", V::fmt("axis %d of the table has length %u/%u", i, sa[i], sc[i]));
    auto site = [&](int c, int s) { Vec<int> v(0); v[0] = c / size[1]; v[1] = c % size[1]; return Site(s, v); };
    for (int q = 0; q < vol * vol * sub * sub; q++) {
        int ca = q / (sub * sub) / vol, cb = q / (sub * sub) % vol, ua = q % (sub * sub) / sub, ub = q % sub;
        Site ra = site(ca, ua), rb = site(cb, ub);
        int d0 = (cb / size[1] - ca / size[1] + size[0]) % size[0], d1 = (cb % size[1] - ca % size[1] + size[1]) % size[1];
        uint coord = d0 * size[1] + d1;
        V::beat()++;
        for (int t = 0; t < 2 * Bins; t++) {
            double ti, to; // time difference in bin t (forward) or its wrapped image
            int bin = t % Bins;
            if (t < Bins)
                ti = 0.0625 * Beta / Bins, to = ti + (bin + 0.5) * Beta / Bins;
            else
                to = 0.0625 * Beta / Bins, ti = to + Beta - (bin + 0.5) * Beta / Bins;
            for (int x = 0; x < 4; x++) {
                V::in_code() = true;
                uint k = A.GetIndex((spin)(x / 2), (spin)(x % 2), ra, rb, ti, to), kd = A.GetIndex((spin)(x / 2), (spin)(x % 2), ra, rb);
                V::in_code() = false;
                runs += 2;
                uint w = (((x / 2) * sub + ua) * 2 + x % 2) * sub + ub;
                uint wd = w * vol + coord;
                w = wd * Bins + bin;
                if (k != w || kd != wd)
                    V::viol(P, "cell2", V::fmt("lattice %dx%d, %d sublattices, %d bins: spins %d%d, sublattices %d%d, sites %d,%d, times %g,%g give cell %u and %u, expected %u and %u",
                                               size[0], size[1], sub, Bins, x / 2, x % 2, ua, ub, ca, cb, ti, to, k, kd, w, wd));
            }
            for (int x = 0; x < 16; x++) {
                spin in[2], outs[2];
                in[IN] = (spin)(x >> 3 & 1), in[OUT] = (spin)(x >> 2 & 1), outs[IN] = (spin)(x >> 1 & 1), outs[OUT] = (spin)(x & 1);
                V::in_code() = true;
                uint k = C.GetIndex(in, outs, ra, rb, ti, to), kd = C.GetIndex(in, outs, ra, rb);
                V::in_code() = false;
                runs += 2;
                uint w = (((x >> 2) * sub + ua) * 4 + (x & 3)) * sub + ub;
                uint wd = w * vol + coord;
                w = wd * Bins + bin;
                if (k != w || kd != wd)
                    V::viol(P, "cell4", V::fmt("lattice %dx%d, %d sublattices, %d bins: spins %d, sublattices %d%d, sites %d,%d, times %g,%g give cell %u and %u, expected %u and %u",
                                               size[0], size[1], sub, Bins, x, ua, ub, ca, cb, ti, to, k, kd, w, wd));
            }
        }
        states += 2 * Bins * 20;
    }
    grids++;
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    int deep = V::argi("deep", 0);
    std::vector<double> betas = { 0.5, 1.0, 2.0, 0.7, 3.3, 10.0, 0.0625, 1.0 / 3 };
    std::vector<int> bins = { 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 64, 100, 128 };
    if (deep) {
        for (int i = 1; i <= 40; i++)
            betas.push_back(0.1 * i);
        for (int i = 1; i <= 130; i++)
            bins.push_back(i);
    }
    for (double b : betas)
        for (int n : bins)
            times(b, n);
    int L = deep ? 6 : 4;
    for (int a = 1; a <= L; a++)
        for (int b = 1; b <= L; b++)
            for (int s = 1; s <= 2 + (a * b <= 4); s++)
                for (int n : { 1, 2, 3, 5 }) {
                    Vec<int> v(0);
                    v[0] = a, v[1] = b;
                    grid(v, s, n, n == 3 ? 0.7 : 2.0);
                }
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
