// C07: every lattice up to a size, every vector, every pair of sites, every translation.
#include "vcommon.h"
#include <algorithm>
#include <functional>
#include <sstream>
#include "lattice/lattice.h"
Verif::WordSource* Verif::Source = nullptr;
static const char* P = "C07";
static uint64_t runs = 0, trans = 0;
static std::string str(const Vec<int>& v)
{
    std::string s = "(";
    for (int i = 0; i < D; i++)
        s += V::fmt(i ? ",%d" : "%d", v[i]);
    return s + ")";
}
static bool nextVec(Vec<int>& v, const Vec<int>& lo, const Vec<int>& hi) // inclusive lo, exclusive hi
{
    for (int i = D - 1; i >= 0; i--) {
        if (++v[i] < hi[i])
            return true;
        v[i] = lo[i];
    }
    return false;
}
template <typename T>
static std::string show(const T* v)
{
    std::string s = "(";
    for (int i = 0; i < D; i++)
        s += V::fmt(i ? ",%g" : "%g", (double)v[i]);
    return s + ")";
}
// arithmetic, comparison and text form of every pair of small vectors
template <typename T>
static void vectors(const std::vector<T>& val, const std::vector<T>& factors)
{
    std::vector<std::vector<T> > all{ {} };
    for (int i = 0; i < D; i++) {
        std::vector<std::vector<T> > next;
        for (auto& a : all)
            for (T x : val) {
                next.push_back(a);
                next.back().push_back(x);
            }
        all = next;
    }
    auto same = [&](const char* what, const Vec<T>& got, const std::function<T(int)>& want, const std::vector<T>& a, const std::vector<T>& b) {
        for (int i = 0; i < D; i++)
            if (got[i] != want(i)) {
                V::viol(P, "vector", V::fmt("%s of %s and %s gives component %d as %g", what, show(a.data()).c_str(), show(b.data()).c_str(), i, (double)got[i]));
                return;
            }
    };
    for (auto& a : all) {
        Vec<T> x;
        for (int i = 0; i < D; i++)
            x[i] = a[i];
        V::in_code() = true;
        same("the copy from an array", Vec<T>(const_cast<T*>(a.data())), [&](int i) { return a[i]; }, a, a);
        T back[D];
        x.CopyToArray(back);
        if (!std::equal(a.begin(), a.end(), back) || !std::equal(a.begin(), a.end(), x.begin()) || x.end() - x.begin() != D || x.size() != D)
            V::viol(P, "vector", show(a.data()) + " is copied to an array as " + show(back));
        for (T f : factors) {
            same("the multiple", x * f, [&](int i) { return T(a[i] * f); }, a, std::vector<T>(D, f));
            if (f == (int)f)
                same("the multiple", x * (int)f, [&](int i) { return T(a[i] * f); }, a, std::vector<T>(D, f));
            runs++;
        }
        same("the constant", Vec<T>(a[0]), [&](int) { return a[0]; }, a, a);
        std::stringstream text;
        text << x << ' ' << x;
        Vec<T> r(T(77)), r2(T(77));
        if (!(text >> r >> r2))
            V::viol(P, "vector", show(a.data()) + " is written as " + text.str() + ", which can not be read");
        else
            same("the text", r, [&](int i) { return a[i]; }, a, a), same("the text", r2, [&](int i) { return a[i]; }, a, a);
        if (ToString(x) + ' ' + ToString(x) != text.str() || x.PrettyString() != '(' + ToString(x) + ')')
            V::viol(P, "vector", show(a.data()) + " has the texts " + text.str() + " and " + x.PrettyString());
        std::string bad = ToString(x);
        size_t k = bad.find(',');
        if (k != std::string::npos) {
            bad[k] = ';';
            std::stringstream wrong(bad);
            if (wrong >> r)
                V::viol(P, "vector", bad + " is read as a vector");
        }
        for (auto& b : all) {
            Vec<T> y(const_cast<T*>(b.data()));
            V::beat()++;
            runs++;
            same("the sum", x + y, [&](int i) { return a[i] + b[i]; }, a, b);
            same("the difference", x - y, [&](int i) { return a[i] - b[i]; }, a, b);
            Vec<T> z = x;
            same("the result of +=", z += y, [&](int i) { return a[i] + b[i]; }, a, b);
            same("+=", z, [&](int i) { return a[i] + b[i]; }, a, b);
            z = x;
            same("the result of -=", z -= y, [&](int i) { return a[i] - b[i]; }, a, b);
            same("-=", z, [&](int i) { return a[i] - b[i]; }, a, b);
            same("an operand afterwards", x, [&](int i) { return a[i]; }, a, b);
            if ((x == y) != (a == b) || (x != y) != (a != b))
                V::viol(P, "vector", "the comparison of " + show(a.data()) + " and " + show(b.data()) + " is wrong");
        }
        V::in_code() = false;
    }
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    vectors<int>(D == 2 ? std::vector<int>{ -7, -2, -1, 0, 1, 3, 1000003 } : std::vector<int>{ -2, 0, 1, 1000003 }, { -3, -1, 0, 1, 2, 1000 });
    vectors<real>(D == 2 ? std::vector<real>{ -2.5, -1, 0, 0.5, 3, 1024 } : std::vector<real>{ -2.5, 0, 0.5 }, { -1.5, -1, 0, 0.25, 2 });
    int L = V::argi("L", D == 2 ? 7 : 3), SUB = V::argi("sub", 3);
    Vec<int> one(1), zero(0), top(L + 1), size(1);
    uint64_t lattices = 0;
    // every lattice up to LxL, then long and large ones (all indices, the displacements from a few sites)
    std::vector<Vec<int> > sizes, large;
    do
        sizes.push_back(size);
    while (nextVec(size, one, top));
    std::vector<std::vector<int> > shapes = D == 2 ? std::vector<std::vector<int> >{ { 1, 300 }, { 300, 1 }, { 2, 129 }, { 65, 3 }, { 17, 33 }, { 64, 64 }, { 300, 257 } } : std::vector<std::vector<int> >{ { 1, 1, 300 }, { 1, 300, 1 }, { 300, 1, 1 }, { 17, 33, 5 }, { 5, 17, 33 }, { 40, 40, 45 } };
    for (auto& x : shapes)
        large.push_back(Vec<int>(x.data()));
    size_t small = sizes.size();
    sizes.insert(sizes.end(), large.begin(), large.end());
    for (size_t is = 0; is < sizes.size(); is++) {
        size = sizes[is];
        int vol = 1;
        for (int i = 0; i < D; i++)
            vol *= size[i];
        for (int sub = 1; sub <= (is < small ? SUB : 1); sub++) {
            lattices++;
            V::in_code() = true;
            Lattice lat(size, sub);
            Lattice lat2;
            lat2.Initialize(size, sub);
            V::in_code() = false;
            if (lat.Vol != vol || lat2.Vol != vol || lat.SublatVol != sub || lat2.SublatVol != sub || lat.Dimension != D)
                V::viol(P, "volume", "lattice " + str(size) + V::fmt(": volume %d", lat.Vol));
            std::vector<int> hit(vol, 0);
            Vec<int> v(0);
            int want = 0;
            do { // row-major order
                V::beat()++;
                V::in_code() = true;
                int k = lat.Vec2Index(v), k2 = D == 2 ? lat.Vec2Index({ v[0], v[1] }) : lat.Vec2Index(v);
                V::in_code() = false;
                runs += 2;
                if (k != want || k2 != want)
                    V::viol(P, "index", "lattice " + str(size) + ": vector " + str(v) + V::fmt(" has index %d, expected %d", k, want));
                else {
                    hit[k]++;
                    V::in_code() = true;
                    Vec<int> b = lat.Index2Vec(k);
                    V::in_code() = false;
                    runs++;
                    for (int i = 0; i < D; i++)
                        if (b[i] != v[i]) {
                            V::viol(P, "inverse", "lattice " + str(size) + V::fmt(": index %d gives ", k) + str(b) + ", expected " + str(v));
                            break;
                        }
                }
                want++;
            } while (nextVec(v, zero, size));
            for (int k = 0; k < vol; k++)
                if (hit[k] != 1)
                    V::viol(P, "bijection", "lattice " + str(size) + V::fmt(": index %d used %d times", k, hit[k]));
            // folding of differences
            Vec<int> lo(0), hi(0);
            for (int i = 0; i < D; i++)
                lo[i] = -size[i] + 1, hi[i] = size[i];
            v = lo;
            do {
                Vec<int> w = v;
                lat.Shift(w);
                runs++;
                for (int i = 0; i < D; i++)
                    if (w[i] < 0 || w[i] >= size[i] || (w[i] - v[i]) % size[i])
                        V::viol(P, "fold", "lattice " + str(size) + ": " + str(v) + " folds to " + str(w));
            } while (nextVec(v, lo, hi));
            // displacement of every pair of sites
            Vec<int> a(0);
            uint64_t na = 0;
            do {
                na++;
                if (is >= small && na != 1 && na != (uint64_t)vol && na != (uint64_t)vol / 2 && na % 97 > (vol < 1000))
                    continue;
                if (is >= small && vol > 10000 && na != 1 && na != (uint64_t)vol && na != (uint64_t)vol / 2 + 1)
                    continue;
                Vec<int> b(0);
                do {
                    Vec<int> d(0);
                    int w = 0;
                    for (int i = 0; i < D; i++) {
                        d[i] = ((b[i] - a[i]) % size[i] + size[i]) % size[i];
                        w = w * size[i] + d[i];
                    }
                    V::beat()++;
                    for (int s = 0; s < sub * sub; s++) {
                        V::in_code() = true;
                        int k = lat.CoordiIndex(Site(s / sub, a), Site(s % sub, b));
                        V::in_code() = false;
                        runs++;
                        if (k != w)
                            V::viol(P, "displacement", "lattice " + str(size) + ": " + str(a) + " to " + str(b) + V::fmt(" has displacement index %d, expected %d", k, w));
                        if ((k == 0) != (str(a) == str(b)))
                            V::viol(P, "zero", "lattice " + str(size) + ": " + str(a) + " to " + str(b) + V::fmt(" has displacement index %d", k));
                        Site x(s / sub, a), y(s % sub, b);
                        bool eq = s / sub == s % sub && str(a) == str(b);
                        if ((x == y) != eq || (x != y) == eq)
                            V::viol(P, "equality", "comparison of sites is wrong");
                    }
                    if (vol <= V::argi("transvol", 25)) {
                        Vec<int> t(0);
                        do {
                            Vec<int> ta(0), tb(0);
                            for (int i = 0; i < D; i++)
                                ta[i] = (a[i] + t[i]) % size[i], tb[i] = (b[i] + t[i]) % size[i];
                            int k = lat.CoordiIndex(Site(0, ta), Site(0, tb));
                            runs++;
                            trans++;
                            if (k != w)
                                V::viol(P, "translation", "lattice " + str(size) + ": moving " + str(a) + "," + str(b) + " by " + str(t) + V::fmt(" changes the displacement index to %d", k));
                        } while (nextVec(t, zero, size));
                    }
                } while (nextVec(b, zero, size));
            } while (nextVec(a, zero, size));
            if (lattices % 29 == 1)
                V::sample(V::fmt("%d-dimensional lattice ", D) + str(size) + V::fmt(" with %d sublattices: all indices, inverses, displacements", sub));
        }
    }
    V::stati("states", lattices);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("translations", trans);
    V::stati("complete", 1);
    V::finish();
}
