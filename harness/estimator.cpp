// C13: every history of measure / add statistics / squeeze / clear / save / restore up to a depth on the real
// estimators and estimator sets, compared with a reference after every step.
#include "vcommon.h"
#include "estimator/estimator.h"
#include "pycopy.h"
#include <complex>
Verif::WordSource* Verif::Source = nullptr;
typedef std::complex<double> cd;
static const char* P = "C13";
static uint64_t runs = 0, states = 0;
static const bool smallSize = SIZE < 100;

static cd val(const Complex& c) { return cd(c.Re, c.Im); }
static cd val(double c) { return cd(c, 0); }
template <typename T> T mk(double a, double b);
template <> double mk<double>(double a, double) { return a; }
template <> Complex mk<Complex>(double a, double b) { return Complex(a, b); }
static bool eq(cd a, cd b) { return std::abs(a - b) <= 1e-11 * (1 + std::abs(b)); }
static std::string show(cd c) { return V::fmt("(%.12g,%.12g)", c.real(), c.imag()); }

struct Model {
    cd accu = 0;
    double norm = 1;
    std::vector<cd> hist;
    long calls = 0; // AddStatistics calls since the history was last cleared or restored
    bool exactHist = true;
    cd error() const
    {
        size_t n = hist.size();
        if (!n)
            return 0;
        double a = 1e300, b = -1e300, c = 1e300, d = -1e300;
        for (size_t i = n / 3; i < n; i++) {
            a = std::min(a, hist[i].real()), b = std::max(b, hist[i].real());
            c = std::min(c, hist[i].imag()), d = std::max(d, hist[i].imag());
        }
        return cd((b - a) / 2, (d - c) / 2);
    }
};
template <typename T>
static std::vector<cd> history(Dictionary d)
{
    auto a = d.Get<Python::ArrayObject>("History");
    std::vector<cd> r;
    T* p = a.template Data<T>();
    for (uint i = 0; i < a.Shape()[0]; i++)
        r.push_back(val(p[i]));
    return r;
}
template <typename T>
static void check(Estimator<T>& live, const Model& m, const std::string& path, bool deep)
{
    static Estimator<T>* copy = new Estimator<T>();
    auto bad = [&](const char* tag, const std::string& t) { V::viol(P, tag, "after [" + path + "]: " + t); };
    states++;
    runs += 4;
    V::beat()++;
    V::in_code() = true;
    *copy = live;
    Dictionary d = copy->ToDict();
    double nm = copy->Norm();
    cd v = val(copy->Value());
    V::in_code() = false;
    cd mean = m.accu / m.norm;
    if (!eq(nm, m.norm))
        bad("norm", V::fmt("the norm is %.12g, expected %.12g", nm, m.norm));
    if (!eq(v, m.accu))
        bad("sum", "the sum is " + show(v) + ", expected " + show(m.accu));
    Dictionary est = d.Get<Dictionary>("Estimation");
    cd sm = val(est.Get<T>("Mean"));
    if (!eq(sm, mean))
        bad("saved-mean", "the saved estimate is " + show(sm) + ", expected " + show(mean));
    if (!eq(d.Get<double>("Norm"), m.norm) || !eq(val(d.Get<T>("Accu")), m.accu))
        bad("saved", "the saved norm or sum is wrong");
    std::vector<cd> h = history<T>(d);
    cd err;
    if (m.exactHist) {
        bool same = h.size() == m.hist.size();
        for (size_t i = 0; same && i < h.size(); i++)
            same = eq(h[i], m.hist[i]);
        if (!same)
            bad("history", V::fmt("the recorded running means differ (%d recorded, %d expected)", (int)h.size(), (int)m.hist.size()));
        err = m.error();
    } else {
        if (h.size() > SIZE)
            bad("history", "the history exceeds its capacity");
        Model z;
        z.hist = h;
        err = z.error();
    }
    V::in_code() = true;
    EstimateClass<T> e = copy->Estimate();
    V::in_code() = false;
    if (!eq(val(e.Mean), mean))
        bad("mean", "the reported mean is " + show(val(e.Mean)) + ", expected " + show(mean));
    if (!eq(val(e.Error), err))
        bad("error", "the reported error is " + show(val(e.Error)) + ", expected " + show(err));
    if (!deep)
        return;
    // saved and restored into a fresh and into a used estimator
    static Estimator<T>* fresh[2] = { new Estimator<T>("x"), new Estimator<T>("y") };
    for (int i = 0; i < 2; i++) {
        V::in_code() = true;
        Dictionary c = d;
        if (i == 1) {
            fresh[1]->Measure(mk<T>(17, 4));
            fresh[1]->AddStatistics();
            fresh[1]->AddStatistics();
        } else
            fresh[0]->ClearStatistics();
        fresh[i]->FromDict(c);
        EstimateClass<T> f = fresh[i]->Estimate();
        V::in_code() = false;
        runs += 3;
        if (!eq(val(f.Mean), mean) || !eq(val(f.Error), err) || !eq(fresh[i]->Norm(), m.norm) || !eq(val(fresh[i]->Value()), m.accu))
            bad("restore", "restored: mean " + show(val(f.Mean)) + " error " + show(val(f.Error)) + V::fmt(" norm %.12g", fresh[i]->Norm()) + "; saved: mean " + show(mean) + " error " + show(err) + V::fmt(" norm %.12g", m.norm));
        V::in_code() = true;
        fresh[i]->Measure(mk<T>(3, -2));
        f = fresh[i]->Estimate();
        V::in_code() = false;
        cd want = (m.accu + val(mk<T>(3, -2))) / (m.norm + 1);
        if (!eq(val(f.Mean), want))
            bad("continue", "one more measurement after restoring gives the mean " + show(val(f.Mean)) + ", expected " + show(want));
    }
}
static const char* OPS[] = { "measure a", "measure b", "measure 0", "add statistics", "squeeze 3", "squeeze 0.7", "clear", "estimate", "save", "restore" };
template <typename T>
struct Walk {
    int depth;
    std::vector<Estimator<T>*> pool;
    void go(int lvl, const Model& m, const Model* saved, const Dictionary* sd, std::string path)
    {
        if (lvl == depth)
            return;
        for (int op = 0; op < 10; op++) {
            if (op == 9 && !saved)
                continue;
            Estimator<T>& e = *pool[lvl + 1];
            V::in_code() = true;
            e = *pool[lvl];
            Model n = m;
            Model ns;
            Dictionary nd;
            std::string p = path + (path.empty() ? "" : ", ") + OPS[op];
            snprintf(V::crash_ctx(), 4096, "[%s]", p.c_str());
            T x = op == 0 ? mk<T>(1.1 + lvl, -0.3) : op == 1 ? mk<T>(-4.3, 2.0 / 3 + 0.1 * lvl) : mk<T>(0, 0);
            switch (op) {
            case 0:
            case 1:
            case 2:
                e.Measure(x);
                n.accu += val(x), n.norm += 1;
                break;
            case 3:
                e.AddStatistics();
                n.calls++;
                if (n.exactHist && n.hist.size() < SIZE)
                    n.hist.push_back(n.accu / n.norm);
                else
                    n.exactHist = false;
                break;
            case 4:
                e.SqueezeStatistics(3);
                n.accu /= 3, n.norm /= 3;
                break;
            case 5:
                e.SqueezeStatistics(0.7);
                n.accu /= 0.7, n.norm /= 0.7;
                break;
            case 6:
                e.ClearStatistics();
                n = Model();
                break;
            case 7:
                e.Estimate();
                break;
            case 8:
                nd = deep_copy(e.ToDict());
                ns = n;
                break;
            case 9:
                e.FromDict(*sd);
                n = *saved;
                break;
            }
            V::in_code() = false;
            runs++;
            check(e, n, p, true);
            if (op == 8)
                go(lvl + 1, n, &ns, &nd, p);
            else
                go(lvl + 1, n, saved, sd, p);
        }
    }
    void run(int d)
    {
        depth = d;
        for (int i = 0; i <= d; i++)
            pool.push_back(new Estimator<T>("e"));
        Model m;
        check(*pool[0], m, "", true);
        go(0, m, nullptr, nullptr, "");
    }
};
template <typename T>
static void longRun(int n)
{
    // one estimator filled far beyond its capacity, inspected after every call
    Estimator<T>* e = new Estimator<T>("long");
    Model m;
    std::vector<cd> snaps;
    int step = n > 1000 ? 997 : 1;
    for (int i = 0; i < n; i++) {
        T x = mk<T>(i * 1.25 + (i % 3), 7 - 0.5 * i);
        V::in_code() = true;
        e->Measure(x);
        e->AddStatistics();
        V::in_code() = false;
        runs += 2;
        V::beat()++;
        m.accu += val(x), m.norm += 1;
        snaps.push_back(m.accu / m.norm);
        m.exactHist = snaps.size() <= SIZE;
        if (m.exactHist)
            m.hist = snaps;
        if (i % step && i != n - 1 && i != SIZE && i != SIZE - 1 && i != SIZE + 1)
            continue;
        std::string path = V::fmt("measure, add statistics x %d", i + 1);
        check(*e, m, path, true);
        auto bad = [&](const std::string& t) { V::viol(P, "thinning", "after [" + path + "]: " + t); };
        std::vector<cd> h = history<T>(e->ToDict());
        size_t at = 0, gap = 2 * ((snaps.size() + SIZE / 2 - 1) / (SIZE / 2)) + 1, prev = 0;
        bool ok = !h.empty();
        for (auto& v : h) {
            while (at < snaps.size() && !eq(snaps[at], v))
                at++;
            if (at == snaps.size() || at - prev > gap) {
                ok = false;
                break;
            }
            prev = at++;
        }
        if (!ok || snaps.size() - prev > gap)
            bad("the thinned history is not an evenly spread selection of the running means");
    }
    delete e;
}
template <typename T>
static void manyMeasurements(long n)
{
    // as many measurements as a day brings, looked at around the powers of two and of ten
    Estimator<T>* e = new Estimator<T>("many");
    Model m;
    long two = 1024, ten = 1000;
    T x = mk<T>(0.1, -0.7), y = mk<T>(1.0 / 3, 0.2);
    cd vx = val(x), vy = val(y);
    V::in_code() = true;
    for (long i = 1; i <= n; i++) {
        e->Measure(i & 1 ? x : y);
        m.accu += i & 1 ? vx : vy, m.norm += 1;
        V::beat()++;
        if (i == two + 2)
            two *= 2;
        if (i == ten + 2)
            ten *= 10;
        if (std::labs(i - two) > 1 && std::labs(i - ten) > 1 && i != n)
            continue;
        V::in_code() = false;
        check(*e, m, V::fmt("measure x %ld", i), true);
        V::in_code() = true;
    }
    V::in_code() = false;
    runs += n;
    delete e;
}
template <typename T>
struct BundleWalk {
    static const int N = 3;
    struct St {
        std::vector<std::string> names;
        std::vector<Model> m;
    };
    int depth;
    std::vector<EstimatorBundle<T>*> pool;
    void check1(EstimatorBundle<T>& b, const St& s, const std::string& path)
    {
        auto bad = [&](const char* tag, const std::string& t) { V::viol(P, tag, "estimator set after [" + path + "]: " + t); };
        states++;
        V::beat()++;
        if (b.HowMany() != (int)s.names.size()) {
            bad("set-size", V::fmt("%d estimators, expected %d", b.HowMany(), (int)s.names.size()));
            return;
        }
        for (size_t i = 0; i < s.names.size(); i++) {
            V::in_code() = true;
            Estimator<T>*p = &b[(int)i], *q = &b[s.names[i]];
            V::in_code() = false;
            runs += 2;
            if (p != q)
                bad("lookup", "name " + s.names[i] + " does not find its estimator");
            else if (p->Name != s.names[i])
                bad("lookup", "position " + std::to_string(i) + " holds " + p->Name);
            else
                check(*p, s.m[i], path + " / " + s.names[i], false);
        }
        for (std::string z : { "a", "b", "c", "nobody" }) {
            if (std::find(s.names.begin(), s.names.end(), z) != s.names.end())
                continue;
            EstimatorBundle<T> t = b;
            bool thrown = false;
            V::in_code() = true;
            try {
                t[z];
            }
            catch (const std::exception&) {
                thrown = true;
            }
            V::in_code() = false;
            runs++;
            if (!thrown)
                bad("unknown-name", "looking up the unregistered name " + z + " returned another estimator");
        }
        // round trip of the whole set, also into a set with one more member
        V::in_code() = true;
        EstimatorBundle<T> t, u;
        Dictionary d = b.ToDict();
        for (auto& nme : s.names)
            t.AddEstimator(nme);
        u.AddEstimator("extra");
        for (size_t i = s.names.size(); i-- > 0;)
            u.AddEstimator(s.names[i]);
        t.FromDict(d);
        u.FromDict(d, true);
        V::in_code() = false;
        for (size_t i = 0; i < s.names.size(); i++) {
            check(t[s.names[i]], s.m[i], path + " / restored " + s.names[i], false);
            check(u[s.names[i]], s.m[i], path + " / restored out of order " + s.names[i], false);
        }
        check(u["extra"], Model(), path + " / not in the file", false);
        runs += 4;
    }
    void go(int lvl, const St& s, std::string path)
    {
        if (lvl == depth)
            return;
        static const char* nm[3] = { "a", "b", "c" };
        for (int op = 0; op < 13; op++) {
            EstimatorBundle<T>& b = *pool[lvl + 1];
            b = *pool[lvl];
            St n = s;
            std::string what;
            bool expectThrow = false, thrown = false;
            V::in_code() = true;
            try {
                if (op < 3) {
                    what = std::string("register ") + nm[op];
                    expectThrow = std::find(s.names.begin(), s.names.end(), nm[op]) != s.names.end();
                    if (op == 2) {
                        Estimator<T> e("c");
                        e.Measure(mk<T>(2.5, 1));
                        b.AddEstimator(e);
                    } else
                        b.AddEstimator(nm[op]);
                    n.names.push_back(nm[op]);
                    n.m.push_back(Model());
                    if (op == 2)
                        n.m.back().accu += val(mk<T>(2.5, 1)), n.m.back().norm += 1;
                } else if (op < 6) {
                    what = std::string("measure by name ") + nm[op - 3];
                    auto it = std::find(s.names.begin(), s.names.end(), nm[op - 3]);
                    if (it == s.names.end()) {
                        V::in_code() = false;
                        continue;
                    }
                    int i = it - s.names.begin();
                    b[std::string(nm[op - 3])].Measure(mk<T>(1.25 + lvl, op));
                    n.m[i].accu += val(mk<T>(1.25 + lvl, op)), n.m[i].norm += 1;
                } else if (op < 9) {
                    int i = op - 6;
                    what = V::fmt("measure at %d", i);
                    if (i >= (int)s.names.size()) {
                        V::in_code() = false;
                        continue;
                    }
                    b[i].Measure(mk<T>(-3.5, lvl));
                    n.m[i].accu += val(mk<T>(-3.5, lvl)), n.m[i].norm += 1;
                } else if (op == 9) {
                    what = "add statistics";
                    b.AddStatistics();
                    for (auto& x : n.m)
                        x.hist.push_back(x.accu / x.norm), x.calls++;
                } else if (op == 10) {
                    what = "squeeze 4";
                    b.SqueezeStatistics(4);
                    for (auto& x : n.m)
                        x.accu /= 4, x.norm /= 4;
                } else if (op == 11) {
                    what = "clear";
                    b.ClearStatistics();
                    for (auto& x : n.m)
                        x = Model();
                } else {
                    what = "save and restore";
                    Dictionary d = deep_copy(b.ToDict());
                    for (int i = 0; i < (int)s.names.size(); i++)
                        b[i].Measure(mk<T>(9, 9));
                    b.FromDict(d);
                }
            }
            catch (const std::exception&) {
                thrown = true;
            }
            V::in_code() = false;
            runs++;
            std::string p = path + (path.empty() ? "" : ", ") + what;
            snprintf(V::crash_ctx(), 4096, "[%s]", p.c_str());
            if (thrown != expectThrow) {
                V::viol(P, expectThrow ? "duplicate" : "refused", "estimator set: [" + p + "] was " + (thrown ? "refused" : "accepted"));
                continue;
            }
            if (expectThrow)
                n = s;
            check1(b, n, p);
            if (!expectThrow)
                go(lvl + 1, n, p);
        }
    }
    void run(int d)
    {
        depth = d;
        for (int i = 0; i <= d; i++)
            pool.push_back(new EstimatorBundle<T>());
        St s;
        check1(*pool[0], s, "");
        go(0, s, "");
    }
};
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P, 60);
    std::string part = V::arg("part", "single");
    int depth = V::argi("depth", 4);
    bool cplx = V::argi("complex", 1);
    if (part == "single") {
        if (cplx)
            Walk<Complex>().run(depth);
        else
            Walk<double>().run(depth);
    } else if (part == "long") {
        longRun<Complex>(V::argi("n", 200));
        longRun<double>(V::argi("n", 200));
    } else if (part == "many") {
        manyMeasurements<Complex>(V::argi("n", 20000000));
        manyMeasurements<double>(V::argi("n", 20000000));
    } else if (part == "set") {
        if (cplx)
            BundleWalk<Complex>().run(depth);
        else
            BundleWalk<double>().run(depth);
    }
    V::sample(V::fmt("%s, %s values, depth %d, history capacity %d: every operation sequence", part.c_str(), cplx ? "complex" : "real", depth, SIZE));
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
