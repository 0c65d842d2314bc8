// C14: every sequence of operations on the real accumulators (self energy, polarization, vertex functions), compared
// with exact sums after every operation.
#include "world.h"
#include "vcommon.h"
#include "pycopy.h"
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
using namespace weight;
static const char* P = "C14";
static World W_;
static uint64_t seqs = 0, runs = 0, cells = 0;
struct Ref {
    std::vector<cd> acc;
    double norm, accu, beta;
    int order;
};
// one accumulator under test
struct Acc {
    virtual ~Acc() {}
    virtual const char* name() const = 0;
    virtual int arity() const = 0; // power of 1/Beta in the normalization
    virtual void fresh(int order, double beta) = 0;
    virtual void measure(int which, int order, Complex w) = 0;
    virtual void norm(double w) = 0;
    virtual void squeeze(double f) = 0;
    virtual void clear() = 0;
    virtual void anneal(double beta) = 0;
    virtual Dictionary save() = 0; // the innermost dictionary
    virtual void restore(const Dictionary& outer) = 0;
    virtual Dictionary outer() = 0;
    virtual bool orders() const { return true; }
    virtual void load(const Dictionary& d) { restore(d); }
};
struct SigmaAcc : Acc {
    std::unique_ptr<SigmaClass> p;
    std::unique_ptr<IndexMapSPIN2> m;
    const char* name() const override { return "self energy"; }
    int arity() const override { return 2; }
    void fresh(int order, double beta) override { p.reset(new SigmaClass(W_.Para.Lat, beta, W_.Bins, order)), p->BuildNew(); }
    void measure(int k, int order, Complex w) override
    {
        Site a(0, Vec<int>({ 0, 0 })), b(0, Vec<int>({ k % W_.L0, 0 }));
        double beta = cur;
        p->Measure(a, b, beta * 0.28125, beta * (k == 1 ? 0.03125 : 0.84375), (spin)(k == 2), (spin)(k == 2), order, w);
    }
    double cur = 0;
    void norm(double w) override { p->Estimator.MeasureNorm(w); }
    void squeeze(double f) override { p->Estimator.SqueezeStatistics(f); }
    void clear() override { p->Estimator.ClearStatistics(); }
    void anneal(double b) override { p->Reset(b); }
    Dictionary save() override { return p->Estimator.ToDict(); }
    Dictionary outer() override { return p->ToDict(); }
    void restore(const Dictionary& d) override { p->FromDict(d); }
};
struct PolarAcc : Acc {
    std::unique_ptr<PolarClass> p;
    double cur = 0;
    const char* name() const override { return "polarization"; }
    int arity() const override { return 2; }
    void fresh(int order, double beta) override { p.reset(new PolarClass(W_.Para.Lat, beta, W_.Bins, order)), p->BuildNew(); }
    void measure(int k, int order, Complex w) override
    {
        Site a(0, Vec<int>({ 0, 0 })), b(0, Vec<int>({ k % W_.L0, 0 }));
        spin sa[2] = { UP, (spin)(k == 2) }, sb[2] = { (spin)(k == 2), UP };
        p->Measure(a, b, cur * 0.28125, cur * (k == 1 ? 0.03125 : 0.84375), sa, sb, order, w);
    }
    void norm(double w) override { p->Estimator.MeasureNorm(w); }
    void squeeze(double f) override { p->Estimator.SqueezeStatistics(f); }
    void clear() override { p->Estimator.ClearStatistics(); }
    void anneal(double b) override { p->Reset(b); }
    Dictionary save() override { return p->Estimator.ToDict(); }
    Dictionary outer() override { return p->ToDict(); }
    void restore(const Dictionary& d) override { p->FromDict(d); }
};
struct GammaGAcc : Acc {
    std::unique_ptr<GammaGClass> p;
    double cur = 0;
    const char* name() const override { return "fermionic vertex function"; }
    int arity() const override { return 3; }
    bool orders() const override { return false; }
    void fresh(int, double beta) override { p.reset(new GammaGClass(W_.Para.Lat, beta, W_.Bins)); }
    void measure(int k, int, Complex w) override
    {
        Site a(0, Vec<int>({ 0, 0 })), b(0, Vec<int>({ k % W_.L0, 0 }));
        p->Measure(b, a, a, cur * 0.28125, cur * (k == 1 ? 0.03125 : 0.84375), cur * 0.15625, (spin)(k == 2), (spin)(k == 2), UP, w);
    }
    void norm(double w) override { p->MeasureNorm(w); }
    void squeeze(double f) override { p->SqueezeStatistics(f); }
    void clear() override { p->ClearStatistics(); }
    void anneal(double b) override { p->Reset(b); }
    Dictionary save() override { return p->StatisToDict(); }
    Dictionary outer() override { return p->StatisToDict(); }
    void restore(const Dictionary& d) override { p->StatisFromDict(d); }
};
struct GammaWAcc : Acc {
    std::unique_ptr<GammaWClass> p;
    double cur = 0;
    const char* name() const override { return "bosonic vertex function"; }
    int arity() const override { return 3; }
    bool orders() const override { return false; }
    void fresh(int, double beta) override
    {
        std::vector<basis> bb(1, basis(W_.TinyBins, 1.0));
        p.reset(new GammaWClass(W_.Para.Lat, beta, W_.TinyBins, bb));
        Dictionary d;
        static std::vector<Complex> t = W_.hold(W_.tWW);
        W_.put(d, "SmoothT", t, { 2u, (uint)W_.RSize, (uint)W_.TSize });
        d["RSqueeze"] = W_.RSq, d["RSymFactor"] = W_.RSym, d["TauSqueeze"] = W_.TSq, d["TauSymFactor"] = W_.TSym, d["TauFlag"] = W_.TFlag;
        d["RSize"] = (uint)W_.RSize, d["TauSize"] = (uint)W_.TSize;
        p->WeightFromDict(d);
        p->MeasureNorm(0); // nothing else prepares the statistics
        first = true;
    }
    bool first = false;
    void measure(int k, int, Complex w) override
    {
        Site a(0, Vec<int>({ 0, 0 })), b(0, Vec<int>({ k % W_.L0, 0 }));
        spin up[2] = { UP, UP }, dn[2] = { DOWN, DOWN }, ud[2] = { UP, DOWN }, du[2] = { DOWN, UP };
        p->Measure(b, a, a, cur * 0.28125, cur * (k == 1 ? 0.03125 : 0.84375), cur * 0.15625, k == 2 ? du : up, k == 2 ? ud : k == 1 ? dn : up, UP, w);
    }
    void norm(double w) override { p->MeasureNorm(w); }
    void squeeze(double f) override { p->SqueezeStatistics(f); }
    void clear() override { p->ClearStatistics(); }
    void anneal(double b) override { p->Reset(b); }
    Dictionary save() override { return p->StatisToDict(); }
    Dictionary outer() override { return p->StatisToDict(); }
    void restore(const Dictionary& d) override { p->StatisFromDict(d); }
};
static std::string opName(int o)
{
    static const char* n[] = { "measure(0, order 1)", "measure(1, order 1)", "measure(2, highest order)", "measure(0, highest order, other weight)", "norm(1.1)", "norm(0.3)", "squeeze(3)", "squeeze(0.3)", "clear", "beta doubled", "beta quartered", "saved and restored", "saved and restored into a larger maximum order", "saved, measured and normalised further, and restored" };
    return n[o];
}
static const int NOP = 14;
// which cell a measurement goes to and with what factors: learnt from one measurement on an empty table
struct Cal {
    size_t at;
    cd re, im;
};
template <class A> static void view(A& a, std::vector<cd>& acc, double& n, double& na)
{
    Dictionary d = a.save();
    auto arr = d.Get<Python::ArrayObject>("WeightAccu");
    const Complex* p = arr.template Data<Complex>();
    acc.resize(arr.Size());
    for (size_t i = 0; i < acc.size(); i++)
        acc[i] = cd(p[i].Re, p[i].Im);
    n = d.Get<double>("Norm"), na = d.Get<double>("NormAccu");
}
template <class A> static void explore(int depth, int order0)
{
    A a;
    const double beta0 = W_.Beta;
    int bins = std::string(a.name()).find("bosonic") == 0 ? W_.TinyBins : W_.Bins;
    auto normOf = [&](double beta) { return Norm::NormFactor * std::pow(bins / beta, a.arity() - 1.0) / beta / W_.Vol; };
    // learn where measurements go
    std::map<std::pair<int, int>, Cal> cal; // (which, order)
    std::vector<cd> acc;
    double n, na;
    for (int order = 1; order <= order0; order++)
        for (int k = 0; k < 3; k++) {
            Cal c{ 0, 0, 0 };
            for (int part = 0; part < 2; part++) {
                a.fresh(order0, beta0);
                a.cur = beta0;
                a.measure(k, order, part ? Complex(0, 1) : Complex(1, 0));
                view(a, acc, n, na);
                int hit = 0;
                for (size_t i = 0; i < acc.size(); i++)
                    if (acc[i] != cd(0, 0)) {
                        hit++;
                        if (part && i != c.at)
                            hit = 9;
                        c.at = i;
                        (part ? c.im : c.re) = acc[i];
                    }
                if (hit != 1) {
                    V::viol(P, "measure", std::string(a.name()) + V::fmt(": a measurement changes %d cells of a new accumulator", hit));
                    return;
                }
            }
            cal[{ k, order }] = c;
        }
    size_t block = acc.size() / (a.orders() ? order0 : 1);
    std::vector<int> seq;
    auto where = [&]() {
        std::string s = a.name();
        for (int o : seq)
            s += ", " + opName(o);
        return s;
    };
    long shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    auto replay = [&]() -> bool {
        Ref r;
        r.order = order0, r.beta = beta0, r.accu = 0;
        a.fresh(order0, beta0);
        a.cur = beta0;
        r.norm = normOf(beta0);
        r.acc.assign(block * (a.orders() ? order0 : 1), 0);
        for (int o : seq) {
            runs++;
            int k = o == 3 ? 0 : o, hi = a.orders() ? r.order : 1, od = o < 2 ? 1 : hi;
            if (o < 4) {
                Complex w = o == 0 ? Complex(1.1, -0.3) : o == 1 ? Complex(-0.7, 2.0 / 3) : o == 2 ? Complex(0.1, 0.2) : Complex(1e5 / 3, -0.9);
                a.measure(k, od, w);
                Cal c = cal[{ k, std::min(od, order0) }];
                size_t at = c.at + (od > order0 ? (od - order0) * block : 0);
                r.acc[at] += w.Re * c.re + w.Im * c.im;
            }
            else if (o < 6)
                a.norm(o == 4 ? 1.1 : 0.3), r.accu += o == 4 ? 1.1 : 0.3;
            else if (o < 8) {
                double f = o == 6 ? 3 : 0.3;
                a.squeeze(f);
                r.accu /= f;
                for (auto& x : r.acc)
                    x /= f;
            }
            else if (o == 8) {
                a.clear();
                r.accu = 0;
                std::fill(r.acc.begin(), r.acc.end(), 0);
            }
            else if (o < 11) {
                double b = o == 9 ? r.beta * 2 : r.beta / 4;
                double q = std::pow(r.beta / b, a.arity());
                a.anneal(b);
                a.cur = r.beta = b;
                r.norm *= q, r.accu *= q;
            }
            else if (o == 13) {
                Dictionary d = deep_copy(a.outer());
                a.measure(1, 1, Complex(2, -5));
                a.norm(0.75);
                a.restore(d);
            }
            else {
                Dictionary d = deep_copy(a.outer());
                if (o == 12 && a.orders()) {
                    r.order++;
                    r.acc.resize(block * r.order, 0);
                }
                a.fresh(r.order, r.beta);
                a.restore(d);
            }
        }
        seqs++;
        V::beat()++;
        view(a, acc, n, na);
        cells += acc.size();
        if (acc.size() != r.acc.size()) {
            V::viol(P, "size", where() + V::fmt(": %zu cells instead of %zu", acc.size(), r.acc.size()));
            return false;
        }
        // what matters is the measured weight accu/normaccu*norm and the constant itself
        if (!(std::fabs(n - normOf(r.beta)) <= 1e-12 * normOf(r.beta))) {
            V::viol(P, "constant", where() + V::fmt(": normalization constant %.12g instead of %.12g", n, normOf(r.beta)));
            return false;
        }
        if (!(std::fabs(na - r.accu) <= 1e-12 * std::fabs(r.accu))) {
            V::viol(P, "norm", where() + V::fmt(": accumulated norm %.12g instead of %.12g", na, r.accu));
            return false;
        }
        for (size_t i = 0; i < acc.size(); i++)
            if (!(std::abs(acc[i] - r.acc[i]) <= 1e-12 * std::abs(r.acc[i]))) {
                V::viol(P, "weight", where() + V::fmt(": cell %zu holds %.12g%+.12gi instead of %.12g%+.12gi", i, acc[i].real(), acc[i].imag(), r.acc[i].real(), r.acc[i].imag()));
                return false;
            }
        return true;
    };
    uint64_t top = 0;
    std::function<void()> dfs = [&]() {
        if (V::nviol() > 12)
            return;
        snprintf(V::crash_ctx(), 4096, "%s", where().c_str());
        bool ok = false;
        try {
            ok = replay();
        }
        catch (std::exception& e) {
            V::viol(P, "exception", where() + ": " + e.what());
        }
        if (!ok || (int)seq.size() == depth)
            return;
        for (int o = 0; o < NOP; o++) {
            if (o == 12 && !a.orders())
                continue;
            if (seq.size() == 1 && top++ % shards != (uint64_t)shard)
                continue;
            seq.push_back(o);
            dfs();
            seq.pop_back();
        }
    };
    dfs();
    // factors that are no factors, tables that do not fit: refused, nothing changed
    seq = { 0, 2, 4 };
    for (double f : { 0.0, -1.0, -0.5, (double)NAN }) {
        replay();
        auto before = acc;
        double n0 = n, na0 = na;
        bool threw = false;
        try {
            a.squeeze(f);
        }
        catch (std::exception&) {
            threw = true;
        }
        view(a, acc, n, na);
        runs++;
        if (!threw || acc != before || n != n0 || na != na0)
            V::viol(P, "factor", where() + V::fmt(": squeezing by %g is %s", f, threw ? "refused but changes the accumulator" : "not refused"));
    }
    if (a.orders())
        for (int from = 1; from <= 4; from++)
            for (int to = 1; to <= 4; to++) {
                a.fresh(from, beta0);
                a.measure(0, 1, Complex(1, 2)), a.measure(1, from, Complex(3, 4)), a.norm(2);
                Dictionary d = deep_copy(a.outer());
                view(a, acc, n, na);
                auto was = acc;
                bool threw = false;
                snprintf(V::crash_ctx(), 4096, "%s of order %d restored into order %d", a.name(), from, to);
                a.fresh(to, beta0);
                a.measure(2, to, Complex(7, 7)); // forgotten by restoring
                try {
                    a.restore(d);
                }
                catch (std::exception&) {
                    threw = true;
                }
                runs++;
                if (threw != (from > to))
                    V::viol(P, "fit", std::string(V::crash_ctx()) + (threw ? " is refused" : " is not refused"));
                if (!threw && from <= to) {
                    view(a, acc, n, na);
                    was.resize(acc.size(), 0);
                    if (acc != was || na != 2)
                        V::viol(P, "larger", std::string(V::crash_ctx()) + ": the statistics differ");
                }
            }
}
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P, 30);
    V::in_code() = true;
    W_.build();
    int depth = V::argi("depth", 4), order = V::argi("Order", 2);
    std::string kind = V::arg("kind", "all");
    if (kind == "all" || kind == "sigma")
        explore<SigmaAcc>(depth, order);
    if (kind == "all" || kind == "polar")
        explore<PolarAcc>(depth, order);
    if (kind == "all" || kind == "gammag")
        explore<GammaGAcc>(depth, order);
    if (kind == "all" || kind == "gammaw")
        explore<GammaWAcc>(depth, order);
    V::in_code() = false;
    V::sample(V::fmt("all sequences of up to %d of the operations: ", depth) + [] { std::string s; for (int i = 0; i < NOP; i++) s += opName(i) + "; "; return s; }());
    V::stati("states", seqs);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("cells_compared", cells);
    V::stati("complete", 1);
    V::finish();
}
