// C15: the real reweighting, in every combination of visit counts per sector.
#include "world.h"
#include "vcommon.h"
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
static const char* P = "C15";
static World W_;
static uint64_t states = 0, runs = 0, adjusted = 0, refused = 0;
struct F {
    std::vector<double> o;
    double w, p, gg, gw;
};
static F read()
{
    auto& a = W_.Para;
    return F{ std::vector<double>(a.OrderReWeight.begin(), a.OrderReWeight.end()), a.WormSpaceReweight, a.PolarReweight, a.GammaGReweight, a.GammaWReweight };
}
static std::string text(const F& f)
{
    std::string s = "orders";
    for (double x : f.o)
        s += V::fmt(" %.12g", x);
    return s + V::fmt(" worm %.12g polar %.12g vertex functions %.12g %.12g", f.w, f.p, f.gg, f.gw);
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::fabs(b); }
static bool same(const F& a, const F& b)
{
    if (a.o.size() != b.o.size())
        return false;
    for (size_t i = 0; i < a.o.size(); i++)
        if (!near(a.o[i], b.o[i]))
            return false;
    return near(a.w, b.w) && near(a.p, b.p) && near(a.gg, b.gg) && near(a.gw, b.gw);
}
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P, 30);
    V::in_code() = true;
    W_.build();
    int N = W_.Order;
    bool gamma = W_.Gamma;
    std::vector<long> counts;
    {
        std::string c = V::arg("counts", "0,998,1300,5000");
        for (size_t i = 0; i < c.size();) {
            counts.push_back(atol(c.c_str() + i));
            i = c.find(',', i);
            if (i == std::string::npos)
                break;
            i++;
        }
    }
    // one estimator of each kind per count, filled by real measurements
    auto& M = *W_.Mon;
    int nsec = 2 * (N + 1) + 2 + (gamma ? 2 : 0);
    auto sector = [&](int s) -> Estimator<double>& {
        if (s <= N)
            return M.PhyEstimator[s];
        if (s <= 2 * N + 1)
            return M.WormEstimator[s - N - 1];
        s -= 2 * N + 2;
        return s == 0 ? M.SigmaEstimator : s == 1 ? M.PolarEstimator : s == 2 ? M.GammaGEstimator : M.GammaWEstimator;
    };
    std::vector<std::unique_ptr<Estimator<double>>> E;
    for (long c : counts) {
        E.emplace_back(new Estimator<double>("x"));
        for (long i = 0; i < c; i++)
            E.back()->Measure(1.0);
    }
    auto set = [&](int s, int k) {
        auto& e = sector(s);
        std::string n = e.Name;
        e = *E[k];
        e.Name = n;
    };
    W_.Para.OrderTimeRatio.clear();
    for (int i = 0; i <= N; i++)
        W_.Para.OrderTimeRatio.push_back(1.5 + 0.75 * i);
    auto start = read();
    std::vector<int> dig(nsec, 0);
    for (int s = 0; s < nsec; s++)
        set(s, 0);
    long shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    // an order 0 worm does not exist: its sector stays empty
    int skip = N + 1;
    double squeeze = V::argf("squeeze", 0);
    bool more = true;
    uint64_t idx = 0;
    while (more) {
        if (idx++ % shards == (uint64_t)shard) {
            for (int s = 0; s < nsec; s++)
                set(s, dig[s]);
            if (squeeze > 0) { // visit counts shrink together with their norms
                for (int s = 0; s < nsec; s++)
                    sector(s).SqueezeStatistics(squeeze);
            }
            double q = squeeze > 0 ? squeeze : 1;
            auto n = [&](int s) { return counts[dig[s]] / q; };
            auto norm = [&](int s) { return (counts[dig[s]] + 1) / q; };
            auto put = [&](const F& f) {
                for (int i = 0; i <= N; i++)
                    W_.Para.OrderReWeight[i] = f.o[i];
                W_.Para.WormSpaceReweight = f.w, W_.Para.PolarReweight = f.p, W_.Para.GammaGReweight = f.gg, W_.Para.GammaWReweight = f.gw;
            };
            put(start);
            auto where = [&]() {
                std::string s = "visits physical";
                for (int i = 0; i <= N; i++)
                    s += V::fmt(" %g", n(i));
                s += " worm";
                for (int i = 1; i <= N; i++)
                    s += V::fmt(" %g", n(N + 1 + i));
                s += V::fmt(" self energy %g polarization %g", n(2 * N + 2), n(2 * N + 3));
                if (gamma)
                    s += V::fmt(" vertex functions %g %g", n(2 * N + 4), n(2 * N + 5));
                return s;
            };
            bool enough = norm(2 * N + 3) >= 1000 && n(2 * N + 2) > 0;
            double worm = 0, phy = 0;
            for (int i = 0; i <= N; i++) {
                enough &= norm(i) >= 1000;
                if (i)
                    worm += n(N + 1 + i), phy += n(i);
            }
            if (gamma)
                enough &= norm(2 * N + 4) >= 1000 && norm(2 * N + 5) >= 1000;
            enough &= worm > 0;
            F want = start;
            states++;
            V::beat()++;
            snprintf(V::crash_ctx(), 4096, "%s", where().c_str());
            try {
                for (int k = 0; k < 4; k++) { // report, adjust, adjust again, report
                    bool adj = k == 1 || k == 2;
                    bool ok = false;
                    if (adj) {
                        ok = M.AdjustOrderReWeight();
                        if (enough) {
                            double w0 = n(0) + n(N + 1);
                            for (int i = 1; i <= N; i++) {
                                double wi = n(i) + n(N + 1 + i);
                                want.o[i] *= W_.Para.OrderTimeRatio[i] * w0 / wi;
                            }
                            want.o[0] = 1;
                            want.w *= phy / worm;
                            want.p *= n(2 * N + 2) / n(2 * N + 3);
                            if (gamma) {
                                want.gg *= n(2 * N + 2) / n(2 * N + 4);
                                want.gw *= n(2 * N + 3) / n(2 * N + 5);
                            }
                        }
                        if (ok != enough)
                            V::viol(P, "decision", where() + (ok ? ": reports an adjustment though there is too little" : ": reports no adjustment though there is enough"));
                    }
                    else
                        M.PrintOrderReWeight();
                    runs++;
                    F got = read();
                    if (!same(got, want)) {
                        V::viol(P, adj ? (enough ? "ratio" : "toolittle") : "report", where() + (adj ? ": adjusting gives " : ": reporting changes the factors to ") + text(got) + " instead of " + text(want));
                        break;
                    }
                    bool good = true;
                    for (double x : got.o)
                        good &= std::isfinite(x) && x > 0;
                    good &= std::isfinite(got.w) && got.w > 0 && std::isfinite(got.p) && got.p > 0 && std::isfinite(got.gg) && got.gg > 0 && std::isfinite(got.gw) && got.gw > 0;
                    if (!good) {
                        V::viol(P, "factor", where() + ": a factor is zero, negative or not finite: " + text(got));
                        break;
                    }
                }
                // the visits themselves stay
                for (int s = 0; s < nsec; s++)
                    if (sector(s).Value() != n(s) || sector(s).Norm() != norm(s)) {
                        V::viol(P, "visits", where() + V::fmt(": the visit count of sector %d changed", s));
                        break;
                    }
            }
            catch (std::exception& e) {
                V::viol(P, "exception", where() + ": " + e.what());
            }
            enough ? adjusted++ : refused++;
        }
        int s = 0;
        for (; s < nsec; s++) {
            if (s == skip)
                continue;
            if (++dig[s] < (int)counts.size())
                break;
            dig[s] = 0;
        }
        more = s < nsec && V::nviol() < 20;
    }
    V::in_code() = false;
    V::note(V::fmt("%llu combinations with enough statistics, %llu without", (unsigned long long)adjusted, (unsigned long long)refused));
    V::sample(V::fmt("order up to %d, vertex functions %d, visit counts %s", N, gamma, V::arg("counts", "0,998,1300,5000").c_str()));
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
