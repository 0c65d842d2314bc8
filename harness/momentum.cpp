// C11: momentum arithmetic for every pair of values, occupancy tables for every set of momenta in use.
#include "vcommon.h"
#include "utility/momentum.h"
#include "module/diagram/diagram.h"
#include <thread>
#include <mutex>
#include <atomic>
Verif::WordSource* Verif::Source = nullptr;
static const char* P = "C11";
static std::atomic<uint64_t> runs(0);
static uint64_t states = 0;
static const int M = 2 * MAX_K + 1;
static int wrap(long k)
{
    k %= M;
    if (k > MAX_K)
        k -= M;
    if (k < -MAX_K)
        k += M;
    return k;
}
static std::mutex mu;
static void bad(const char* tag, const char* op, int a, int b, int got, int want)
{
    std::lock_guard<std::mutex> l(mu);
    V::viol(P, tag, V::fmt("range +-%d: %s of %d and %d is %d, expected %d", MAX_K, op, a, b, got, want));
}
static void both(int a, int b)
{
    Momentum x(a), y(b);
    const int add = wrap((long)a + b), sub = wrap((long)a - b), rsub = wrap((long)b - a);
    int v;
#define CK(tag, op, expr, want)          \
    if ((v = (expr)) != (want))          \
        bad(tag, op, a, b, v, want);
    CK("add", "sum", (x + y).K, add);
    CK("add", "sum (number right)", (x + b).K, add);
    CK("add", "sum (number left)", (a + y).K, add);
    CK("sub", "difference", (x - y).K, sub);
    CK("sub", "difference (number right)", (x - b).K, sub);
    CK("sub", "difference (number left)", (a - y).K, sub);
    Momentum z(x);
    z += y;
    CK("add", "in-place sum", z.K, add);
    z = x;
    z += b;
    CK("add", "in-place sum (number)", z.K, add);
    z = x;
    z -= y;
    CK("sub", "in-place difference", z.K, sub);
    z = x;
    z -= b;
    CK("sub", "in-place difference (number)", z.K, sub);
    CK("group", "sum then difference", (x + y - y).K, a);
    CK("group", "commuted sum", (y + x).K, add);
    CK("equal", "equality", (x == y) + 2 * (x != y) + 4 * (x == b) + 8 * (x != b) + 16 * (a == y) + 32 * (a != y), a == b ? 21 : 42);
    CK("position", "same position", x.index() == y.index(), a == b);
    CK("position", "same interaction position", x.abs() == y.abs(), a == b || a == -b);
    (void)rsub;
}
static void single(int a)
{
    Momentum x(a), z;
    int v;
    const int b = 0;
    CK("value", "construction", x.K, a);
    CK("value", "default", z.K, 0);
    CK("neg", "negation", (-1 * x).K, -a);
    CK("neg", "difference from zero", (0 - x).K, -a);
    CK("neg", "sum with its negative", (x + (-1 * x)).K, 0);
    CK("neg", "one times", (1 * x).K, a);
    CK("neg", "zero times", (0 * x).K, 0);
    CK("mul", "twice", (2 * x).K, wrap(2L * a));
    CK("mul", "minus twice", (-2 * x).K, wrap(-2L * a));
    CK("group", "sum with zero", (x + z).K, a);
    CK("position", "position in range", x.index() >= 0 && x.index() < M, 1);
    CK("position", "interaction position in range", x.abs() >= 0 && x.abs() <= MAX_K, 1);
    for (int j = -1; j <= 1; j++)
        CK("value", "construction shifted by a period", Momentum(a + j * M).K, a);
    x += x;
    CK("alias", "in-place sum with itself", x.K, wrap(2L * a));
    Momentum y(a);
    y -= y;
    CK("alias", "in-place difference with itself", y.K, 0);
}
#undef CK
static void hashes()
{
    // state: set of propagator momenta and set of interaction momenta (up to sign) in use
    const int NG = M, NW = MAX_K;
    static diag::Diagram* d = new diag::Diagram();
    auto load = [&](unsigned g, unsigned w) {
        memset(d->GHash, 0, sizeof d->GHash);
        memset(d->WHash, 0, sizeof d->WHash);
        // the tables are filled through the interface only
        for (int i = 0; i < NG; i++)
            if (g >> i & 1)
                d->AddGHash(Momentum(i - MAX_K));
        for (int i = 0; i < NW; i++)
            if (w >> i & 1)
                d->AddWHash(Momentum(i % 2 ? i + 1 : -(i + 1)));
    };
    auto check = [&](unsigned g, unsigned w, const std::string& what) {
        for (int i = 0; i < NG; i++) {
            int k = i - MAX_K;
            runs += 2;
            if (d->GHashCheck(Momentum(k)) != (bool)(g >> i & 1))
                V::viol(P, "G-table", V::fmt("range +-%d, %s (propagators %x, interactions %x): propagator momentum %d occupied=%d", MAX_K, what.c_str(), g, w, k, d->GHashCheck(Momentum(k))));
            bool e = k == 0 || (w >> (abs(k) - 1) & 1);
            if (d->WHashCheck(Momentum(k)) != e)
                V::viol(P, "W-table", V::fmt("range +-%d, %s (propagators %x, interactions %x): interaction momentum %d occupied=%d", MAX_K, what.c_str(), g, w, k, d->WHashCheck(Momentum(k))));
        }
    };
    for (unsigned g = 0; g < 1u << NG; g++)
        for (unsigned w = 0; w < 1u << NW; w++) {
            V::beat()++;
            states++;
            auto op = [&](const std::string& name, unsigned g2, unsigned w2, auto f) {
                load(g, w);
                V::in_code() = true;
                try {
                    f();
                }
                catch (const std::exception& e) {
                    V::viol(P, "refused", V::fmt("range +-%d, (propagators %x, interactions %x): %s was refused", MAX_K, g, w, name.c_str()));
                    V::in_code() = false;
                    return;
                }
                V::in_code() = false;
                runs++;
                check(g2, w2, name);
            };
            op("nothing", g, w, [] {});
            for (int i = 0; i < NG; i++) {
                int k = i - MAX_K;
                if (!(g >> i & 1))
                    op(V::fmt("add propagator %d", k), g | 1u << i, w, [&] { d->AddGHash(Momentum(k)); });
                else {
                    op(V::fmt("remove propagator %d", k), g & ~(1u << i), w, [&] { d->RemoveGHash(Momentum(k)); });
                    for (int j = 0; j < NG; j++)
                        if (j == i || !(g >> j & 1))
                            op(V::fmt("replace propagator %d by %d", k, j - MAX_K), (g & ~(1u << i)) | 1u << j, w, [&] { d->ReplaceGHash(Momentum(k), Momentum(j - MAX_K)); });
                }
                if (k == 0)
                    continue;
                int a = abs(k) - 1;
                if (!(w >> a & 1))
                    op(V::fmt("add interaction %d", k), g, w | 1u << a, [&] { d->AddWHash(Momentum(k)); });
                else {
                    op(V::fmt("remove interaction %d", k), g, w & ~(1u << a), [&] { d->RemoveWHash(Momentum(k)); });
                    for (int j = 0; j < NG; j++) {
                        int q = j - MAX_K, b = abs(q) - 1;
                        if (q && (b == a || !(w >> b & 1)))
                            op(V::fmt("replace interaction %d by %d", k, q), g, (w & ~(1u << a)) | 1u << b, [&] { d->ReplaceWHash(Momentum(k), Momentum(q)); });
                    }
                }
            }
        }
    V::sample(V::fmt("range +-%d: all %u x %u occupancy sets, every legal add, remove, replace", MAX_K, 1u << NG, 1u << NW));
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    int edge = V::argi("edge", 0);
    std::vector<int> A;
    for (int k = -MAX_K; k <= MAX_K; k++)
        if (!edge || abs(k) <= edge || abs(k) >= MAX_K - edge || abs(abs(k) - MAX_K / 2) <= edge)
            A.push_back(k);
    for (int k = -MAX_K; k <= MAX_K; k++)
        single(k);
    std::atomic<size_t> next(0);
    auto work = [&] {
        for (size_t i; (i = next++) < A.size();) {
            for (int b = -MAX_K; b <= MAX_K; b++)
                both(A[i], b);
            runs += 15 * M;
            V::beat()++;
        }
    };
    std::vector<std::thread> th;
    for (int i = 0; i < V::argi("threads", 6); i++)
        th.emplace_back(work);
    for (auto& t : th)
        t.join();
    states += (uint64_t)A.size() * M;
    V::sample(V::fmt("range +-%d: %d x %d pairs of momenta, every operator form", MAX_K, (int)A.size(), M));
    if (MAX_K <= 4) { // all triples: associativity
        for (int a = -MAX_K; a <= MAX_K; a++)
            for (int b = -MAX_K; b <= MAX_K; b++)
                for (int c = -MAX_K; c <= MAX_K; c++) {
                    Momentum x(a), y(b), z(c);
                    runs += 2;
                    states++;
                    if (((x + y) + z) != (x + (y + z)) || (x - (y + z)) != ((x - y) - z))
                        bad("group", "regrouping", a, b, ((x + y) + z).K, (x + (y + z)).K);
                }
        hashes();
    }
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
