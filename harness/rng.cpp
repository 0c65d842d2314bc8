// C12: every 32-bit generator word through the conversions; save and restore at every position of the generator
// state and in every short history of draws, saves, restores and reseeds.
#include "vcommon.h"
#include "utility/rng.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <memory>
#include <functional>
#include <sstream>
static const char* P = "C12";
static std::atomic<uint64_t> runs(0);
static uint64_t states = 0;
static std::mutex mu;
static void bad(const char* tag, const std::string& s)
{
    std::lock_guard<std::mutex> l(mu);
    V::viol(P, tag, s);
}
std::string ToString(const RandomFactory&);
#ifdef FEYNMAN_VERIF
static thread_local uint32_t cur = 0;
static thread_local int used = 0;
struct Given : Verif::WordSource {
    std::mt19937::result_type Word(int, int, int) override
    {
        used++;
        return cur;
    }
};
static Given Src;
Verif::WordSource* Verif::Source = nullptr;
static void parallel(int n, const std::function<void(int, uint64_t, uint64_t)>& f)
{
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++)
        th.emplace_back(f, i, (1ULL << 32) * i / n, (1ULL << 32) * (i + 1) / n);
    for (auto& t : th)
        t.join();
}
static void reals(int threads)
{
    const int NB = 1 << 10;
    std::vector<std::vector<uint64_t>> bins(threads, std::vector<uint64_t>(NB, 0));
    std::vector<double> first(threads), last(threads);
    parallel(threads, [&](int id, uint64_t lo, uint64_t hi) {
        RandomFactory R(1);
        double prev = -1;
        for (uint64_t r = lo; r < hi; r++) { // words in order of their signed value
            cur = V::word_of_rank(r);
            double x = R.urn();
            if (!(x >= 0 && x < 1)) {
                bad("range", V::fmt("word %08x gives %.17g", cur, x));
                return;
            }
            if (!(x > prev)) {
                bad("monotone", V::fmt("word %08x gives %.17g, not above its predecessor's %.17g", cur, x, prev));
                return;
            }
            if (r == lo)
                first[id] = x;
            prev = x;
            bins[id][(int)(x * NB)]++;
        }
        last[id] = prev;
        if (used != (int)(hi - lo))
            bad("words", V::fmt("%d words consumed by %llu draws", used, (unsigned long long)(hi - lo)));
        runs += hi - lo;
        V::beat()++;
    });
    for (int i = 1; i < threads; i++)
        if (!(first[i] > last[i - 1]))
            bad("monotone", "the order of the draws does not follow the order of the words");
    for (int b = 0; b < NB; b++) {
        uint64_t c = 0;
        for (auto& v : bins)
            c += v[b];
        if (c + 1 < (1u << 22) || c > (1u << 22) + 1)
            bad("uniform", V::fmt("%llu of 2^32 words fall into part %d of %d", (unsigned long long)c, b, NB));
    }
    states += 1ULL << 32;
    V::sample("urn: all 2^32 generator words in order");
}
static void ints(int from, int thru, int threads)
{
    uint64_t n = (int64_t)thru - from + 1;
    std::vector<std::vector<uint64_t>> cnt(threads, std::vector<uint64_t>(n, 0));
    parallel(threads, [&](int id, uint64_t lo, uint64_t hi) {
        RandomFactory R(1);
        for (uint64_t w = lo; w < hi; w++) {
            cur = (uint32_t)w;
            int k = R.irn(from, thru);
            if (k < from || k > thru) {
                bad("irange", V::fmt("word %08x gives %d outside [%d,%d]", cur, k, from, thru));
                return;
            }
            cnt[id][k - from]++;
        }
        runs += hi - lo;
        V::beat()++;
    });
    uint64_t lo = ~0ULL, hi = 0;
    for (uint64_t k = 0; k < n; k++) {
        uint64_t c = 0;
        for (auto& v : cnt)
            c += v[k];
        lo = std::min(lo, c), hi = std::max(hi, c);
    }
    if (hi - lo > 1)
        bad("iuniform", V::fmt("over all words the values of [%d,%d] occur between %llu and %llu times", from, thru, (unsigned long long)lo, (unsigned long long)hi));
    states += 1ULL << 32;
    V::sample(V::fmt("irn(%d,%d): all 2^32 generator words", from, thru));
}
#endif
static const int NI = 5;
static const int IV[NI][2] = { { 0, 0 }, { 0, 1 }, { -3, 3 }, { 5, 1000 }, { -10000, 10000 } };
static double draw(RandomFactory& R, int kind) { return kind == 0 ? R.urn() : R.irn(IV[(kind - 1) % NI][0], IV[(kind - 1) % NI][1]); }
static std::string text(RandomFactory& R)
{
    std::ostringstream s;
    s << R;
    return s.str();
}
static void positions(int N, int tail)
{
    for (int seed : { 1, 519180543, -7 }) {
        std::vector<double> ref;
        {
            RandomFactory R(seed);
            for (int i = 0; i < N + tail; i++)
                ref.push_back(draw(R, i % 7));
        }
        RandomFactory R(seed);
        for (int n = 0; n < N; n++) {
            V::beat()++;
            snprintf(V::crash_ctx(), 4096, "seed %d, saved after %d draws", seed, n);
            V::in_code() = true;
            std::string s = ToString(R), s2 = ToString(R), s3 = text(R);
            V::in_code() = false;
            states++;
            runs += 3;
            if (s != s2 || s != s3)
                bad("text", V::fmt("seed %d: two saves after %d draws differ", seed, n));
            if (s.find('\n') != std::string::npos)
                bad("text", "the saved state contains a line break");
            for (int way = 0; way < 4; way++) {
                V::in_code() = true;
                RandomFactory* Q = nullptr;
                if (way == 0)
                    Q = new RandomFactory(s);
                else {
                    Q = new RandomFactory(n + 99);
                    for (int i = 0; i < (n * 37) % 700; i++)
                        Q->urn();
                    if (way == 1)
                        Q->Reset(s);
                    else if (way == 2) {
                        std::istringstream is(s);
                        is >> *Q;
                    } else {
                        Q->Reset(s);
                        Q->Reset(ToString(*Q)); // through the text twice
                    }
                }
                for (int i = 0; i < tail; i++) {
                    double x = draw(*Q, (n + i) % 7);
                    if (x != ref[n + i]) {
                        bad("resume", V::fmt("seed %d: restored (way %d) after %d draws, draw %d is %.17g instead of %.17g", seed, way, n, i, x, ref[n + i]));
                        break;
                    }
                }
                delete Q;
                V::in_code() = false;
                runs += tail;
            }
            if (draw(R, n % 7) != ref[n])
                bad("save-advances", V::fmt("seed %d: saving after %d draws changes the sequence", seed, n));
        }
    }
    V::sample(V::fmt("three seeds, saved and restored at each of %d positions, %d draws each", N, tail));
}
static void histories(int depth)
{
    // operations: 0 urn, 1 irn, 2 save, 3 restore last save, 4 reseed with 5, 5 copy out and back through a stream
    std::vector<int> op(depth, 0);
    for (;;) {
        RandomFactory R(11), M(11); // M: the same seeds and draw counts replayed from scratch
        int seed = 11, n = 0, sseed = 11, sn = 0;
        std::string saved = ToString(R);
        std::vector<int> kinds, skinds;
        for (int i = 0; i < depth; i++) {
            V::beat()++;
            runs++;
            if (op[i] < 2) {
                double x = draw(R, op[i] * 3);
                kinds.push_back(op[i] * 3);
                RandomFactory Z(seed);
                double want = 0;
                for (int k : kinds)
                    want = draw(Z, k);
                if (x != want)
                    bad("history", V::fmt("history %d%d%d%d..: draw %d is %.17g instead of %.17g", op[0], op[1], op[2], op[3], i, x, want));
            } else if (op[i] == 2)
                saved = ToString(R), skinds = kinds, sseed = seed;
            else if (op[i] == 3)
                R.Reset(saved), kinds = skinds, seed = sseed;
            else if (op[i] == 4)
                R.Reset(5), seed = 5, kinds.clear();
            else {
                RandomFactory Q(ToString(R));
                R.Reset(text(Q));
            }
        }
        states++;
        int i = depth - 1;
        while (i >= 0 && ++op[i] == 6)
            op[i--] = 0;
        if (i < 0)
            break;
    }
    V::sample(V::fmt("all histories of %d draws, saves, restores and reseeds", depth));
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P, 120);
    std::string what = V::arg("part", "state");
#ifdef FEYNMAN_VERIF
    int th = V::argi("threads", 8);
    if (what == "words") {
        Verif::Source = &Src;
        reals(th);
        ints(0, 1, th), ints(-3, 3, th), ints(-10000, 10000, th);
    }
    if (what == "more") {
        Verif::Source = &Src;
        ints(0, 0, th), ints(0, 2, th);
        for (int n = 3; n <= 24; n++)
            ints(0, n, th), ints(-n, n + 1, th);
        ints(-1000003, 7, th), ints(100, 65635, th), ints(0, (1 << 24) - 1, th);
    }
#endif
    if (what == "state") {
        positions(V::argi("pos", 1300), V::argi("tail", 40));
        histories(V::argi("depth", 6));
    }
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
