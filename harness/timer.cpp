// C24: every history of start/restart/stop/check/show on two timers and of clock steps up to a depth, under
// clocks owned by the harness, compared with a reference timer after every call.
#include "vcommon.h"
#include "utility/timer.h"
#include <time.h>
#include <sys/time.h>
Verif::WordSource* Verif::Source = nullptr;
static const char* P = "C24";
static long wall = 1000000000; // seconds
static long cpu = 0; // hundredths of a second
extern "C" {
time_t time(time_t* p) noexcept
{
    if (p)
        *p = wall;
    return wall;
}
clock_t clock() noexcept { return cpu * (CLOCKS_PER_SEC / 100); }
int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
        t->tv_sec = cpu / 100, t->tv_nsec = (cpu % 100) * 10000000;
    else
        t->tv_sec = wall, t->tv_nsec = 0;
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept
{
    t->tv_sec = wall;
    t->tv_usec = 0;
    return 0;
}
}
struct Ref {
    bool running = false;
    long w0 = 0, c0 = 0;
    double acc = 0;
    double part() const { return wall - w0 < 3600 ? (cpu - c0) / 100.0 : wall - w0; }
    void begin() { running = true, w0 = wall, c0 = cpu; }
};
struct World {
    timer t[2];
    Ref r[2];
};
static const long INTERVAL[] = { 0, 1, 2, 60, 3601 };
static const long STEP[][2] = { { 1, 0 }, { 0, 25 }, { 2, 150 }, { 59, 100 }, { 3600, 1 } };
static uint64_t runs = 0, states = 0;
static void explore(const World& s, int depth, const std::string& path)
{
    states++;
    if (!depth)
        return;
    long w = wall, c = cpu;
    for (auto& st : STEP) {
        wall = w + st[0], cpu = c + st[1];
        explore(s, depth - 1, path + V::fmt("; %ld s later (%.2f s of processor time)", st[0], st[1] / 100.0));
        wall = w, cpu = c;
    }
    for (int i = 0; i < 2; i++)
        for (int op = 0; op < 4 + 5; op++) {
            World n = s;
            timer& t = n.t[i];
            Ref& r = n.r[i];
            V::beat()++;
            runs++;
            std::string what;
            if (op == 0) {
                what = V::fmt("; timer %d started", i);
                V::in_code() = true, t.start(), V::in_code() = false;
                if (!r.running)
                    r.begin();
            } else if (op == 1) {
                what = V::fmt("; timer %d restarted", i);
                V::in_code() = true, t.restart(), V::in_code() = false;
                r.acc = 0;
                r.begin();
            } else if (op == 2) {
                what = V::fmt("; timer %d stopped", i);
                V::in_code() = true, t.stop(), V::in_code() = false;
                if (r.running)
                    r.acc += r.part();
                r.running = false;
            } else if (op == 3) {
                std::ostringstream a, b;
                V::in_code() = true, a << t, V::in_code() = false;
                b << std::setprecision(2) << std::setiosflags(std::ios::fixed) << r.acc + (r.running ? r.part() : 0);
                if (fabs(atof(a.str().c_str()) - atof(b.str().c_str())) > 0.011)
                    V::viol(P, "shown", path + V::fmt("; timer %d shows ", i) + a.str() + ", expected " + b.str());
                continue;
            } else {
                long I = INTERVAL[op - 4];
                if (!r.running)
                    continue;
                V::in_code() = true;
                bool fired = t.check((time_t)I);
                V::in_code() = false;
                bool want = wall - r.w0 >= I;
                what = V::fmt("; timer %d asked for %ld s: %s", i, I, fired ? "yes" : "no");
                if (fired != want)
                    V::viol(P, fired ? "early" : "late", path + what + V::fmt(", though %ld s have passed", wall - r.w0));
                if (want)
                    r.acc = 0, r.begin();
            }
            explore(n, depth - 1, path + what);
        }
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    for (long base : { 1000000000L, 2147483646L, 4294967294L }) {
        wall = base;
        World w;
        explore(w, (int)V::argi("depth", 5), V::fmt("clock at %ld", base));
    }
    // long polling loops: several timers with different intervals, polls at a fixed pace
    for (long pace : { 1L, 2L, 3L, 7L }) {
        wall = 1700000000;
        const long I[4] = { 1, 5, 30, 600 };
        timer t[4];
        long fired[4] = { 0, 0, 0, 0 }, last[4], n = V::argi("polls", 20000);
        for (int i = 0; i < 4; i++)
            t[i].start(), last[i] = wall;
        for (long k = 0; k < n; k++) {
            wall += pace, cpu++;
            for (int i = 0; i < 4; i++) {
                bool f = t[i].check((time_t)I[i]);
                runs++;
                V::beat()++;
                if (f != (wall - last[i] >= I[i]))
                    V::viol(P, "poll", V::fmt("polled every %ld s, timer of %ld s at %ld s after its last firing: %d", pace, I[i], wall - last[i], f));
                if (f)
                    last[i] = wall, fired[i]++;
            }
            states++;
        }
        V::note(V::fmt("polled %ld times every %ld s: fired %ld %ld %ld %ld", n, pace, fired[0], fired[1], fired[2], fired[3]));
    }
    V::sample("two timers, 5 clock steps and 9 calls each, every history");
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
