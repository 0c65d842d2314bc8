// Shared helpers of the verification harnesses.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <stdarg.h>
#include "utility/rng.h"
#include "utility/logger.h"
#include "utility/abort.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pyarraywrapper.h"

namespace V {
inline FILE*& out()
{
    static FILE* f = stdout;
    return f;
}
inline int& nviol()
{
    static int n = 0;
    return n;
}
inline void line(const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    vfprintf(out(), fmt, a);
    va_end(a);
    fputc('\n', out());
    fflush(out());
}
inline std::string fmt(const char* f, ...)
{
    char b[8192];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline void stat(const char* k, double v) { line("STAT\t%s\t%.17g", k, v); }
inline void stati(const char* k, long long v) { line("STAT\t%s\t%lld", k, v); }
inline void note(const std::string& s) { line("NOTE\t%s", s.c_str()); }
// tag identifies the failing input so that a known finding can be recognised
inline int& maxviol()
{
    static int n = 8;
    return n;
}
inline void viol(const std::string& prop, const std::string& tag, const std::string& text)
{
    static std::map<std::string, int> seen;
    nviol()++;
    if (seen[prop + tag]++ >= 2)
        return;
    std::string t = text;
    for (auto& c : t)
        if (c == '\n')
            c = '|';
    line("VIOL\t%s\t%s\t%s", prop.c_str(), tag.c_str(), t.c_str());
}
inline void sample(const std::string& text)
{
    std::string t = text;
    for (auto& c : t)
        if (c == '\n')
            c = '|';
    line("SAMPLE\t%s", t.c_str());
}

inline std::map<std::string, std::string>& args()
{
    static std::map<std::string, std::string> m;
    return m;
}
inline std::string arg(const std::string& k, const std::string& d) { return args().count(k) ? args()[k] : d; }
inline long argi(const std::string& k, long d) { return args().count(k) ? atol(args()[k].c_str()) : d; }
inline double argf(const std::string& k, double d) { return args().count(k) ? atof(args()[k].c_str()) : d; }

// keeps the real stdout for our own lines; everything the code prints goes to /dev/null
inline void init(int argc, char** argv, bool python = true)
{
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto p = s.find('=');
        if (p != std::string::npos)
            args()[s.substr(0, p)] = s.substr(p + 1);
    }
    int fd = dup(1);
    out() = fdopen(fd, "w");
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    if (!getenv("VERIF_STDERR"))
        dup2(n, 2);
    LOGGER_CONF("/dev/null", "verif", Logger::file_on, ERROR, ERROR);
#ifndef V_NO_PYTHON
    if (python) {
        Python::Initialize();
        Python::ArrayInitialize();
    }
#endif
}
inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct H128 {
    uint64_t a = 0x1234567, b = 0x89abcdef;
    void add(uint64_t x)
    {
        a = mix(a ^ x);
        b = mix(b + x * 0x9e3779b97f4a7c15ULL + 77);
    }
    void add(const void* p, size_t n)
    {
        const unsigned char* c = (const unsigned char*)p;
        while (n >= 8) {
            uint64_t v;
            memcpy(&v, c, 8);
            add(v);
            c += 8;
            n -= 8;
        }
        uint64_t v = 0;
        memcpy(&v, c, n);
        add(v ^ ((uint64_t)n << 56));
    }
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
};
struct H128h {
    size_t operator()(const H128& h) const { return h.a; }
};
// deterministic value in [0,1)
inline double u01(uint64_t seed, uint64_t i) { return (mix(seed * 1000003ULL + mix(i)) >> 11) * (1.0 / 9007199254740992.0); }
// word for which urn() returns exactly u (u a multiple of 2^-32)
inline uint32_t word_of_u(double u) { return (uint32_t)(int64_t)llround((u - 0.5) * 4294967296.0); }
// word of rank r: urn() is strictly increasing in the rank
inline uint32_t word_of_rank(uint64_t r) { return (uint32_t)(r - 2147483648ULL); }
inline double now()
{
    struct timeval t;
    gettimeofday(&t, 0);
    return t.tv_sec + 1e-6 * t.tv_usec;
}
// watchdog and crash reporting: a hang or crash of the code under test is a violation
inline std::string& crash_prop()
{
    static std::string s = "?";
    return s;
}
inline char* crash_ctx()
{
    static char b[4096] = "start";
    return b;
}
inline volatile uint64_t& beat()
{
    static volatile uint64_t b = 0;
    return b;
}
inline volatile bool& in_code()
{
    static volatile bool b = false;
    return b;
}
inline void on_signal(int s)
{
    char b[6000];
    if (s == SIGALRM) {
        static uint64_t last = ~0ULL;
        if (!in_code() || beat() != last) {
            last = beat();
            return;
        }
        int n = snprintf(b, sizeof b, "VIOL\t%s\thang\tcall does not return: %s\n", crash_prop().c_str(), crash_ctx());
        fflush(out());
        (void)!write(fileno(out()), b, n);
        _exit(1);
    }
    int n = snprintf(b, sizeof b, "%s\t%s\tcrash\tsignal %d during: %s\n", in_code() ? "VIOL" : "ERROR", crash_prop().c_str(), s, crash_ctx());
    (void)!write(fileno(out()), b, n);
    _exit(in_code() ? 1 : 2);
}
inline void guard(const std::string& prop, int sec = 20)
{
    crash_prop() = prop;
    for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM })
        signal(s, on_signal);
    struct itimerval t;
    t.it_interval.tv_sec = t.it_value.tv_sec = sec;
    t.it_interval.tv_usec = t.it_value.tv_usec = 0;
    setitimer(ITIMER_REAL, &t, 0);
}
inline int finish()
{
    fflush(out());
    int rc = nviol() ? 1 : 0;
    line("END\t%d", rc);
    _exit(rc);
}
}
