// C20: every operator and function of Complex on every pair of operands of a grid, and every sequence of
// compound assignments between two numbers up to a depth (operands may be the number itself or its own parts),
// compared with complex arithmetic in extended precision.
#include "vcommon.h"
#include "utility/complex.h"
#include <complex>
Verif::WordSource* Verif::Source = nullptr;
static const char* P = "C20";
typedef long double ld;
typedef std::complex<ld> cd;
static uint64_t runs = 0, states = 0;
static std::string show(const Complex& c) { return V::fmt("(%.17g,%.17g)", c.Re, c.Im); }
static std::string show(cd c) { return V::fmt("(%.17Lg,%.17Lg)", c.real(), c.imag()); }
static cd wide(const Complex& c) { return cd(c.Re, c.Im); }
static bool near(double a, ld b, ld scale) { return !(fabsl((ld)a - b) > 1e-14L * scale + 4.9e-324L) && a == a; }
static void same(const char* tag, const Complex& got, cd want, ld sre, ld sim, const std::string& what)
{
    runs++;
    V::beat()++;
    if (!near(got.Re, want.real(), sre) || !near(got.Im, want.imag(), sim))
        V::viol(P, tag, what + " = " + show(got) + ", expected " + show(want));
}
static void same(const char* tag, const Complex& got, cd want, ld s, const std::string& what) { same(tag, got, want, s, s, what); }
static void number(const char* tag, double got, ld want, ld s, const std::string& what)
{
    runs++;
    V::beat()++;
    if (!near(got, want, s))
        V::viol(P, tag, what + V::fmt(" = %.17g, expected %.17Lg", got, want));
}
static void truth(const char* tag, bool got, bool want, const std::string& what)
{
    runs++;
    if (got != want)
        V::viol(P, tag, what + (want ? " is false" : " is true"));
}
static std::vector<double> R = { 0, 1, -1, 0.5, -2, 3, -0.75, 1e-3, -1e5, 1e100, -1e-100, 7.25 };

static void operands(const Complex& a, const Complex& b)
{
    cd A = wide(a), B = wide(b);
    ld ar = fabsl(A.real()), ai = fabsl(A.imag()), br = fabsl(B.real()), bi = fabsl(B.imag()), m = std::norm(B);
    std::string s = show(a) + " %s " + show(b);
    auto txt = [&](const char* op) { return show(a) + op + show(b); };
    Complex t;
    same("plus", a + b, A + B, ar + br, ai + bi, txt(" + "));
    same("minus", a - b, A - B, ar + br, ai + bi, txt(" - "));
    cd prod(A.real() * B.real() - A.imag() * B.imag(), A.real() * B.imag() + A.imag() * B.real());
    ld pr = ar * br + ai * bi, pi = ar * bi + ai * br;
    same("times", a * b, prod, pr, pi, txt(" * "));
    t = a;
    same("return", t += b, A + B, ar + br, ai + bi, txt(" += "));
    same("plus-assign", t, A + B, ar + br, ai + bi, txt(" += "));
    t = a;
    same("return", t -= b, A - B, ar + br, ai + bi, txt(" -= "));
    same("minus-assign", t, A - B, ar + br, ai + bi, txt(" -= "));
    t = a;
    same("return", t *= b, prod, pr, pi, txt(" *= "));
    same("times-assign", t, prod, pr, pi, txt(" *= "));
    if (m > 0) {
        cd quo((A.real() * B.real() + A.imag() * B.imag()) / m, (A.imag() * B.real() - A.real() * B.imag()) / m);
        same("divide", a / b, quo, pr / m, pi / m, txt(" / "));
        t = a;
        same("return", t /= b, quo, pr / m, pi / m, txt(" /= "));
        same("divide-assign", t, quo, pr / m, pi / m, txt(" /= "));
    }
    Complex c(a), d;
    d = b;
    truth("copy", c.Re == a.Re && c.Im == a.Im && d.Re == b.Re && d.Im == b.Im, true, "copy of " + show(a) + " and assignment of " + show(b));
    bool eq = fabs(a.Re - b.Re) < eps0 && fabs(a.Im - b.Im) < eps0;
    truth("equal", Equal(a, b), eq, "Equal(" + show(a) + "," + show(b) + ")");
    truth("equal", Equal(a, b.Re, b.Im), eq, "Equal(" + show(a) + "," + show(b) + ")");
    for (double e : { 0.3, 2.0, 1e6 }) {
        bool q = fabs(a.Re - b.Re) < e && fabs(a.Im - b.Im) < e;
        truth("equal", Equal(a, b, e), q, "Equal(" + show(a) + "," + show(b) + V::fmt(",%g)", e));
        truth("equal", Equal(a, b.Re, b.Im, e), q, "Equal(" + show(a) + "," + show(b) + V::fmt(",%g)", e));
    }
    // general power
    ld la = std::norm(A) > 0 ? 0.5L * logl(std::norm(A)) : 0, th = std::arg(A);
    ld expo = la * B.real() - th * B.imag(), ang = la * B.imag() + th * B.real();
    if (m == 0)
        same("power", pow(a, b), cd(1, 0), 1, "pow(" + show(a) + "," + show(b) + ")");
    else if (std::norm(A) == 0) {
        if (B.real() > 0)
            same("power", pow(a, b), cd(0, 0), 1e-300L, "pow(" + show(a) + "," + show(b) + ")");
    } else if (fabsl(expo) < 600 && fabsl(ang) < 1e6) {
        cd w = expl(expo) * cd(cosl(ang), sinl(ang));
        same("power", pow(a, b), w, std::abs(w) * 100 * (1 + fabsl(expo) + fabsl(ang)), "pow(" + show(a) + "," + show(b) + ")");
    }
}
static void with_real(const Complex& a, double r)
{
    cd A = wide(a);
    ld ar = fabsl(A.real()), ai = fabsl(A.imag()), rr = fabsl(r), m = std::norm(A);
    auto txt = [&](const char* op) { return show(a) + op + V::fmt("%.17g", r); };
    auto rev = [&](const char* op) { return V::fmt("%.17g", r) + op + show(a); };
    Complex t;
    ld Rr = r;
    same("plus-real", a + r, A + Rr, ar + rr, ai, txt(" + "));
    same("real-plus", r + a, A + Rr, ar + rr, ai, rev(" + "));
    same("minus-real", a - r, A - Rr, ar + rr, ai, txt(" - "));
    same("real-minus", r - a, Rr - A, ar + rr, ai, rev(" - "));
    same("times-real", a * r, A * Rr, ar * rr, ai * rr, txt(" * "));
    same("real-times", r * a, A * Rr, ar * rr, ai * rr, rev(" * "));
    if (r != 0)
        same("divide-real", a / r, cd(A.real() / Rr, A.imag() / Rr), ar / rr, ai / rr, txt(" / "));
    if (m > 0)
        same("real-divide", r / a, cd(Rr * A.real() / m, -Rr * A.imag() / m), rr * ar / m, rr * ai / m, rev(" / "));
    t = a;
    same("return", t += r, A + Rr, ar + rr, ai, txt(" += "));
    same("plus-assign-real", t, A + Rr, ar + rr, ai, txt(" += "));
    t = a;
    same("return", t -= r, A - Rr, ar + rr, ai, txt(" -= "));
    same("minus-assign-real", t, A - Rr, ar + rr, ai, txt(" -= "));
    t = a;
    same("return", t *= r, A * Rr, ar * rr, ai * rr, txt(" *= "));
    same("times-assign-real", t, A * Rr, ar * rr, ai * rr, txt(" *= "));
    if (r != 0) {
        t = a;
        same("return", t /= r, cd(A.real() / Rr, A.imag() / Rr), ar / rr, ai / rr, txt(" /= "));
        same("divide-assign-real", t, cd(A.real() / Rr, A.imag() / Rr), ar / rr, ai / rr, txt(" /= "));
    }
    t = a;
    t = r;
    same("assign-real", t, cd(r, 0), 0, "assignment of " + V::fmt("%.17g", r));
    same("construct", Complex(r), cd(r, 0), 0, "Complex(" + V::fmt("%.17g)", r));
    ld la = m > 0 ? 0.5L * logl(m) : 0, th = std::arg(A), ang = th * r;
    if (r == 0)
        same("power-real", pow(a, r), cd(1, 0), 1, "pow(" + show(a) + V::fmt(",%.17g)", r));
    else if (m == 0) {
        if (r > 0)
            same("power-real", pow(a, r), cd(0, 0), 1e-300L, "pow(" + show(a) + V::fmt(",%.17g)", r));
    } else if (fabsl(la * r) < 600 && fabsl(ang) < 1e6) {
        cd w = expl(la * r) * cd(cosl(ang), sinl(ang));
        same("power-real", pow(a, r), w, std::abs(w) * 100 * (1 + fabsl(la * r) + fabsl(ang)), "pow(" + show(a) + V::fmt(",%.17g)", r));
    }
    if (fabs(a.Re) < 1e6 && rr < 1e6)
        same("polar", polar(a.Re, r), cd((ld)a.Re * cosl(Rr), (ld)a.Re * sinl(Rr)), ar * 4, "polar" + V::fmt("(%.17g,%.17g)", a.Re, r));
}
static void single(const Complex& a)
{
    cd A = wide(a);
    ld ar = fabsl(A.real()), ai = fabsl(A.imag()), m = std::norm(A), mm = sqrtl(m);
    std::string s = show(a);
    same("unary", -a, -A, 0, "-" + s);
    same("unary", +a, A, 0, "+" + s);
    same("conjugate", conjugate(a), std::conj(A), 0, "conjugate" + s);
    number("modulus", mod2(a), m, m, "mod2" + s);
    number("modulus", mod(a), mm, mm, "mod" + s);
    number("angle", arg(a), std::arg(A), 10, "arg" + s);
    truth("iszero", IsZero(a), m == 0, "IsZero" + s);
    if (m > 0)
        same("phase", phase(a), A / mm, ar / mm * 4, ai / mm * 4, "phase" + s);
    else
        same("phase", phase(a), cd(0, 0), 0, "phase" + s);
    if (fabs(a.Re) < 600 && fabs(a.Im) < 1e6) {
        ld e = expl(A.real());
        same("exp", exp(a), cd(e * cosl(A.imag()), e * sinl(A.imag())), e * 16 * (1 + ar), "exp" + s);
    }
    Complex r = sqrt(a);
    ld root = sqrtl(mm);
    // principal root, either side of the cut on the negative real axis
    same("sqrt", r, std::sqrt(A), root * 4, "sqrt" + s);
    same("square-of-root", r * r, A, mm * 16, "square of sqrt" + s);
    if (m > 0 && mm < 1e6 && mm > 1e-6) {
        number("polar-angle", polar(mod(a), arg(a)).Re, A.real(), mm * 16, "polar of mod and arg of " + s);
        number("polar-angle", polar(mod(a), arg(a)).Im, A.imag(), mm * 16, "polar of mod and arg of " + s);
    }
    std::ostringstream os;
    os << std::setprecision(17) << a;
    for (const char* pre : { "", " ", "\n " }) {
        std::istringstream is(pre + os.str());
        Complex b(9, 9);
        is >> b;
        runs++;
        if (!is || b.Re != a.Re || b.Im != a.Im)
            V::viol(P, "text", s + " written as " + os.str() + " reads back as " + show(b));
    }
    for (const char* bad : { "[1,2)", "(1;2)", "(1,2]", "(1 2)", "1,2", "(1,2" }) {
        std::istringstream is(bad);
        Complex b;
        is >> b;
        truth("badtext", is.fail(), true, std::string("reading ") + bad + " fails");
    }
}
// histories of compound assignments on two numbers
struct Two {
    Complex v[2];
    cd w[2];
};
static const Complex CC[] = { Complex(2, -1), Complex(0, 0.5), Complex(-1, 0), Complex(-0.25, 3) };
static const double RR[] = { 2, -0.5, 3 };
static void history(const Two& s, int depth, const std::string& path)
{
    if (!depth)
        return;
    for (int x = 0; x < 2; x++)
        for (int op = 0; op < 5; op++)
            for (int o = 0; o < 4 + 3 + 4; o++) {
                Two n = s;
                Complex& v = n.v[x];
                cd w = s.w[x], ow;
                bool isReal = o >= 4 && (o < 7 || o >= 9);
                std::string on;
                if (o < 4)
                    ow = wide(CC[o]), on = show(CC[o]);
                else if (o < 7)
                    ow = RR[o - 4], on = V::fmt("%g", RR[o - 4]);
                else if (o < 9)
                    ow = s.w[o - 7], on = o - 7 == x ? "itself" : "the other";
                else
                    ow = o == 9 ? s.w[x].real() : s.w[x].imag(), on = o == 9 ? "its own real part" : "its own imaginary part";
                if (op == 3 && std::norm(ow) < 1e-20L)
                    continue;
                const Complex* co = o < 4 ? &CC[o] : o < 9 ? &n.v[(o - 7) & 1] : nullptr;
                const double* ro = o >= 9 ? (o == 9 ? &v.Re : &v.Im) : isReal ? &RR[o - 4] : nullptr;
                Complex* ret;
                V::beat()++;
                V::in_code() = true;
                switch (op) {
                case 0: ret = isReal ? &(v += *ro) : &(v += *co); w += ow; break;
                case 1: ret = isReal ? &(v -= *ro) : &(v -= *co); w -= ow; break;
                case 2: ret = isReal ? &(v *= *ro) : &(v *= *co); w *= ow; break;
                case 3: ret = isReal ? &(v /= *ro) : &(v /= *co); w /= ow; break;
                default: ret = isReal ? &(v = *ro) : &(v = *co); w = ow;
                }
                V::in_code() = false;
                runs++;
                n.w[x] = w;
                static const char* on_[] = { "+=", "-=", "*=", "/=", "=" };
                if (ret != &v || !near(v.Re, w.real(), 1e3L * (1 + std::abs(w) + std::abs(s.w[x]) + std::abs(ow))) || !near(v.Im, w.imag(), 1e3L * (1 + std::abs(w) + std::abs(s.w[x]) + std::abs(ow)))
                    || n.v[1 - x].Re != s.v[1 - x].Re || n.v[1 - x].Im != s.v[1 - x].Im) {
                    V::viol(P, V::fmt("history%d", op), path + V::fmt("; number %d ", x) + on_[op] + " " + on + " gives " + show(v) + ", expected " + show(w));
                    continue;
                }
                states++;
                if (std::abs(w) > 1e4L || (std::abs(w) < 1e-4L && std::abs(w) > 0))
                    continue;
                if (depth > 1)
                    history(n, depth - 1, path + V::fmt("; %d ", x) + on_[op] + " " + on);
            }
}
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    Complex def;
    truth("default", def.Re == 0 && def.Im == 0, true, "default value is zero");
    if (V::argi("deep", 0))
        for (double x : { -3.5, 1e-7, 12.0, 0.3, -1e30, 1e-60 })
            R.push_back(x);
    for (double a : R)
        for (double b : R) {
            Complex z(a, b);
            states++;
            truth("construct", z.Re == a && z.Im == b, true, "construction of " + show(z));
            single(z);
            for (double c : R) {
                with_real(z, c);
                for (double d : R)
                    operands(z, Complex(c, d));
            }
            // operands written as integers
            cd A = wide(z);
            same("integer", z + 2, A + 2.0L, 2 + std::abs(A), show(z) + " + 2");
            same("integer", 2 * z, A * 2.0L, 2 * std::abs(A), "2 * " + show(z));
        }
    Two s;
    s.v[0] = Complex(1, -2), s.v[1] = Complex(-0.5, 0.25);
    s.w[0] = wide(s.v[0]), s.w[1] = wide(s.v[1]);
    history(s, V::argi("depth", 3), "numbers (1,-2) and (-0.5,0.25)");
    V::sample("every operator on every pair of " + std::to_string(R.size() * R.size()) + " complex numbers and with every real number");
    V::stati("states", states);
    V::stati("transitions", runs);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
