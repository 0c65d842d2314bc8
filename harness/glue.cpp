// C32: values between C++ and Python.  Every value of a set read as every type, every value of every type written and
// read back, every shape and layout of array, every history of dictionary operations up to a depth against a model.
#include "vcommon.h"
#include "utility/complex.h"
#include "utility/momentum.h"
#include "utility/vector.h"
#include <Python.h>
#include <limits>
#include <climits>
#include <sys/stat.h>
#include <list>
#include <tuple>
#include <memory>
#include <fstream>
#ifdef FEYNMAN_VERIF
Verif::WordSource* Verif::Source = nullptr;
#endif
using namespace Python;
typedef __int128 Big;
static const char* P = "C32";
static uint64_t cases = 0, states = 0, trans = 0, refused = 0;
static std::string big(Big v)
{
    if (v == 0)
        return "0";
    std::string s;
    bool n = v < 0;
    for (; v; v /= 10)
        s.insert(s.begin(), '0' + std::abs((int)(v % 10)));
    return n ? "-" + s : s;
}
static std::string repr(PyObject* o)
{
    if (!o)
        return "null";
    PyObject* r = PyObject_Repr(o);
    std::string s = r ? PyUnicode_AsUTF8(r) : "?";
    Py_XDECREF(r);
    PyErr_Clear();
    return s;
}
static void bad(const char* tag, const std::string& t) { V::viol(P, tag, t); }
static Object eval(const std::string& s)
{
    PyObject* m = PyModule_GetDict(PyImport_AddModule("__main__"));
    PyObject* o = PyRun_String(s.c_str(), Py_eval_input, m, m);
    if (!o) {
        PyErr_Print();
        V::line("ERROR\tharness script %s", s.c_str());
        _exit(2);
    }
    return Object(o);
}
static long blocks()
{
    static Object f = eval("__import__('sys').getallocatedblocks");
    PyObject* r = PyObject_CallNoArgs(f.Get());
    long n = PyLong_AsLong(r);
    Py_DECREF(r);
    return n;
}
// ---- values ------------------------------------------------------------------------------------------------------
enum Kind { NONE, BOOL, INT, FLOAT, COMPLEX, STR, BYTES, LIST, TUPLE, DICT, ARRAY, HUGEINT };
struct Val {
    Kind k = NONE;
    Big i = 0;
    double re = 0, im = 0;
    std::string s;
    std::vector<Val> l;
    std::vector<std::pair<Val, Val>> d;
    std::string text() const
    {
        switch (k) {
        case BOOL: return i ? "True" : "False";
        case INT: return big(i);
        case FLOAT: return std::isfinite(re) ? V::fmt("float.fromhex('%a')", re) : V::fmt("float('%g')", re);
        case COMPLEX: return V::fmt("complex(float.fromhex('%a'), float.fromhex('%a'))", re, im);
        case STR: {
            std::string r = "'";
            for (unsigned char c : s)
                r += c == '\'' || c == '\\' ? std::string("\\") + (char)c : c < 32 ? V::fmt("\\x%02x", c) : std::string(1, c);
            return r + "'";
        }
        case BYTES: return "b'" + s + "'";
        case LIST:
        case TUPLE: {
            std::string r = k == LIST ? "[" : "(";
            for (auto& e : l)
                r += e.text() + ",";
            return r + (k == LIST ? "]" : l.empty() ? ")" : ")");
        }
        case DICT: {
            std::string r = "{";
            for (auto& e : d)
                r += e.first.text() + ": " + e.second.text() + ",";
            return r + "}";
        }
        case HUGEINT: return (i < 0 ? "-" : "") + std::string("(1 << 2000)");
        case ARRAY: return "__import__('numpy').array([1.0+2.0j])";
        default: return "None";
        }
    }
};
static Val vi(Big i) { Val v; v.k = INT; v.i = i; return v; }
static Val vb(bool b) { Val v; v.k = BOOL; v.i = b; return v; }
static Val vf(double x) { Val v; v.k = FLOAT; v.re = x; return v; }
static Val vc(double x, double y) { Val v; v.k = COMPLEX; v.re = x, v.im = y; return v; }
static Val vs(const std::string& s) { Val v; v.k = STR; v.s = s; return v; }
static Val vl(std::vector<Val> l, Kind k = LIST) { Val v; v.k = k; v.l = l; return v; }
static Val vd(std::vector<std::pair<Val, Val>> d) { Val v; v.k = DICT; v.d = d; return v; }
enum Want { MUST, MAY, NEVER }; // convertible / either refused or exact / refused
// the expected outcome of reading v as T, and whether the value read is right
template <class T, class = void> struct Spec;
template <class T> struct Spec<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static Want want(const Val& v)
    {
        bool fits = v.i >= (Big)std::numeric_limits<T>::min() && v.i <= (Big)std::numeric_limits<T>::max();
        return v.k == INT ? (fits ? MUST : NEVER) : v.k == BOOL || (v.k == FLOAT && v.re == std::floor(v.re) && std::fabs(v.re) < 1e9) ? MAY : NEVER;
    }
    static bool same(const Val& v, const T& x) { return v.k == FLOAT ? (double)x == v.re : (Big)x == v.i; }
};
template <> struct Spec<bool> {
    static Want want(const Val& v) { return v.k == BOOL ? MUST : v.k == INT && (v.i == 0 || v.i == 1) ? MAY : NEVER; }
    static bool same(const Val& v, bool x) { return x == (bool)v.i; }
};
template <> struct Spec<double> {
    static Want want(const Val& v) { return v.k == FLOAT || v.k == INT ? MUST : v.k == BOOL || (v.k == COMPLEX && v.im == 0) ? MAY : NEVER; }
    static bool same(const Val& v, double x) { double e = v.k == FLOAT || v.k == COMPLEX ? v.re : (double)v.i; return x == e || (x != x && e != e); }
};
template <> struct Spec<float> {
    static Want want(const Val& v) { return (v.k == FLOAT && (!std::isfinite(v.re) || std::fabs(v.re) <= std::numeric_limits<float>::max())) || v.k == INT ? MUST : v.k == FLOAT || v.k == BOOL || (v.k == COMPLEX && v.im == 0) ? MAY : NEVER; }
    static bool same(const Val& v, float x) { double e = v.k == FLOAT || v.k == COMPLEX ? v.re : (double)v.i; return x == (float)e || (x != x && e != e); }
};
template <> struct Spec<Complex> {
    static Want want(const Val& v) { return v.k == COMPLEX ? MUST : v.k == FLOAT || v.k == INT || v.k == BOOL ? MAY : NEVER; }
    static bool same(const Val& v, const Complex& x)
    {
        if (v.k == INT || v.k == BOOL)
            return x.Re == (double)v.i && x.Im == 0;
        return (x.Re == v.re || (x.Re != x.Re && v.re != v.re)) && (x.Im == v.im || (x.Im != x.Im && v.im != v.im));
    }
};
template <> struct Spec<std::string> {
    static Want want(const Val& v) { return v.k == STR ? MUST : v.k == BYTES ? MAY : NEVER; }
    static bool same(const Val& v, const std::string& x) { return x == v.s; }
};
template <> struct Spec<spin> {
    static Want want(const Val& v) { return v.k == INT && (v.i == 0 || v.i == 1) ? MUST : v.k == BOOL ? MAY : v.k == INT && v.i >= INT_MIN && v.i <= INT_MAX ? MAY : NEVER; }
    static bool same(const Val& v, spin x) { return (Big)(int)x == v.i; }
};
template <> struct Spec<Momentum> {
    static Want want(const Val& v) { return Spec<int>::want(v); }
    static bool same(const Val& v, Momentum x) { return Spec<int>::same(v, x.K); }
};
template <class C, class T> struct SeqSpec {
    static Want want(const Val& v)
    {
        if (v.k != LIST)
            return v.k == TUPLE || v.k == ARRAY ? MAY : NEVER;
        Want w = MUST;
        for (auto& e : v.l)
            w = std::max(w, Spec<T>::want(e));
        return w;
    }
    static bool same(const Val& v, const C& x)
    {
        if (v.k == ARRAY)
            return true;
        if (v.l.size() != x.size())
            return false;
        auto it = x.begin();
        for (auto& e : v.l)
            if (!Spec<T>::same(e, *it++))
                return false;
        return true;
    }
};
template <class T> struct Spec<std::vector<T>> : SeqSpec<std::vector<T>, T> {};
template <class T> struct Spec<std::list<T>> : SeqSpec<std::list<T>, T> {};
template <class T> struct Spec<Vec<T>> : SeqSpec<Vec<T>, T> {
    static Want want(const Val& v) { return v.k == LIST && v.l.size() == D ? SeqSpec<Vec<T>, T>::want(v) : v.k == TUPLE || v.k == ARRAY ? MAY : NEVER; }
};
template <class T> struct Spec<std::map<std::string, T>> {
    static Want want(const Val& v)
    {
        if (v.k != DICT)
            return NEVER;
        Want w = MUST;
        for (auto& e : v.d)
            w = std::max(w, std::max(Spec<std::string>::want(e.first), Spec<T>::want(e.second)));
        return w;
    }
    static bool same(const Val& v, const std::map<std::string, T>& x)
    {
        if (v.d.size() != x.size())
            return false;
        for (auto& e : v.d)
            if (!x.count(e.first.s) || !Spec<T>::same(e.second, x.at(e.first.s)))
                return false;
        return true;
    }
};
template <class A, class B> struct Spec<std::tuple<A, B>> {
    static Want want(const Val& v) { return v.k != TUPLE || v.l.size() != 2 ? (v.k == LIST ? MAY : NEVER) : std::max(Spec<A>::want(v.l[0]), Spec<B>::want(v.l[1])); }
    static bool same(const Val& v, const std::tuple<A, B>& x) { return v.l.size() == 2 && Spec<A>::same(v.l[0], std::get<0>(x)) && Spec<B>::same(v.l[1], std::get<1>(x)); }
};
template <class A, class B, class C> struct Spec<std::tuple<A, B, C>> {
    static Want want(const Val& v) { return v.k != TUPLE || v.l.size() != 3 ? (v.k == LIST ? MAY : NEVER) : std::max(Spec<A>::want(v.l[0]), std::max(Spec<B>::want(v.l[1]), Spec<C>::want(v.l[2]))); }
    static bool same(const Val& v, const std::tuple<A, B, C>& x) { return v.l.size() == 3 && Spec<A>::same(v.l[0], std::get<0>(x)) && Spec<B>::same(v.l[1], std::get<1>(x)) && Spec<C>::same(v.l[2], std::get<2>(x)); }
};
// prior: what the target holds before
template <class T> static void readAs(const Val& v, const char* name, const std::vector<T>& priors)
{
    Object o = eval(v.text());
    long ref = o.RefCount();
    Want w = Spec<T>::want(v);
    snprintf(V::crash_ctx(), 4096, "reading %s as %s", v.text().substr(0, 300).c_str(), name);
    V::beat()++;
    for (size_t p = 0; p < priors.size(); p++) {
        T x = priors[p];
        bool ok = false;
        V::in_code() = true;
        try {
            ok = Convert(o, x);
        } catch (std::exception&) {
            ok = false;
        }
        V::in_code() = false;
        cases++, refused += !ok;
        std::string at = v.text().substr(0, 300) + " read as " + name + (p ? " into a variable with another value" : "");
        if (PyErr_Occurred()) {
            PyErr_Clear();
            bad("pending", at + ": an error stays behind in the interpreter");
        }
        if (ok && w == NEVER)
            bad("altered", at + ": accepted, though it is not such a value");
        else if (ok && !Spec<T>::same(v, x))
            bad("altered", at + ": another value is read");
        else if (!ok && w == MUST)
            bad("refused", at + ": refused");
    }
    if (o.RefCount() != ref)
        bad("reference", v.text().substr(0, 300) + " read as " + name + V::fmt(": %ld references, %ld before", o.RefCount(), ref));
    if (V::nviol())
        return;
    for (int round = 0; round < 3; round++) {
        long b = blocks();
        for (int i = 0; i < 100; i++) {
            T x = priors[0];
            try {
                Convert(o, x);
            } catch (std::exception&) {
            }
            PyErr_Clear();
        }
        if (blocks() - b < 50)
            return;
    }
    bad("leak", v.text().substr(0, 300) + " read as " + name + ": objects are left behind at each reading");
}
// C++ -> Python -> C++
template <class T, class Eq> static void writeRead(const T& x, const Val& v, const char* name, Eq same)
{
    snprintf(V::crash_ctx(), 4096, "writing %s of type %s", v.text().substr(0, 300).c_str(), name);
    V::beat()++;
    V::in_code() = true;
    cases++;
    try {
        AnyObject a = x;
        V::in_code() = false;
        Object e = eval(v.text());
        int eq = PyObject_RichCompareBool(a.Get(), e.Get(), Py_EQ);
        bool nan = v.k == FLOAT && v.re != v.re;
        if (!nan && (eq != 1 || Py_TYPE(a.Get()) != Py_TYPE(e.Get())))
            bad("written", V::fmt("%s %s becomes ", name, v.text().substr(0, 200).c_str()) + repr(a.Get()).substr(0, 200));
        V::in_code() = true;
        T y = a.As<T>();
        if (!same(x, y))
            bad("roundtrip", V::fmt("%s %s is read back differently", name, v.text().substr(0, 200).c_str()));
        // through a dictionary, a copy of it and an update
        Dictionary d, c;
        d["key"] = x;
        c = d;
        Dictionary u;
        u["key"] = 5, u["other"] = 6;
        u.Update(c);
        d.Clear();
        if (!d.IsEmpty() || !same(x, c.Get<T>("key")) || !same(x, u.Get<T>("key")) || u.Get<int>("other") != 6)
            bad("roundtrip", V::fmt("%s %s is read back differently from a dictionary", name, v.text().substr(0, 200).c_str()));
        T z = T(), z2 = T();
        u.Get("key", z);
        GET_WITH_DEFAULT(u, z2, x);
        if (!same(x, z) || !same(x, z2))
            bad("roundtrip", V::fmt("%s %s is read back differently by Get", name, v.text().substr(0, 200).c_str()));
        V::in_code() = false;
        if (V::nviol())
            return;
        for (int round = 0; round < 3; round++) {
            long b = blocks();
            for (int i = 0; i < 100; i++) {
                AnyObject a = x;
                a = x;
                Dictionary d;
                d["k"] = x;
                Dictionary e = d;
                e["k"] = x;
            }
            if (blocks() - b < 50)
                return;
        }
        bad("leak", V::fmt("%s %s: objects are left behind at each writing", name, v.text().substr(0, 200).c_str()));
    } catch (std::exception& e) {
        V::in_code() = false;
        bad("roundtrip", V::fmt("%s %s: %s", name, v.text().substr(0, 200).c_str(), e.what()));
    }
}
static auto eq = [](const auto& a, const auto& b) { return a == b; };
template <class T> static void integers(const char* name, const std::vector<Big>& is)
{
    for (Big i : is)
        if (i >= (Big)std::numeric_limits<T>::min() && i <= (Big)std::numeric_limits<T>::max())
            writeRead<T>((T)i, vi(i), name, eq);
}
static void values()
{
    std::vector<Big> is;
    for (int k = 0; k <= 66; k++)
        for (int d = -2; d <= 2; d++)
            is.push_back(((Big)1 << k) + d), is.push_back(-(((Big)1 << k) + d));
    std::sort(is.begin(), is.end());
    is.erase(std::unique(is.begin(), is.end()), is.end());
    std::vector<Val> vals, scal;
    for (Big i : is)
        scal.push_back(vi(i));
    for (double x : { 0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e300, 1e39, 3.4028234663852886e38, 1e-46, 0.1, 2147483648.0, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0 })
        scal.push_back(vf(x));
    for (double x : { 0.0, 1.0, -2.5, 1e300, 1.0 / 0.0 })
        for (double y : { 0.0, 1.0, -2.5 })
            if (std::isfinite(x))
                scal.push_back(vc(x, y));
    scal.push_back(vb(true)), scal.push_back(vb(false)), scal.push_back(Val());
    for (auto s : { "", "a", "1", "True", "it's", "back\\slash", "two words", "line\nbreak", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac" })
        scal.push_back(vs(s));
    {
        Val b;
        b.k = BYTES, b.s = "raw";
        scal.push_back(b);
        Val a;
        a.k = ARRAY;
        scal.push_back(a);
        a.k = HUGEINT;
        scal.push_back(a);
        a.i = -1;
        scal.push_back(a);
    }
    vals = scal;
    std::vector<Val> small = { vi(0), vi(1), vi(-1), vi((Big)1 << 31), vi((Big)1 << 40), vi((Big)1 << 64), vf(0.5), vb(true), vs("x"), vc(1, 2), Val() };
    vals.push_back(vl({})), vals.push_back(vl({}, TUPLE)), vals.push_back(vd({}));
    for (auto& a : small) {
        vals.push_back(vl({ a })), vals.push_back(vl({ a }, TUPLE)), vals.push_back(vd({ { vs("a"), a } })), vals.push_back(vd({ { a, vi(1) } }));
        for (auto& b : small) {
            vals.push_back(vl({ a, b })), vals.push_back(vl({ a, b }, TUPLE)), vals.push_back(vd({ { vs("a"), a }, { vs("b"), b } })), vals.push_back(vl({ vl({ a, b }), vl({ b }) })), vals.push_back(vd({ { vs("a"), vl({ a, b }) } })), vals.push_back(vl({ vl({ a, b }, TUPLE) }));
            for (auto& c : small)
                vals.push_back(vl({ a, b, c })), vals.push_back(vl({ a, b, c }, TUPLE));
        }
    }
    if (V::argi("long", 0))
        for (auto& a : small)
            for (auto& b : small)
                for (auto& c : small)
                    for (auto& d : small)
                        vals.push_back(vl({ a, b, c, d })), vals.push_back(vl({ vl({ a, b }), vl({ c, d }) })), vals.push_back(vd({ { vs("a"), vl({ a, b }) }, { c, d } })), vals.push_back(vl({ vl({ a, b }, TUPLE), vl({ c, d }, TUPLE) }, TUPLE)), vals.push_back(vd({ { vs("a"), vd({ { vs("x"), a } }) }, { b, vl({ c, d }) } }));
    long shard = V::argi("shard", 0), shards = V::argi("shards", 1), n = 0;
    for (auto& v : vals) {
        if (n++ % shards != shard)
            continue;
        states++;
        readAs<int>(v, "int", { 0, 77 }), readAs<unsigned>(v, "unsigned int", { 0, 77 }), readAs<long>(v, "long", { 0, 77 }), readAs<unsigned long>(v, "unsigned long", { 0, 77 }), readAs<long long>(v, "long long", { 0, 77 }), readAs<unsigned long long>(v, "unsigned long long", { 0, 77 });
        readAs<double>(v, "double", { 0, 7.5 }), readAs<float>(v, "float", { 0, 7.5f }), readAs<bool>(v, "bool", { false, true }), readAs<Complex>(v, "Complex", { Complex(0, 0), Complex(3, 4) }), readAs<std::string>(v, "string", { "", "before" });
        readAs<spin>(v, "spin", { DOWN, UP }), readAs<Momentum>(v, "Momentum", { Momentum(0), Momentum(3) });
        readAs<std::vector<int>>(v, "vector<int>", { {}, { 7, 8 } }), readAs<std::vector<unsigned>>(v, "vector<unsigned>", { {}, { 7 } }), readAs<std::vector<double>>(v, "vector<double>", { {}, { 7 } }), readAs<std::vector<std::string>>(v, "vector<string>", { {}, { "b" } }), readAs<std::list<long>>(v, "list<long>", { {}, { 7 } }), readAs<std::vector<std::vector<int>>>(v, "vector<vector<int>>", { {}, { { 1 } } }), readAs<std::vector<Complex>>(v, "vector<Complex>", { {}, { Complex(1, 1) } });
        readAs<Vec<int>>(v, "Vec<int>", { Vec<int>(0), Vec<int>(5) }), readAs<Vec<double>>(v, "Vec<real>", { Vec<double>(0.0), Vec<double>(5.0) });
        readAs<std::map<std::string, int>>(v, "map<string,int>", { {}, { { "a", 9 }, { "z", 9 } } }), readAs<std::map<std::string, double>>(v, "map<string,real>", { {} }), readAs<std::map<std::string, std::vector<int>>>(v, "map<string,vector<int>>", { {} });
        readAs<std::tuple<int, double>>(v, "tuple<int,real>", { {}, std::make_tuple(7, 7.5) }), readAs<std::tuple<double, std::string>>(v, "tuple<real,string>", { {} }), readAs<std::tuple<int, std::string, bool>>(v, "tuple<int,string,bool>", { {} }), readAs<std::tuple<int, int, int>>(v, "tuple<int,int,int>", { {} });
        if (V::nviol() > 6)
            return;
    }
    if (shard)
        return;
    integers<int>("int", is), integers<unsigned>("unsigned int", is), integers<long>("long", is), integers<unsigned long>("unsigned long", is), integers<long long>("long long", is), integers<unsigned long long>("unsigned long long", is);
    for (auto& v : scal) {
        if (v.k == FLOAT && v.re == v.re) {
            writeRead<double>(v.re, v, "double", eq);
            writeRead<float>((float)v.re, vf((float)v.re), "float", eq);
        }
        if (v.k == STR)
            writeRead<std::string>(v.s, v, "string", eq);
        if (v.k == COMPLEX)
            writeRead<Complex>(Complex(v.re, v.im), v, "Complex", [](const Complex& a, const Complex& b) { return a.Re == b.Re && a.Im == b.Im; });
    }
    writeRead<bool>(true, vb(true), "bool", eq), writeRead<bool>(false, vb(false), "bool", eq);
    writeRead<spin>(UP, vi(1), "spin", eq), writeRead<spin>(DOWN, vi(0), "spin", eq);
    for (int k : { 0, 1, -1, 9999, -9999 })
        writeRead<Momentum>(Momentum(k), vi(k), "Momentum", [](Momentum a, Momentum b) { return a.K == b.K; });
    std::vector<int> el = { 0, -1, 2147483647, (int)-2147483648LL };
    for (int len = 0; len <= 4; len++) {
        long total = 1;
        for (int i = 0; i < len; i++)
            total *= el.size();
        for (long a = 0; a < total; a++) {
            std::vector<int> x;
            std::vector<Val> l;
            std::vector<double> y;
            std::vector<std::string> s;
            std::vector<Val> ly, ls;
            std::map<std::string, int> m;
            std::vector<std::pair<Val, Val>> lm;
            for (long b = a, i = 0; i < len; i++, b /= el.size()) {
                int e = el[b % el.size()];
                x.push_back(e), l.push_back(vi(e)), y.push_back(e / 3.0), ly.push_back(vf(e / 3.0)), s.push_back(V::fmt("s%d", e)), ls.push_back(vs(s.back())), m[V::fmt("k%ld", i)] = e, lm.push_back({ vs(V::fmt("k%ld", i)), vi(e) });
            }
            writeRead<std::vector<int>>(x, vl(l), "vector<int>", eq), writeRead<std::list<int>>(std::list<int>(x.begin(), x.end()), vl(l), "list<int>", eq), writeRead<std::vector<double>>(y, vl(ly), "vector<real>", eq), writeRead<std::vector<std::string>>(s, vl(ls), "vector<string>", eq), writeRead<std::map<std::string, int>>(m, vd(lm), "map<string,int>", eq);
            if (len == D) {
                Vec<int> v;
                Vec<double> w;
                for (int i = 0; i < D; i++)
                    v[i] = x[i], w[i] = y[i];
                auto ve = [](const auto& a, const auto& b) { bool r = true; for (int i = 0; i < D; i++) r &= a[i] == b[i]; return r; };
                writeRead<Vec<int>>(v, vl(l), "Vec<int>", ve), writeRead<Vec<double>>(w, vl(ly), "Vec<real>", ve);
            }
        }
    }
}
// ---- arrays ---------------------------------------------------------------------------------------------------------
template <class T> static bool throwsData(Object o)
{
    try {
        ArrayObject a(o);
        a.Data<T>();
        return false;
    } catch (std::exception&) {
        PyErr_Clear();
        return true;
    }
}
static void arrays()
{
    std::vector<std::vector<uint>> shapes;
    int maxdim = V::argi("dims", 5);
    std::function<void(std::vector<uint>)> build = [&](std::vector<uint> s) {
        if (!s.empty())
            shapes.push_back(s);
        if ((int)s.size() < maxdim)
            for (uint n : { 1u, 2u, 3u }) {
                auto t = s;
                t.push_back(n);
                build(t);
            }
    };
    build({});
    for (auto& s : shapes) {
        V::beat()++;
        states++;
        uint n = 1;
        std::string sh;
        for (uint x : s)
            n *= x, sh += V::fmt("%u,", x);
        snprintf(V::crash_ctx(), 4096, "array of shape %s", sh.c_str());
        std::vector<Complex> c(n);
        std::vector<double> r(n);
        for (uint i = 0; i < n; i++)
            c[i] = Complex(i + 0.5, -(double)i), r[i] = i + 0.25;
        std::string bad_;
        V::in_code() = true;
        try {
            for (int way = 0; way < 2; way++) {
                ArrayObject a = way ? ArrayObject(c.data(), s.data(), (int)s.size()) : ArrayObject(c.data(), s, (int)s.size()), b = way ? ArrayObject(r.data(), s.data(), (int)s.size()) : ArrayObject(r.data(), s, (int)s.size());
                cases++;
                if (a.Dim() != (int)s.size() || a.Shape() != s || a.Size() != n || b.Dim() != (int)s.size() || b.Shape() != s || b.Size() != n)
                    bad_ = "shape is not kept";
                for (uint i = 0; i < n; i++)
                    if (a.Data<Complex>()[i].Re != c[i].Re || a.Data<Complex>()[i].Im != c[i].Im || b.Data<real>()[i] != r[i])
                        bad_ = "values are not kept";
                PyObject* t = PyObject_CallMethod(a.Get(), "tolist", nullptr);
                PyObject* e = PyList_New(0);
                // row-major nested list
                std::function<PyObject*(size_t, uint&)> nest = [&](size_t d, uint& k) -> PyObject* {
                    if (d == s.size()) {
                        PyObject* x = PyComplex_FromDoubles(c[k].Re, c[k].Im);
                        k++;
                        return x;
                    }
                    PyObject* l = PyList_New(s[d]);
                    for (uint i = 0; i < s[d]; i++)
                        PyList_SetItem(l, i, nest(d + 1, k));
                    return l;
                };
                Py_DECREF(e);
                uint k = 0;
                e = nest(0, k);
                if (PyObject_RichCompareBool(t, e, Py_EQ) != 1)
                    bad_ = "Python sees " + repr(t).substr(0, 120);
                Py_DECREF(t), Py_DECREF(e);
                // through a dictionary
                Dictionary d;
                d["a"] = a, d["b"] = b;
                auto x = d.Get<ArrayObject>("a");
                if (x.Shape() != s || x.Data<Complex>()[n - 1].Re != c[n - 1].Re || d.Get<ArrayObject>("b").Data<real>()[n - 1] != r[n - 1])
                    bad_ = "differs after a dictionary";
            }
        } catch (std::exception& e) {
            bad_ = e.what();
        }
        V::in_code() = false;
        if (!bad_.empty())
            bad("array", "array of shape " + sh + ": " + bad_);
    }
    // layouts: what Python means is what is read, in C order
    std::vector<std::string> base;
    for (auto sh : { "(3,)", "(2,3)", "(3,2,2)", "(2,1,3,2)", "(2,2,2,2,2)" }) {
        std::string b = std::string("np.arange(np.prod(") + sh + ")).reshape(" + sh + ")";
        int dim = std::count(sh, sh + strlen(sh), ',') + (strcmp(sh, "(3,)") ? 1 : 0);
        base.push_back(b);
        std::vector<int> p;
        for (int i = 0; i < dim; i++)
            p.push_back(i);
        do {
            std::string q;
            for (int i : p)
                q += V::fmt("%d,", i);
            base.push_back("np.transpose(" + b + ",(" + q + "))");
        } while (std::next_permutation(p.begin(), p.end()));
        for (long m = 0; m < (long)std::pow(4, dim); m++) {
            std::string q;
            for (long x = m, i = 0; i < dim; i++, x /= 4)
                q += std::string(i ? "," : "") + (const char*[]){ ":", "::-1", "::2", "1:" }[x % 4];
            base.push_back("(" + b + ")[" + q + "]");
        }
        base.push_back("np.asfortranarray(" + b + ")");
    }
    PyRun_SimpleString("import numpy as np");
    for (auto& s : base)
        for (int type = 0; type < 2; type++) {
            std::string script = type ? "(" + s + ")*(1+0.5j)" : "(" + s + ")*1.0";
            // keep the layout: convert before indexing
            std::string keep = s;
            size_t p = 0;
            while ((p = keep.find("np.arange(", p)) != std::string::npos) {
                size_t q = keep.find(").reshape", p);
                keep.replace(p, q - p, "(" + keep.substr(p, q - p) + ")*" + (type ? "(1+0.5j)" : "1.0"));
                p += 20;
            }
            Object o = eval(keep);
            Object flat = eval("(" + keep + ").ravel(order='C').tolist()");
            snprintf(V::crash_ctx(), 4096, "array %s", keep.c_str());
            V::beat()++;
            cases++, states++;
            V::in_code() = true;
            std::string bad_;
            long ref = o.RefCount();
            try {
                ArrayObject a(o);
                ArrayObject b;
                if (!Convert(o, b))
                    bad_ = "refused";
                ArrayObject e(o.Get(NewRef), NewRef), f(o.Get(), NoRef);
                for (ArrayObject* x : { &a, &b, &e, &f }) {
                    if (x->Size() != (uint)PyList_Size(flat.Get()))
                        bad_ = "size";
                    for (uint i = 0; bad_.empty() && i < x->Size(); i++) {
                        PyObject* v = PyList_GetItem(flat.Get(), i);
                        if (type ? x->Data<Complex>()[i].Re != PyComplex_RealAsDouble(v) || x->Data<Complex>()[i].Im != PyComplex_ImagAsDouble(v) : x->Data<real>()[i] != PyFloat_AsDouble(v))
                            bad_ = V::fmt("element %u", i);
                    }
                }
            } catch (std::exception& e) {
                bad_ = e.what();
            }
            V::in_code() = false;
            if (bad_.empty() && o.RefCount() != ref)
                bad_ = V::fmt("%ld references, %ld before", o.RefCount(), ref);
            if (!bad_.empty())
                bad("layout", keep + ": " + bad_);
        }
    // element types
    for (auto t : { "complex128", "complex64", "float64", "float32", "int64", "int32", "int8", "bool", "uint64", "object", "S4", "float16" })
        for (auto v : { "[1,2,3]", "[[1,2],[3,4]]" }) {
            Object o = eval(std::string("np.array(") + v + ",dtype='" + t + "')");
            V::beat()++;
            cases++;
            std::string n = t;
            snprintf(V::crash_ctx(), 4096, "array of %s", t);
            V::in_code() = true;
            bool c = throwsData<Complex>(o), r = throwsData<real>(o), i = throwsData<int>(o);
            V::in_code() = false;
            if ((n == "complex128" && c) || (n == "float64" && r) || (n == "int32" && i))
                bad("type", "array of " + n + ": refused as that type");
            if (n != "complex128" && !c)
                bad("type", "the elements of an array of " + n + " are read as Complex");
            if (n != "float64" && !r)
                bad("type", "the elements of an array of " + n + " are read as real");
            if (n != "int32" && !i)
                bad("type", "the elements of an array of " + n + " are read as int");
        }
    for (auto v : { "1", "[1.0]", "None", "'x'", "np.float64(1)", "{}" }) {
        Object o = eval(v);
        ArrayObject b;
        cases++;
        bool conv = false, thrown = false;
        try {
            conv = Convert(o, b);
        } catch (std::exception&) {
        }
        try {
            ArrayObject a(o);
        } catch (std::exception&) {
            thrown = true;
        }
        PyErr_Clear();
        if (conv || !thrown)
            bad("type", std::string(v) + " is taken for an array");
    }
}
// ---- calls and errors ------------------------------------------------------------------------------------------------
template <class E> static bool throwsExactly(ModuleObject& m, const std::string& f)
{
    try {
        m.CallFunction(f);
    } catch (E& e) {
        return typeid(e) == typeid(E);
    } catch (...) {
    }
    return false;
}
static void calls()
{
    mkdir("deep", 0755);
    std::string text = "import sys\ncount=[0]\n"
                       "def f0():\n  return 'none'\n"
                       "def fn(*a):\n  return repr(a)\n"
                       "def io():\n  open('/nonexistent/x')\n"
                       "def key():\n  return {}['a']\n"
                       "def index():\n  return [][3]\n"
                       "def memory():\n  raise MemoryError('m')\n"
                       "def value():\n  raise ValueError('v')\n"
                       "def stop():\n  raise StopIteration\n"
                       "def zero():\n  return 1/0\n"
                       "number=5\n";
    for (auto f : { "verif_mod.py", "deep/verif_mod2.py" })
        std::ofstream(f) << text;
    std::ofstream("verif_broken.py") << "def (:\n";
    std::ofstream("verif_raise.py") << "raise KeyError('at import')\n";
    for (auto path : { "verif_mod.py", "verif_mod", "./verif_mod.py", "deep/verif_mod2.py", "deep/verif_mod2" }) {
        V::in_code() = true;
        try {
            ModuleObject m;
            m.LoadModule(path);
            states++;
            Object r = m.CallFunction("f0");
            if (repr(r.Get()) != "'none'")
                bad("call", std::string(path) + ": result " + repr(r.Get()));
            // arguments in order, with their types
            auto want = [&](Object r, const std::string& w) { cases++; if (repr(r.Get()) != "\"" + w + "\"" && repr(r.Get()) != "'" + w + "'") bad("call", "arguments arrive as " + repr(r.Get()) + " instead of " + w); };
            want(m.CallFunction("fn", 1), "(1,)");
            want(m.CallFunction("fn", 1, 2.5), "(1, 2.5)");
            want(m.CallFunction("fn", true, 2u, -3L), "(True, 2, -3)");
            want(m.CallFunction("fn", std::vector<int>{ 1, 2 }, 2, std::vector<double>{}, false), "([1, 2], 2, [], False)");
            Object a = eval("[1.5]");
            long ref = a.RefCount();
            for (int i = 0; i < 50; i++) {
                m.CallFunction("fn", a, 1);
                m.CallFunction("fn", 1, a);
                m.CallFunction("fn", a);
            }
            if (a.RefCount() != ref)
                bad("reference", V::fmt("an object passed to calls has %ld references, %ld before", a.RefCount(), ref));
            // every sequence of two failing or working calls
            struct F { const char* n; std::function<bool()> good; };
            std::vector<F> fs = { { "io", [&] { return throwsExactly<IOInvalid>(m, "io"); } }, { "key", [&] { return throwsExactly<KeyInvalid>(m, "key"); } }, { "index", [&] { return throwsExactly<IndexInvalid>(m, "index"); } }, { "memory", [&] { return throwsExactly<MemoryException>(m, "memory"); } },
                { "value", [&] { return throwsExactly<RunTimeException>(m, "value"); } }, { "stop", [&] { return throwsExactly<RunTimeException>(m, "stop"); } }, { "zero", [&] { return throwsExactly<RunTimeException>(m, "zero"); } }, { "number", [&] { return throwsExactly<RunTimeException>(m, "number"); } },
                { "absent", [&] { try { m.CallFunction("absent"); } catch (std::exception&) { return true; } return false; } },
                { "f0", [&] { return repr(m.CallFunction("f0").Get()) == "'none'"; } },
                { "fn", [&] { return repr(m.CallFunction("fn", 4).Get()) == "'(4,)'"; } },
                { "has", [&] { return m.HasAttr("number") && m.HasAttr("f0") && !m.HasAttr("absent"); } },
                { "load", [&] { ModuleObject n; try { n.LoadModule("verif_absent.py"); } catch (std::exception&) { return true; } return false; } },
                { "broken", [&] { ModuleObject n; try { n.LoadModule("verif_broken.py"); } catch (std::exception&) { return true; } return false; } },
                { "raise", [&] { ModuleObject n; try { n.LoadModule("verif_raise.py"); } catch (KeyInvalid&) { return true; } return false; } },
                { "eval", [&] { AnyObject o; o.EvalScript("[1, 2]"); return repr(o.Get()) == "[1, 2]"; } },
                { "evalbad", [&] { AnyObject o; try { o.EvalScript("1 +"); } catch (std::exception&) { return true; } return false; } },
                { "evalkey", [&] { AnyObject o; try { o.EvalScript("{}['a']"); } catch (KeyInvalid&) { return true; } return false; } } };
            for (auto& x : fs)
                for (auto& y : fs) {
                    snprintf(V::crash_ctx(), 4096, "calls %s, %s of %s", x.n, y.n, path);
                    V::beat()++;
                    for (auto f : { &x, &y }) {
                        trans++;
                        bool g = false;
                        try {
                            g = f->good();
                        } catch (std::exception& e) {
                        }
                        if (!g || PyErr_Occurred()) {
                            PyErr_Clear();
                            bad("call", V::fmt("%s: %s then %s: %s does not end as it should", path, x.n, y.n, f->n));
                        }
                    }
                }
        } catch (std::exception& e) {
            bad("call", std::string(path) + ": " + e.what());
        }
        V::in_code() = false;
    }
}
// ---- dictionaries ------------------------------------------------------------------------------------------------------
struct Node;
typedef std::map<std::string, Node> Tree;
struct Node {
    std::string leaf; // repr of a value, or
    std::shared_ptr<Tree> tree;
    std::string text() const;
};
static std::string show(const Tree& t)
{
    std::string s = "{";
    for (auto& e : t)
        s += (s.size() > 1 ? ", '" : "'") + e.first + "': " + e.second.text();
    return s + "}";
}
std::string Node::text() const { return tree ? show(*tree) : leaf; }
static Tree deep(const Tree& t)
{
    Tree r;
    for (auto& e : t) {
        r[e.first] = e.second;
        if (e.second.tree)
            r[e.first].tree = std::make_shared<Tree>(deep(*e.second.tree));
    }
    return r;
}
struct Pair {
    Dictionary d[2];
};
struct ModelPair {
    Tree t[2];
};
struct Op {
    std::string name;
    std::function<bool(Pair&)> real; // false: refused
    std::function<bool(ModelPair&)> model;
};
static Node leafOf(const std::string& s)
{
    Node n;
    n.leaf = s;
    return n;
}
template <class F> static bool attempt(F f)
{
    try {
        f();
        return true;
    } catch (std::exception&) {
        return false;
    }
}
static void dictionaries()
{
    std::ofstream("IO.py") << "def SaveDict(f, mode, root):\n  open(f + '.txt', mode).write(repr(root))\ndef LoadDict(f):\n  return eval(open(f + '.txt').read())\ndef SaveBigDict(f, root):\n  open(f + '.hkl', 'w').write(repr(root))\ndef LoadBigDict(f):\n  return eval(open(f + '.hkl').read())\n";
    static Object sentinel = eval("['a list of its own']");
    long base = sentinel.RefCount();
    std::vector<Op> ops;
    std::vector<std::string> keys = { "a", "b" };
    for (int i = 0; i < 2; i++) {
        std::string D_ = i ? "B" : "A", O_ = i ? "A" : "B";
        int o = 1 - i;
        for (auto& k : keys) {
            ops.push_back({ D_ + "[" + k + "]=3", [=](Pair& p) { p.d[i][k] = 3; return true; }, [=](ModelPair& m) { m.t[i][k] = leafOf("3"); return true; } });
            ops.push_back({ D_ + "[" + k + "]='it''s'", [=](Pair& p) { p.d[i][k] = std::string("it's"); return true; }, [=](ModelPair& m) { m.t[i][k] = leafOf("\"it's\""); return true; } });
            ops.push_back({ D_ + "[" + k + "]=list", [=](Pair& p) { p.d[i][k] = Object(sentinel); return true; }, [=](ModelPair& m) { m.t[i][k] = leafOf("['a list of its own']"); return true; } });
            ops.push_back({ D_ + "[" + k + "]=" + O_, [=](Pair& p) { p.d[i][k] = p.d[o]; return true; }, [=](ModelPair& m) { Node n; n.tree = std::make_shared<Tree>(deep(m.t[o])); m.t[i][k] = n; return true; } });
            ops.push_back({ O_ + "=" + D_ + ".Get(" + k + ")", [=](Pair& p) { return attempt([&] { p.d[o] = p.d[i].Get<Dictionary>(k); }); }, [=](ModelPair& m) { if (!m.t[i].count(k) || !m.t[i][k].tree) return false; Tree t = deep(*m.t[i][k].tree); m.t[o] = t; return true; } });
            ops.push_back({ D_ + ".Get(" + k + "," + O_ + ") nested change", [=](Pair& p) { return attempt([&] { auto n = p.d[i].Get<Dictionary>(k); n["a"] = 9; n.Clear(); }); }, [=](ModelPair& m) { return m.t[i].count(k) && m.t[i][k].tree; } });
            if (!i)
                ops.push_back({ D_ + ".Get<int>(" + k + ")", [=](Pair& p) { return attempt([&] { int n = p.d[i].Get<int>(k); if (V::fmt("%d", n) != repr(p.d[i][k].Get())) V::viol(P, "get", "another number is read"); }); }, [=](ModelPair& m) { return m.t[i].count(k) && !m.t[i][k].tree && m.t[i][k].leaf.size() == 1; } });
            ops.push_back({ D_ + "=Dictionary(" + k + ",7)", [=](Pair& p) { p.d[i] = Dictionary(k, 7); return true; }, [=](ModelPair& m) { m.t[i] = Tree(); m.t[i][k] = leafOf("7"); return true; } });
            // the same key from another entry
            ops.push_back({ D_ + "[" + k + "]=" + O_ + "[" + k + "]", [=](Pair& p) { if (!p.d[o].HasKey(k)) return false; p.d[i][k] = p.d[o][k]; return true; }, [=](ModelPair& m) { if (!m.t[o].count(k)) return false; Node n = m.t[o][k]; if (n.tree) n.tree = std::make_shared<Tree>(deep(*n.tree)); m.t[i][k] = n; return true; } });
        }
        ops.push_back({ D_ + "=" + O_, [=](Pair& p) { p.d[i] = p.d[o]; return true; }, [=](ModelPair& m) { m.t[i] = deep(m.t[o]); return true; } });
        ops.push_back({ D_ + ".Update(" + O_ + ")", [=](Pair& p) { p.d[i].Update(p.d[o]); return true; }, [=](ModelPair& m) { for (auto& e : deep(m.t[o])) m.t[i][e.first] = e.second; return true; } });
        ops.push_back({ D_ + ".Clear()", [=](Pair& p) { p.d[i].Clear(); return true; }, [=](ModelPair& m) { m.t[i].clear(); return true; } });
        ops.push_back({ D_ + ".LoadFromString(" + O_ + ")", [=](Pair& p) { return attempt([&] { p.d[i].LoadFromString(p.d[o].PrettyString()); }); }, [=](ModelPair& m) { m.t[i] = deep(m.t[o]); return true; } });
        ops.push_back({ D_ + ".LoadFromString('[1]')", [=](Pair& p) { return attempt([&] { p.d[i].LoadFromString("[1]"); }); }, [=](ModelPair&) { return false; } });
        ops.push_back({ D_ + "={b: 5, nested}", [=](Pair& p) { return attempt([&] { p.d[i].LoadFromString("{'b': 5, 'a': {'b': [1, 2.5]}}"); }); }, [=](ModelPair& m) { m.t[i] = Tree(); m.t[i]["b"] = leafOf("5"); Node n; n.tree = std::make_shared<Tree>(); (*n.tree)["b"] = leafOf("[1, 2.5]"); m.t[i]["a"] = n; return true; } });
        if (!i) {
            ops.push_back({ "A saved, B loaded", [=](Pair& p) { return attempt([&] { p.d[0].Save("verif_d", "w"); p.d[1].Load("verif_d"); }); }, [=](ModelPair& m) { m.t[1] = deep(m.t[0]); return true; } });
            ops.push_back({ "A bigsaved, B loaded", [=](Pair& p) { return attempt([&] { p.d[0].BigSave("verif_d"); p.d[1].BigLoad("verif_d"); }); }, [=](ModelPair& m) { m.t[1] = deep(m.t[0]); return true; } });
            ops.push_back({ "A loads a missing file", [=](Pair& p) { try { p.d[0].Load("verif_missing"); } catch (IOInvalid&) { return false; } catch (std::exception&) { V::viol(P, "get", "a missing file is not reported as such"); return false; } return true; }, [=](ModelPair&) { return false; } });
        }
    }
    struct St {
        std::vector<short> path;
    };
    std::map<std::string, int> seen;
    std::vector<std::vector<short>> layer = { {} };
    seen["{}|{}"] = 0;
    int depth = V::argi("depth", 4);
    size_t cap = 400;
    bool all = V::argi("all", 0); // also the histories which lead to contents already seen
    long shard = V::argi("shard", 0), shards = V::argi("shards", 1);
    for (int d = 0; d < depth; d++) {
        std::vector<std::vector<short>> next;
        for (size_t si = 0; si < layer.size(); si++) {
            auto& path = layer[si];
            states++;
            for (size_t k = 0; k < ops.size(); k++) {
                if (d == depth - 1 && (long)((si * ops.size() + k) % shards) != shard)
                    continue;
                V::beat()++;
                trans++;
                auto full = path;
                full.push_back((short)k);
                std::string h;
                for (short x : full)
                    h += (h.empty() ? "" : "; ") + ops[x].name;
                snprintf(V::crash_ctx(), 4096, "%s", h.c_str());
                ModelPair m;
                std::string got[2];
                V::in_code() = true;
                {
                    Pair p;
                    for (size_t j = 0; j < full.size(); j++) {
                        bool r = ops[full[j]].real(p), e = ops[full[j]].model(m);
                        if (j + 1 == full.size() && r != e)
                            bad("dictionary", h + (r ? ": accepted" : ": refused"));
                        PyErr_Clear();
                    }
                    for (int i = 0; i < 2; i++) {
                        Object o = p.d[i].ToPy();
                        got[i] = repr(o.Get());
                        bool empty = p.d[i].IsEmpty();
                        size_t n = 0;
                        for (auto e : p.d[i])
                            n += !!m.t[i].count(e.first);
                        if (empty != m.t[i].empty() || n != m.t[i].size() || p.d[i].HasKey("a") != !!m.t[i].count("a") || p.d[i].HasKey("b") != !!m.t[i].count("b") || p.d[i].HasKey("c"))
                            bad("dictionary", h + ": keys");
                    }
                }
                V::in_code() = false;
                std::string want[2] = { show(m.t[0]), show(m.t[1]) };
                for (int i = 0; i < 2; i++)
                    if (got[i] != want[i])
                        bad("dictionary", h + V::fmt(": %c is ", 'A' + i) + got[i].substr(0, 200) + " instead of " + want[i].substr(0, 200));
                if (sentinel.RefCount() != base) {
                    bad("reference", h + V::fmt(": %ld references are left", sentinel.RefCount() - base));
                    base = sentinel.RefCount();
                }
                if (V::nviol() > 6)
                    return;
                std::string key = want[0] + "|" + want[1];
                if (key.size() < cap && d + 1 < depth && (all || !seen.count(key))) {
                    seen[key] = d + 1;
                    next.push_back(full);
                }
            }
        }
        layer.swap(next);
    }
    V::sample(V::fmt("all sequences of %d dictionary operations up to length %d%s, %d different contents", (int)ops.size(), depth, all ? "" : " over different contents", (int)seen.size()));
}
// ---- the generator's state as a value, dictionaries from a script ----------------------------------------------------------
static void generators()
{
    std::vector<int> pos = { 0, 1, 2, 311, 623, 624, 625, 1247, 1248, 1249, 2000 };
    for (int seed : { 1, -7, 2147483647 })
        for (int p : pos)
            for (int q : pos) { // a generator at p written, read into one that is at q
                snprintf(V::crash_ctx(), 4096, "generator %d at %d read into one at %d", seed, p, q);
                V::beat()++;
                V::in_code() = true;
                try {
                    RandomFactory a(seed), b(5);
                    for (int i = 0; i < p; i++)
                        a.urn();
                    for (int i = 0; i < q; i++)
                        b.urn();
                    Object o = CastToPy(a);
                    bool ok = Convert(o, b);
                    states++, cases++;
                    for (int i = 0; ok && i < 1300; i++)
                        ok = a.urn() == b.urn();
                    if (!ok)
                        bad("generator", V::fmt("the generator with seed %d after %d numbers does not continue when read into one after %d", seed, p, q));
                } catch (std::exception& e) {
                    bad("generator", std::string("exception ") + e.what());
                }
                V::in_code() = false;
            }
    RandomFactory a(3);
    std::string full = ToString(a), cut = full.substr(0, full.rfind(' ')), half = full.substr(0, full.size() / 2);
    for (auto& t : std::vector<std::string>{ "''", "'abc'", "'1 2 3'", "5", "[1, 2]", "None", "'" + cut + "'", "'" + half + "'", "'x" + full + "'", "'" + half + " x " + half + "'" }) {
        V::in_code() = true;
        bool taken = false;
        try {
            RandomFactory b(5);
            taken = Convert(eval(t), b);
        } catch (std::exception& e) {
        }
        cases++, refused++;
        if (taken)
            bad("generator", t.substr(0, 40) + "... is taken for the state of a generator");
        if (PyErr_Occurred()) {
            PyErr_Clear();
            bad("pending", t.substr(0, 40) + "... read as a generator leaves an error pending");
        }
        V::in_code() = false;
    }
    for (auto& c : std::vector<std::pair<std::string, bool>>{ { "{}", true }, { "{'a': 1}", true }, { "{'a': 1, 'b': {'c': [1, 2]}, 'd': 'x'}", true }, { "dict(a=1)", true }, { "[1, 2]", false }, { "1 +", false }, { "{}['a']", false }, { "5", false }, { "'a'", false }, { "None", false } }) {
        std::string got;
        V::in_code() = true;
        bool ok = false;
        try {
            Dictionary d(c.first);
            got = repr(CastToPy(d).Get());
            ok = true;
        } catch (std::exception& e) {
            got = "refused";
        }
        cases++;
        std::string want = c.second ? repr(eval(c.first).Get()) : "refused";
        if (ok != c.second || (ok && !PyObject_RichCompareBool(eval(got).Get(), eval(want).Get(), Py_EQ)))
            bad("script", "a dictionary from the script " + c.first + ": " + got + " instead of " + want);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            bad("pending", "a dictionary from the script " + c.first + " leaves an error pending");
        }
        V::in_code() = false;
    }
    for (int v : { 0, -5 }) {
        Dictionary d("key", v), e;
        e["key"] = v;
        cases++;
        if (repr(CastToPy(d).Get()) != repr(CastToPy(e).Get()))
            bad("script", "a dictionary with one entry is " + repr(CastToPy(d).Get()));
    }
}
#include <sys/stat.h>
int main(int argc, char** argv)
{
    V::init(argc, argv);
    V::guard(P, 30);
    std::string part = V::arg("part", "values");
    if (part == "values")
        values();
    else if (part == "arrays")
        arrays();
    else if (part == "calls")
        calls(), generators();
    else
        dictionaries();
    V::note(V::fmt("%s: %llu values or contents, %llu readings and writings, %llu refused", part.c_str(), (unsigned long long)states, (unsigned long long)cases, (unsigned long long)refused));
    V::stati("states", states);
    V::stati("transitions", trans + cases);
    V::stati("runs", cases + trans);
    V::stati("complete", 1);
    V::finish();
}
