// C10: every add/remove history of the object pool (closed state space for small capacities, all histories to a
// depth from several fill levels at the full capacity), each state inspected through every accessor.
#include "vcommon.h"
#include "module/diagram/component_bundle.h"
#include "utility/rng.h"
#include "utility/abort.h"
#include <set>
using namespace diag;
static const char* P = "C10";
static uint64_t runs = 0, nstates = 0, ntrans = 0;
struct Fixed : Verif::WordSource {
    uint32_t w = 0;
    int calls = 0;
    std::mt19937::result_type Word(int, int, int) override
    {
        calls++;
        return w;
    }
};
static Fixed Src;
Verif::WordSource* Verif::Source = &Src;
static RandomFactory R(1);

template <typename T>
struct Pool {
    enum { PAD = 4096 };
    std::vector<char> mem;
    Bundle<T>* b;
    T* slot0; // address of the first object ever handed out; others follow from observation
    std::vector<T*> seen; // every address ever handed out
    typedef std::vector<char> Img;
    struct St {
        Img img;
        std::vector<T*> live; // model: the set of live objects (order irrelevant)
        int depth;
        std::string path;
    };
    std::string name;
    T* foreign; // a live-looking object outside the pool
    Pool(const char* n)
        : name(n)
    {
        mem.assign(2 * PAD + sizeof(Bundle<T>), (char)0x5a);
        memset(mem.data() + PAD, 0, sizeof(Bundle<T>));
        b = new (mem.data() + PAD) Bundle<T>("p");
        foreign = (T*)calloc(1, sizeof(T));
    }
    Img save() { return Img(mem.begin() + PAD, mem.begin() + PAD + sizeof(Bundle<T>)); }
    void load(const Img& i) { memcpy(mem.data() + PAD, i.data(), i.size()); }
    uint64_t digest()
    {
        V::H128 h;
        h.add(mem.data() + PAD, sizeof(Bundle<T>));
        return h.a;
    }
    bool canary()
    {
        for (int i = 0; i < PAD; i++)
            if (mem[i] != 0x5a || mem[mem.size() - 1 - i] != 0x5a)
                return false;
        return true;
    }
    void bad(const char* tag, const St& s, const std::string& t) { V::viol(P, tag, name + " pool after [" + s.path + "]: " + t); }
    bool isLive(const St& s, T* p) { return std::find(s.live.begin(), s.live.end(), p) != s.live.end(); }
    // inspects the pool against the model; returns false if it is broken
    bool inspect(const St& s)
    {
        int n = s.live.size();
        bool ok = true;
        V::in_code() = true;
        int h = b->HowMany();
        V::in_code() = false;
        if (h != n) {
            bad("count", s, V::fmt("%d objects reported, %d are live", h, n));
            return false;
        }
        std::set<T*> got;
        for (int k = -2; k <= MAX_BUNDLE + 1; k++) {
            for (int acc = 0; acc < 2; acc++) {
                T* p = nullptr;
                bool thrown = false;
                V::in_code() = true;
                try {
                    p = acc ? &(*b)[k] : (*b)(k);
                }
                catch (const std::exception&) {
                    thrown = true;
                }
                V::in_code() = false;
                runs++;
                if (k < 0 || k >= n) {
                    if (!thrown)
                        bad("access", s, V::fmt("element %d was returned although only %d exist", k, n)), ok = false;
                    continue;
                }
                if (thrown) {
                    bad("access", s, V::fmt("element %d of %d was refused", k, n));
                    return false;
                }
                if (!isLive(s, p)) {
                    bad("element", s, V::fmt("element %d is not one of the live objects", k));
                    return false;
                }
                if (p->Name != k)
                    bad("name", s, V::fmt("element %d carries the name %d", k, p->Name)), ok = false;
                got.insert(p);
            }
        }
        if ((int)got.size() != n)
            bad("element", s, V::fmt("%d live objects but only %d are accessible", n, (int)got.size())), ok = false;
        for (T* p : seen) {
            V::in_code() = true;
            bool e = b->Exist(p);
            V::in_code() = false;
            runs++;
            if (e != isLive(s, p))
                bad("member", s, V::fmt("membership of a %s object is %d", e ? "removed" : "live", e)), ok = false;
        }
        for (int k = 0; k <= n; k++) {
            foreign->Name = k < n ? k : 0;
            V::in_code() = true;
            bool e = b->Exist(foreign);
            V::in_code() = false;
            if (e)
                bad("member", s, "an object outside the pool is a member"), ok = false;
        }
        V::in_code() = true;
        bool e = b->Exist(nullptr);
        V::in_code() = false;
        if (e)
            bad("member", s, "the null object is a member"), ok = false;
        if (n) {
            std::map<T*, int> picks;
            for (int w = 0; w < 2 * n; w++) { // words 0..2n-1 cover every residue twice
                Src.w = w;
                Src.calls = 0;
                V::in_code() = true;
                T* p = b->RandomPick(R);
                V::in_code() = false;
                runs++;
                picks[p]++;
            }
            for (auto& q : picks)
                if (!isLive(s, q.first) || q.second != 2)
                    bad("pick", s, V::fmt("random pick over all words returns a %s object %d times", isLive(s, q.first) ? "live" : "dead", q.second)), ok = false;
            if ((int)picks.size() != n)
                bad("pick", s, V::fmt("random pick only ever sees %d of %d objects", (int)picks.size(), n)), ok = false;
        }
        if (!canary())
            bad("memory", s, "memory outside the pool was overwritten"), ok = false;
        return ok;
    }
    std::string nm(T* p) // index in order of first appearance
    {
        for (size_t i = 0; i < seen.size(); i++)
            if (seen[i] == p)
                return V::fmt("#%d", (int)i);
        return "?";
    }
    void run(int maxDepth, int prefill, size_t limit)
    {
        std::unordered_map<uint64_t, char> vis;
        St s0;
        s0.depth = 0;
        s0.path = prefill ? V::fmt("add x %d", prefill) : "";
        // learn every address of the pool once
        Img blank = save();
        for (int i = 0; i < MAX_BUNDLE; i++)
            seen.push_back(b->Add());
        std::set<T*> u(seen.begin(), seen.end());
        if ((int)u.size() != MAX_BUNDLE)
            bad("address", s0, "the same address is handed out twice while filling");
        load(blank);
        for (int i = 0; i < prefill; i++)
            s0.live.push_back(b->Add());
        s0.img = save();
        std::vector<St> q{ s0 };
        vis[digest()] = 1;
        bool closed = true;
        for (size_t at = 0; at < q.size(); at++) {
            St s = q[at];
            q[at].img.clear();
            q[at].img.shrink_to_fit();
            load(s.img);
            nstates++;
            V::beat()++;
            snprintf(V::crash_ctx(), 4096, "%s pool after [%s]", name.c_str(), s.path.c_str());
            if (!inspect(s))
                continue;
            if (memcmp(mem.data() + PAD, s.img.data(), s.img.size()))
                bad("const", s, "inspecting the pool changed it");
            // operations: 0 add, then remove by pointer (every address, a foreign object, null), remove by name
            int nOps = 1 + (int)seen.size() + 2 + MAX_BUNDLE + 4;
            for (int op = 0; op < nOps; op++) {
                load(s.img);
                St t = s;
                t.depth++;
                bool thrown = false, legal = true;
                V::in_code() = true;
                if (op == 0) {
                    legal = (int)s.live.size() < MAX_BUNDLE;
                    t.path += (t.path.empty() ? "" : ", ") + std::string("add");
                    T* p = nullptr;
                    try {
                        p = b->Add();
                    }
                    catch (const std::exception&) {
                        thrown = true;
                    }
                    V::in_code() = false;
                    if (!thrown && legal) {
                        if (isLive(s, p))
                            bad("address", t, "the new object has the address of a live one");
                        if ((char*)p < (char*)b || (char*)(p + 1) > (char*)(b + 1))
                            bad("address", t, "the new object lies outside the pool");
                        t.live.push_back(p);
                    }
                } else if (op <= (int)seen.size() + 2) {
                    T* p = op <= (int)seen.size() ? seen[op - 1] : op == (int)seen.size() + 1 ? foreign : nullptr;
                    foreign->Name = 0;
                    legal = p && isLive(s, p);
                    t.path += (t.path.empty() ? "" : ", ") + std::string("remove ") + (p == foreign ? "foreign" : p ? nm(p) : "null");
                    try {
                        b->Remove(p);
                    }
                    catch (const std::exception&) {
                        thrown = true;
                    }
                    V::in_code() = false;
                    if (legal)
                        t.live.erase(std::find(t.live.begin(), t.live.end(), p));
                } else {
                    int k = op - (int)seen.size() - 3 - 2;
                    legal = k >= 0 && k < (int)s.live.size();
                    t.path += (t.path.empty() ? "" : ", ") + V::fmt("remove name %d", k);
                    T* p = legal ? (*b)(k) : nullptr;
                    try {
                        b->Remove(k);
                    }
                    catch (const std::exception&) {
                        thrown = true;
                    }
                    V::in_code() = false;
                    if (legal)
                        t.live.erase(std::find(t.live.begin(), t.live.end(), p));
                }
                runs++;
                ntrans++;
                if (!canary()) {
                    bad("memory", t, "memory outside the pool was overwritten");
                    std::fill(mem.begin(), mem.begin() + PAD, 0x5a);
                    std::fill(mem.end() - PAD, mem.end(), 0x5a);
                    continue;
                }
                if (legal && thrown) {
                    bad("refused", t, "a legal operation was refused");
                    continue;
                }
                if (!legal) {
                    if (!thrown)
                        bad(op == 0 ? "overfull" : "absent", t, op == 0 ? "an object was added beyond the capacity" : "removing an absent object was not refused");
                    else if (memcmp(mem.data() + PAD, s.img.data(), s.img.size())) {
                        St z = s;
                        z.path = t.path;
                        inspect(z); // a refused operation leaves the pool intact
                    }
                    continue;
                }
                auto h = digest();
                if (vis.count(h)) {
                    inspect(t);
                    continue;
                }
                if (t.depth > maxDepth || vis.size() >= limit) {
                    closed = false;
                    inspect(t);
                    continue;
                }
                vis[h] = 1;
                t.img = save();
                q.push_back(t);
            }
            // undoing: recovering the last k removals or additions restores the same set
            for (int k = 1; k <= 2; k++) {
                if ((int)s.live.size() >= k)
                    for (size_t a = 0; a < s.live.size(); a++) {
                        load(s.img);
                        St t = s;
                        t.path += V::fmt(", remove x %d, recover %d", k, k);
                        V::in_code() = true;
                        b->Remove(s.live[a]);
                        if (k == 2)
                            b->Remove(s.live[(a + 1) % s.live.size()]);
                        b->Recover(k);
                        V::in_code() = false;
                        inspect(t);
                        ntrans++;
                    }
                if ((int)s.live.size() + k <= MAX_BUNDLE) {
                    load(s.img);
                    St t = s;
                    t.path += V::fmt(", add x %d, recover %d", k, -k);
                    V::in_code() = true;
                    for (int i = 0; i < k; i++)
                        b->Add();
                    b->Recover(-k);
                    V::in_code() = false;
                    inspect(t);
                    ntrans++;
                }
            }
            if (at == q.size() / 2 || at == 3)
                V::sample(name + " pool of " + std::to_string(MAX_BUNDLE) + ": [" + s.path + "]");
        }
        V::note(V::fmt("%s pool of %d: %zu states, %s", name.c_str(), MAX_BUNDLE, vis.size(), closed ? "closed" : "cut at the depth or state bound"));
    }
};
int main(int argc, char** argv)
{
    V::init(argc, argv, false);
    V::guard(P);
    int depth = V::argi("depth", 1000), pre = V::argi("prefill", 0);
    size_t limit = V::argi("states", 1000000000);
    long t = V::argi("type", -1);
    if (t < 0 || t == 0)
        Pool<GLine>("propagator").run(depth, pre, limit);
    if (t < 0 || t == 1)
        Pool<WLine>("interaction").run(depth, pre, limit);
    if (t < 0 || t == 2)
        Pool<Vertex>("vertex").run(depth, pre, limit);
    V::stati("states", nstates);
    V::stati("transitions", ntrans);
    V::stati("runs", runs);
    V::stati("complete", 1);
    V::finish();
}
