// Explicit-state exploration of the real Markov-chain updates.
//   check=C01|C02|C03|C04|C05|C06|C23   which property this run reports
#include "state.h"
using namespace mc;

Verif::WordSource* Verif::Source = nullptr;

static World W_;
static const char* UName[] = { "CreateWorm", "DeleteWorm", "MoveWormOnG", "MoveWormOnW", "Reconnect", "AddInteraction", "DeleteInteraction",
                               "AddDeltaInteraction", "DeleteDeltaInteraction", "ChangeTauOnVertex", "ChangeRLoop", "ChangeMeasureFromGToW",
                               "ChangeMeasureFromWToG", "ChangeDeltaToContinuous", "ChangeContinuousToDelta", "JumpToOrder0", "JumpBackToOrder1",
                               "JumpToGGGammaG", "JumpFromGGGammaGToG", "JumpToWWGammaW", "JumpFromWWGammaWToW" };
enum { NU = 21 };
static const int NTauDraw[NU] = { 0, 0, 0, 0, 0, 2, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 2, 1, 0, 1, 0 };
typedef void (Markov::*Upd)();
static const Upd UFn[NU] = { &Markov::CreateWorm, &Markov::DeleteWorm, &Markov::MoveWormOnG, &Markov::MoveWormOnW, &Markov::Reconnect,
                             &Markov::AddInteraction, &Markov::DeleteInteraction, &Markov::AddDeltaInteraction, &Markov::DeleteDeltaInteraction,
                             &Markov::ChangeTauOnVertex, &Markov::ChangeRLoop, &Markov::ChangeMeasureFromGToW, &Markov::ChangeMeasureFromWToG,
                             &Markov::ChangeDeltaToContinuous, &Markov::ChangeContinuousToDelta, &Markov::JumpToOrder0, &Markov::JumpBackToOrder1,
                             &Markov::JumpToGGGammaG, &Markov::JumpFromGGGammaGToG, &Markov::JumpToWWGammaW, &Markov::JumpFromWWGammaWToW };
// which updates are inverse to which, only used to word messages
struct BadDraw {
    std::string why;
};
struct Script : Verif::WordSource {
    std::vector<int> choice, options;
    size_t at;
    int urns, nTau, accDraws;
    uint64_t accRank; // rank used for the acceptance draw
    bool lead; // a leading selector draw is expected (Hop)
    uint32_t leadWord;
    V::H128 log;
    std::vector<uint32_t> tauWord;
    void begin(int ntau, uint64_t rank)
    {
        at = 0, urns = 0, nTau = ntau, accRank = rank, accDraws = 0, lead = false;
        log = V::H128();
    }
    int pick(int n)
    {
        if (at == choice.size()) {
            choice.push_back(0);
            options.push_back(n);
        }
        options[at] = n;
        if (choice[at] >= n)
            throw BadDraw{ "draw sequence changed under an identical prefix" };
        return choice[at++];
    }
    std::mt19937::result_type Word(int kind, int from, int thru) override
    {
        if (lead) {
            lead = false;
            if (kind != 0)
                throw BadDraw{ "selector draw is not uniform" };
            return leadWord;
        }
        if (kind == 1) {
            log.add(((uint64_t)(uint32_t)from << 32) | (uint32_t)thru);
            if (thru < from)
                throw BadDraw{ V::fmt("integer draw from the empty range [%d,%d]", from, thru) };
            if (thru - from >= 4096)
                throw BadDraw{ "integer draw from a huge range" };
            // value v is returned for word (v-from) because the range length is added once here
            return (uint32_t)pick(thru - from + 1);
        }
        if (kind == 0) {
            log.add(1);
            if (nTau < 0 || urns < nTau) {
                urns++;
                return tauWord[pick((int)tauWord.size())];
            }
            accDraws++;
            if (accDraws > 1)
                throw BadDraw{ "more than one acceptance draw" };
            return V::word_of_rank(accRank);
        }
        throw BadDraw{ "generator used outside urn/irn" };
    }
    bool next() // advance the odometer
    {
        while (!choice.empty()) {
            if (++choice.back() < options.back())
                return true;
            choice.pop_back();
            options.pop_back();
        }
        return false;
    }
    double prob() const
    {
        double p = 1;
        for (size_t i = 0; i < at; i++)
            p /= options[i];
        return p;
    }
};
static Script S;

static const uint64_t FULL = 1ULL << 32;
static std::vector<uint64_t> Base;
static size_t NW64;
typedef std::vector<uint8_t> Blob;
static Blob pack(const uint64_t* m)
{
    Blob b;
    for (size_t i = 0; i < NW64; i++)
        if (m[i] != Base[i]) {
            uint16_t k = (uint16_t)i;
            size_t o = b.size();
            b.resize(o + 10);
            memcpy(&b[o], &k, 2);
            memcpy(&b[o + 2], &m[i], 8);
        }
    b.shrink_to_fit();
    return b;
}
static void unpack(const Blob& b, uint64_t* m)
{
    memcpy(m, Base.data(), NW64 * 8);
    for (size_t o = 0; o < b.size(); o += 10) {
        uint16_t k;
        memcpy(&k, &b[o], 2);
        memcpy(&m[k], &b[o + 2], 8);
    }
}
struct Node {
    Blob blob;
    double pi;
    uint32_t parent;
    uint32_t depth;
    int8_t upd;
    bool expanded;
    bool physical;
    int8_t order;
    std::vector<uint8_t> script;
};
static std::vector<Node> Nodes;
static std::unordered_map<V::H128, uint32_t, V::H128h> Index;
static double Sel[NU];
static std::string Prop;
static StateReader* R;
static uint64_t nTrans = 0, nRuns = 0, nRejectedChecked = 0, nThresholdExact = 0;
static uint64_t* Mem;

static std::string trace(uint32_t i)
{
    std::vector<std::string> v;
    while (i != 0) {
        std::string s = UName[(int)Nodes[i].upd];
        s += "[";
        for (auto c : Nodes[i].script)
            s += V::fmt("%d ", c);
        s += "]";
        v.push_back(s);
        i = Nodes[i].parent;
    }
    std::string r = "from the initial diagram:";
    for (size_t k = v.size(); k-- > 0;)
        r += " " + v[k];
    return r;
}
static std::string scriptStr()
{
    std::string s = "[";
    for (size_t i = 0; i < S.at; i++)
        s += V::fmt("%d/%d ", S.choice[i], S.options[i]);
    return s + "]";
}
static uint32_t Cur = 0;
static std::string ctx(int u) { return V::fmt("update %s draws %s on state %u (", UName[u], scriptStr().c_str(), Cur) + trace(Cur) + ")"; }

enum Outcome { OK,
               THREW };
static std::string threw;
// run one update on the live diagram
static bool runUpdate(int u, uint64_t rank)
{
    S.begin(NTauDraw[u], rank);
    nRuns++;
    V::beat()++;
    V::in_code() = true;
    try {
        (W_.Mk->*UFn[u])();
    }
    catch (BadDraw& b) {
        V::in_code() = false;
        threw = b.why;
        return false;
    }
    catch (std::exception& e) {
        V::in_code() = false;
        threw = std::string("abort: ") + e.what();
        return false;
    }
    V::in_code() = false;
    return true;
}

struct Cache {
    double c;
    uint64_t t;
};
static std::map<int, std::vector<Cache>> Ratio;

struct Edge {
    uint32_t from, to;
    double p, slack;
    uint32_t mask;
};
static std::vector<Edge> Edges;
static std::vector<std::pair<uint32_t, uint32_t>> Graph;
static uint64_t nAcc[NU];

// ---- C06 ---------------------------------------------------------------------------------
struct MeasureOracle {
    Complex *aS, *aP, *aGG, *aWW;
    size_t nS, nP, nGG, nWW;
    uint64_t checked = 0;
    std::set<std::string> kinds;
    static Complex* view(Dictionary d, size_t& n)
    {
        auto a = d.Get<Python::ArrayObject>("WeightAccu");
        n = a.Size();
        return a.Data<Complex>();
    }
    void init()
    {
        aS = view(W_.Wt->Sigma->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"), nS);
        aP = view(W_.Wt->Polar->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"), nP);
        aGG = view(W_.Wt->GammaG->StatisToDict(), nGG);
        aWW = view(W_.Wt->GammaW->StatisToDict(), nWW);
    }
    static double norm(Dictionary d) { return d.Get<double>("NormAccu"); }
    struct Exp {
        std::vector<cd> s, p, gg, ww;
    };
    std::string one(const Complex* a, size_t n, long at, cd want, const char* what)
    {
        for (size_t i = 0; i < n; i++) {
            cd e = (long)i == at ? want : cd(0, 0);
            if (std::abs(e - cd(a[i].Re, a[i].Im)) > 1e-9 * (1 + std::abs(e)))
                return V::fmt("%s bin %zu holds (%.12g,%.12g), expected (%.12g,%.12g)%s", what, i, a[i].Re, a[i].Im, e.real(), e.imag(), at < 0 ? " (nothing should be credited)" : V::fmt(" (credit belongs in bin %ld)", at).c_str());
        }
        return "";
    }
    std::string check()
    {
        auto& M = *W_.Mon;
        W_.Wt->Sigma->Estimator.ClearStatistics();
        W_.Wt->Polar->Estimator.ClearStatistics();
        W_.Wt->GammaG->ClearStatistics();
        W_.Wt->GammaW->ClearStatistics();
        M.WormEstimator.ClearStatistics();
        M.PhyEstimator.ClearStatistics();
        M.SigmaEstimator.ClearStatistics();
        M.PolarEstimator.ClearStatistics();
        M.GammaGEstimator.ClearStatistics();
        M.GammaWEstimator.ClearStatistics();
        V::H128 before = R->digest();
        V::in_code() = true;
        try {
            M.Measure();
        }
        catch (std::exception& e) {
            V::in_code() = false;
            return std::string("measurement aborts: ") + e.what();
        }
        V::in_code() = false;
        checked++;
        if (!(before == R->digest()))
            return "measuring changes the configuration";
        Diagram& d = *W_.Dg;
        StateReader& r = *R;
        bool worm = d.Worm.Exist;
        int O = d.Order;
        bool ins = d.HasGammaGW != 0;
        // counters used for reweighting
        for (int i = 0; i <= W_.Order; i++) {
            double ww = worm && i == O, wp = !worm && i == O;
            if (M.WormEstimator[i].Value() != ww || M.PhyEstimator[i].Value() != wp)
                return V::fmt("order-%d visit counters wrong (worm %g, physical %g)", i, M.WormEstimator[i].Value(), M.PhyEstimator[i].Value());
        }
        double cS = 0, cP = 0, cGG = 0, cWW = 0;
        if (worm) {
            if (!ins)
                (d.MeasureGLine ? cS : cP) = 1;
        }
        else if (O > 0)
            (ins ? (d.MeasureGLine ? cGG : cWW) : (d.MeasureGLine ? cS : cP)) = 1;
        if (M.SigmaEstimator.Value() != cS || M.PolarEstimator.Value() != cP || M.GammaGEstimator.Value() != cGG || M.GammaWEstimator.Value() != cWW)
            return V::fmt("sector visit counters wrong: %g %g %g %g", M.SigmaEstimator.Value(), M.PolarEstimator.Value(), M.GammaGEstimator.Value(), M.GammaWEstimator.Value());
        // normalisation
        double inv = 1.0 / W_.Para.OrderReWeight[O];
        double nSg = 0, nPl = 0, nG3 = 0, nW3 = 0;
        if (!worm && O == 0) {
            if (d.MeasureGLine) {
                nSg = inv;
                if (W_.Gamma)
                    nG3 = inv;
            }
            else {
                nPl = inv;
                if (W_.Gamma)
                    nW3 = inv;
            }
        }
        double gS = norm(W_.Wt->Sigma->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT")), gP = norm(W_.Wt->Polar->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
        double gG = norm(W_.Wt->GammaG->StatisToDict()), gW = norm(W_.Wt->GammaW->StatisToDict());
        if (gS != nSg || gP != nPl || gG != nG3 || gW != nW3)
            return V::fmt("normalisation credited %g/%g/%g/%g, expected %g/%g/%g/%g", gS, gP, gG, gW, nSg, nPl, nG3, nW3);
        long iS = -1, iP = -1, iG = -1, iW = -1;
        cd vS, vP, vG, vW;
        if (!worm && O > 0) {
            cd ph = r.product / std::abs(r.product);
            int B = W_.Bins, Sub = W_.Sub, Vol = W_.Vol;
            if (d.MeasureGLine) {
                int g = r.pos(r.G_, r.ng, d.GMeasure);
                // the self energy runs from the end of the removed propagator to its start
                Vertex *a = r.V_[r.gto[g]], *b = r.V_[r.gfrom[g]];
                int s = a->_spin[IN];
                if (!ins) {
                    iS = (((((long)(O - 1) * 2 + s) * Sub + a->R.Sublattice) * 2 + s) * Sub + b->R.Sublattice) * Vol + W_.coord(a->R, b->R);
                    iS = iS * B + W_.tbin(b->Tau - a->Tau, B);
                    vS = ph * inv * (b->Tau > a->Tau ? 1.0 : -1.0);
                }
                else {
                    iG = (((long)s * Vol + W_.coord(a->R, d.UExt.R)) * B + W_.tbin(b->Tau - d.UExt.Tau, B)) * B + W_.tbin(a->Tau - d.UExt.Tau, B);
                    double sg = (b->Tau < d.UExt.Tau ? -1 : 1) * (a->Tau < d.UExt.Tau ? -1 : 1);
                    vG = ph * inv * sg / W_.Para.GammaGReweight;
                }
            }
            else {
                int l = r.pos(r.W_, r.nw, d.WMeasure);
                if (!ins) {
                    Vertex *a = r.V_[r.wb[l]], *b = r.V_[r.wa[l]];
                    int sa = a->_spin[IN] * 2 + a->_spin[OUT], sb = b->_spin[IN] * 2 + b->_spin[OUT];
                    iP = (((((long)(O - 1) * 4 + sa) * Sub + a->R.Sublattice) * 4 + sb) * Sub + b->R.Sublattice) * Vol + W_.coord(a->R, b->R);
                    iP = iP * B + W_.tbin(b->Tau - a->Tau, B);
                    vP = -ph * inv;
                }
                else {
                    Vertex *a = r.V_[r.wa[l]], *b = r.V_[r.wb[l]];
                    int ri, ti;
                    W_.wwIndex(a->R, b->R, d.UExt.R, a->Tau, b->Tau, d.UExt.Tau, ri, ti);
                    int sa[2] = { a->_spin[IN], a->_spin[OUT] }, sb[2] = { b->_spin[IN], b->_spin[OUT] };
                    int sc = World::spinClass(sb, sa);
                    iW = (long)W_.RSq[ri] * W_.TSize + W_.TSq[ti] + (sc >= 4 ? (long)W_.RSize * W_.TSize : 0);
                    vW = ph * inv / W_.Para.GammaWReweight / (double)(W_.RSym[ri] * W_.TSym[ti]);
                    if (W_.TFlag[ti])
                        vW = -std::conj(vW);
                    if (sc == 2 || sc == 3)
                        vW = -vW;
                    if (sc == 4)
                        vW /= 2.0;
                    if (sc == 5)
                        vW = -std::conj(vW) / 2.0;
                }
            }
        }
        std::string e = one(aS, nS, iS, vS, "self-energy");
        if (e.empty())
            e = one(aP, nP, iP, vP, "polarisation");
        if (e.empty())
            e = one(aGG, nGG, iG, vG, "fermion three-point");
        if (e.empty())
            e = one(aWW, nWW, iW, vW, "boson three-point");
        kinds.insert(V::fmt("order%d/%s/%s/ins%d", O, worm ? "worm" : "phys", d.MeasureGLine ? "G" : "W", d.HasGammaGW));
        return e;
    }
};
static MeasureOracle MO;

// C17: a state saved and restored is the same state in everything observable, whatever the diagram restored into held
static std::vector<uint64_t> Anti;
static uint64_t roundTrips = 0;
static std::string exactText(Diagram& d)
{
    std::string s = V::fmt("order %d sign %.17g worm %d vertex function %d measured %s %d\n", d.Order, d.SignFermiLoop, d.Worm.Exist, d.HasGammaGW, d.MeasureGLine ? "G" : "W", d.MeasureGLine ? (d.GMeasure ? d.GMeasure->Name : -1) : (d.WMeasure ? d.WMeasure->Name : -1));
    if (d.Worm.Exist)
        s += V::fmt("ends %d %d K %d dSpin %d\n", d.Worm.Ira->Name, d.Worm.Masha->Name, d.Worm.K.K, d.Worm.dSpin);
    for (int i = 0; i < d.Ver.HowMany(); i++) {
        vertex v = d.Ver(i);
        s += V::fmt("vertex %d: name %d at %d,%d sublattice %d time %.17g spins %d %d direction %d lines %d %d %d\n", i, v->Name, v->R.Coordinate[0], v->R.Coordinate[1], v->R.Sublattice, v->Tau, v->Spin(IN), v->Spin(OUT), v->Dir, v->nG[0]->Name, v->nG[1]->Name, v->nW->Name);
    }
    for (int i = 0; i < d.G.HowMany(); i++) {
        gLine g = d.G(i);
        s += V::fmt("propagator %d: name %d from %d to %d K %d measured %d vertex function %d\n", i, g->Name, g->nVer[IN]->Name, g->nVer[OUT]->Name, g->K.K, g->IsMeasure, g->IsGGGammaG);
    }
    for (int i = 0; i < d.W.HowMany(); i++) {
        wLine w = d.W(i);
        s += V::fmt("interaction %d: name %d from %d to %d K %d measured %d instantaneous %d worm %d vertex function %d\n", i, w->Name, w->nVer[IN]->Name, w->nVer[OUT]->Name, w->K.K, w->IsMeasure, w->IsDelta, w->IsWorm, w->IsWWGammaW);
    }
    return s;
}
static void roundTrip(const std::string& where)
{
    Diagram& d = *W_.Dg;
    if (d.HasGammaGW)
        return;
    if (d.Worm.Exist && !d.MeasureGLine)
        Anti.assign(Mem, Mem + NW64);
    std::vector<uint64_t> keep(Mem, Mem + NW64);
    V::H128 h0 = R->hash();
    Complex w0 = d.Weight, p0 = d.Phase;
    std::string t0 = exactText(d), err;
    V::in_code() = true;
    try {
        Dictionary saved = d.ToDict();
        if (memcmp(keep.data(), Mem, NW64 * 8))
            err = "saving changes the diagram";
        for (int k = 0; k < 2 && err.empty(); k++) {
            if (k && Anti.empty())
                break;
            memcpy(Mem, k ? Anti.data() : Base.data(), NW64 * 8);
            d.FromDict(saved, W_.Para.Lat, *W_.Wt->G, *W_.Wt->W);
            roundTrips++;
            V::beat()++;
            std::string t = exactText(d);
            if (t != t0) {
                size_t i = 0;
                while (i < t.size() && t[i] == t0[i])
                    i++;
                size_t b = t0.rfind('\n', i ? i - 1 : 0), e = t0.find('\n', i), f = t.find('\n', i);
                b = b == std::string::npos ? 0 : b + 1;
                err = "saved \"" + t0.substr(b, e - b) + "\" restored \"" + t.substr(b, f - b) + "\"";
            }
            else if (!R->read() || !R->err02.empty() || !R->err03.empty())
                err = "restored diagram is broken: " + R->err02 + R->err03;
            else if (!(R->hash() == h0))
                err = "restored diagram differs: " + R->describe();
            else if (std::hypot(d.Weight.Re - w0.Re, d.Weight.Im - w0.Im) > 1e-9 * std::hypot(w0.Re, w0.Im) || std::hypot(d.Phase.Re - p0.Re, d.Phase.Im - p0.Im) > 1e-9)
                err = V::fmt("restored weight %.12g%+.12gi phase %.12g%+.12gi instead of %.12g%+.12gi, %.12g%+.12gi", d.Weight.Re, d.Weight.Im, d.Phase.Re, d.Phase.Im, w0.Re, w0.Im, p0.Re, p0.Im);
            if (!err.empty() && k)
                err += " (restored into a diagram that held another state)";
        }
    }
    catch (std::exception& e) {
        err = std::string("saving or restoring fails: ") + e.what();
    }
    V::in_code() = false;
    memcpy(Mem, keep.data(), NW64 * 8);
    R->read();
    if (!err.empty())
        V::viol("C17", "roundtrip", err + "; " + where);
}

static uint32_t intern(int upd, bool& fresh, bool& broken)
{
    broken = false;
    fresh = false;
    bool readable = R->read();
    if (!R->err02.empty()) {
        broken = true;
        if (Prop == "C02")
            V::viol("C02", "structure", R->err02 + "; after " + ctx(upd));
        if (Prop == "C01")
            V::viol("C01", "invalid", "probability flows to a configuration that is no diagram: " + R->err02 + "; after " + ctx(upd));
        if (Prop == "C05")
            V::viol("C05", "invalid", "leaves the allowed set: " + R->err02 + "; after " + ctx(upd));
        if (!readable)
            return ~0u;
    }
    if (!R->err03.empty()) {
        if (Prop == "C03")
            V::viol("C03", "weight", R->err03 + "; after " + ctx(upd) + "; " + R->describe());
        // the oracle value is still what the diagram is worth: C01 goes on with it
        if (R->zero) {
            broken = true;
            if (Prop == "C01")
                V::viol("C01", "zero", "zero-weight diagram accepted; after " + ctx(upd));
            return ~0u;
        }
    }
    V::H128 h = R->hash();
    auto it = Index.find(h);
    if (it != Index.end())
        return it->second;
    uint32_t id = Nodes.size();
    Index[h] = id;
    Node n;
    n.blob = pack(Mem);
    n.pi = R->pi();
    n.parent = Cur;
    n.depth = Nodes.empty() ? 0 : Nodes[Cur].depth + 1;
    n.upd = upd;
    n.expanded = false;
    n.physical = R->ira < 0;
    n.order = W_.Dg->Order;
    for (size_t i = 0; upd >= 0 && i < S.at; i++)
        n.script.push_back((uint8_t)S.choice[i]);
    if (broken && Prop != "C03" && Prop != "C06") {
        Index.erase(h);
        return ~0u;
    }
    n.expanded = broken; // never expanded
    Nodes.push_back(std::move(n));
    fresh = true;
    if (Prop == "C06") {
        std::string e = MO.check();
        if (!e.empty())
            V::viol("C06", "credit", e + "; state " + R->describe() + "; " + (upd >= 0 ? ctx(upd) : "initial"));
    }
    if (Prop == "C17" && !broken)
        roundTrip("state " + R->describe() + "; " + (upd >= 0 ? ctx(upd) : "initial"));
    return id;
}

static std::vector<uint64_t> curMem;
static V::H128 curDigest;
static void restore() { memcpy(Mem, curMem.data(), NW64 * 8); }
static bool unchanged()
{
    if (!memcmp(Mem, curMem.data(), NW64 * 8))
        return true;
    return R->digest() == curDigest;
}

// explore every choice of one update from the current state
static void expand(uint32_t id, int u, bool db)
{
    S.choice.clear();
    S.options.clear();
    do {
        restore();
        strncpy(V::crash_ctx(), UName[u], 200);
        if (!runUpdate(u, 0)) {
            V::viol(Prop, "abort", threw + "; " + ctx(u));
            if (V::nviol() > 200)
                return;
            continue;
        }
        nTrans++;
        bool acc0 = S.accDraws > 0;
        double q = S.prob();
        if (unchanged()) {
            // rejected outright, or accepted into an identical state
            nRejectedChecked++;
            continue;
        }
        bool fresh, broken;
        uint32_t to = intern(u, fresh, broken);
        if (broken) {
            if (Prop == "C04")
                V::viol("C04", "damaged", (R->err02.empty() ? R->err03 : R->err02) + "; " + ctx(u));
            continue;
        }
        if (Prop == "C04" && to == id && !acc0) {
            V::viol("C04", "damaged", "update returns with altered bookkeeping but the same diagram; " + ctx(u));
        }
        if (Prop == "C04" && !R->err03.empty())
            V::viol("C04", "damaged", R->err03 + "; " + ctx(u));
        nAcc[u]++;
        if (Prop == "C05")
            Graph.push_back({ id, to });
        uint64_t T = FULL;
        double slack = 0;
        if (acc0) {
            double ratio = Nodes[to].pi / Nodes[id].pi;
            // rejection must leave everything untouched
            auto accepted = [&](uint64_t rank) {
                restore();
                if (!runUpdate(u, rank)) {
                    V::viol(Prop, "abort", threw + "; " + ctx(u));
                    return false;
                }
                if (!unchanged()) {
                    return true;
                }
                nRejectedChecked++;
                return false;
            };
            bool found = false;
            if (!accepted(FULL - 1)) {
                if (db) {
                    auto& cs = Ratio[u];
                    for (auto& c : cs) {
                        double t = c.c * ratio * 4294967296.0;
                        if (t >= FULL || t < 1)
                            continue;
                        uint64_t dlt = 2 + (uint64_t)(t / c.t);
                        uint64_t lo = t > dlt ? (uint64_t)t - dlt : 0, hi = (uint64_t)t + dlt;
                        if (hi >= FULL)
                            hi = FULL - 1;
                        if (accepted(lo) && !accepted(hi)) {
                            T = (lo + hi) / 2 + 1;
                            slack = dlt + 1;
                            found = true;
                            if (T > c.t) {
                                c.t = T;
                                c.c = T / 4294967296.0 / ratio;
                            }
                            break;
                        }
                    }
                    if (!found) {
                        uint64_t lo = 0, hi = FULL - 1; // lo accepted, hi rejected
                        while (hi - lo > 1) {
                            uint64_t m = (lo + hi) / 2;
                            if (accepted(m))
                                lo = m;
                            else
                                hi = m;
                        }
                        T = hi;
                        slack = 1;
                        nThresholdExact++;
                        if (cs.size() < 24)
                            cs.push_back({ T / 4294967296.0 / ratio, T });
                    }
                }
            }
            // a rejected attempt must not have changed anything: decided above by unchanged(); an attempt that
            // changed the memory without being an acceptance shows up here
            if (Prop == "C04") {
                restore();
                runUpdate(u, FULL - 1);
                if (!unchanged()) {
                    bool ok = R->read() && R->err03.empty();
                    if (!ok)
                        V::viol("C04", "damaged", "rejected update leaves " + (R->err02.empty() ? R->err03 : R->err02) + "; " + ctx(u));
                    else {
                        V::H128 h = R->hash();
                        auto it = Index.find(h);
                        if (it == Index.end() || it->second != to)
                            V::viol("C04", "damaged", "rejected update changes the diagram; " + ctx(u));
                    }
                }
            }
        }
        if (db) {
            double p = Sel[u] * q * (T / 4294967296.0);
            Edges.push_back({ id, to, p, Sel[u] * q * (slack / 4294967296.0), 1u << u });
        }
    } while (S.next());
}

// ---- selection probabilities -----------------------------------------------------------------
struct Probe {
    Blob b;
};
static V::H128 signature(int u, const std::vector<Blob>& probes, int cap)
{
    V::H128 h;
    for (auto& b : probes) {
        unpack(b, curMem.data());
        S.choice.clear();
        S.options.clear();
        int n = 0;
        do {
            restore();
            bool ok = runUpdate(u, 0);
            h.add(S.log.a);
            h.add(S.log.b);
            V::H128 g = R->digest();
            h.add(ok ? g.a : 1);
        } while (S.next() && ++n < cap);
    }
    return h;
}
static V::H128 signatureIdle(const std::vector<Blob>& probes)
{
    V::H128 h;
    for (auto& b : probes) {
        unpack(b, curMem.data());
        restore();
        V::H128 g = R->digest(), l;
        h.add(l.a);
        h.add(l.b);
        h.add(g.a);
    }
    return h;
}
static std::string hopErr;
// signature of the update selected by word w, for an update drawing ntau times (-1: try them all)
static V::H128 signatureHop(uint32_t word, const std::vector<Blob>& probes, int cap, int ntau)
{
    V::H128 h;
    for (auto& b : probes) {
        unpack(b, curMem.data());
        S.choice.clear();
        S.options.clear();
        int n = 0;
        do {
            restore();
            S.begin(ntau, 0);
            S.lead = true;
            S.leadWord = word;
            const long long c0 = 9000000000LL; // more than 32 bits hold
            W_.Para.Counter = c0;
            nRuns++;
            V::beat()++;
            V::in_code() = true;
            bool ok = true;
            try {
                W_.Mk->Hop(1);
            }
            catch (BadDraw& e) {
                ok = false;
            }
            catch (std::exception& e) {
                ok = false;
                hopErr = std::string("step aborts: ") + e.what();
            }
            V::in_code() = false;
            if (ok && W_.Para.Counter != c0 + 1)
                hopErr = V::fmt("step counter advances by %lld", W_.Para.Counter - c0);
            if (ok && S.lead)
                hopErr = "a step makes no selector draw";
            h.add(S.log.a);
            h.add(S.log.b);
            V::H128 g = R->digest();
            h.add(ok ? g.a : 1);
        } while (S.next() && ++n < cap);
    }
    return h;
}
static std::vector<Blob> Probes;
static int NProbeClasses;
static std::vector<int> ClassOf; // update -> class id; class 0 is idle
// choose states on which the updates behave differently from each other
static void makeProbes(const std::vector<Blob>& pool)
{
    std::vector<std::vector<V::H128>> sig(NU + 1);
    std::vector<int> cls(NU + 1, 0);
    int nc = 1;
    for (auto& b : pool) {
        std::vector<Blob> one(1, b);
        std::map<std::pair<int, std::pair<uint64_t, uint64_t>>, int> m;
        std::vector<int> c2(NU + 1);
        for (int u = 0; u <= NU; u++) {
            V::H128 s = u == NU ? signatureIdle(one) : signature(u, one, 6);
            auto key = std::make_pair(cls[u], std::make_pair(s.a, s.b));
            if (!m.count(key))
                m[key] = m.size();
            c2[u] = m[key];
        }
        if ((int)m.size() > nc) {
            nc = m.size();
            cls = c2;
            Probes.push_back(b);
            if (nc == NU + 1)
                break;
        }
    }
    ClassOf = cls;
    NProbeClasses = nc;
}
// partition of the selector draw: list of (first rank, update or -1 idle or -2 unknown)
static std::vector<std::pair<uint64_t, int>> Partition;
static void resolveHop(int grid)
{
    std::map<std::pair<uint64_t, uint64_t>, int> byTau[3];
    for (int u = 0; u < NU; u++) {
        V::H128 s = signature(u, Probes, 6);
        byTau[NTauDraw[u]].insert({ { s.a, s.b }, u });
    }
    V::H128 idle = signatureIdle(Probes);
    int last = -3;
    auto ident = [&](uint64_t rank) {
        uint32_t w = V::word_of_rank(rank);
        int ts[3] = { 0, 1, 2 };
        for (int t : ts) {
            V::H128 s = signatureHop(w, Probes, 6, t);
            if (t == 0 && s == idle)
                return -1;
            auto it = byTau[t].find({ s.a, s.b });
            if (it != byTau[t].end())
                return it->second;
        }
        return -2;
    };
    (void)last;
    std::vector<std::pair<uint64_t, int>> pts;
    for (int i = 0; i < grid; i++) {
        uint64_t r = (uint64_t)((double)i / grid * 4294967296.0);
        pts.push_back({ r, ident(r) });
    }
    pts.push_back({ FULL - 1, ident(FULL - 1) });
    Partition.push_back(pts[0]);
    for (size_t i = 1; i < pts.size(); i++) {
        if (pts[i].second == pts[i - 1].second)
            continue;
        uint64_t lo = pts[i - 1].first, hi = pts[i].first;
        int a = pts[i - 1].second;
        // everything between two grid points is resolved, also several switches
        std::vector<std::pair<uint64_t, int>> stack;
        std::function<void(uint64_t, int, uint64_t, int)> rec = [&](uint64_t x, int ax, uint64_t y, int ay) {
            if (ax == ay)
                return;
            if (y - x == 1) {
                Partition.push_back({ y, ay });
                return;
            }
            uint64_t m = (x + y) / 2;
            int am = ident(m);
            rec(x, ax, m, am);
            rec(m, am, y, ay);
        };
        rec(lo, a, hi, pts[i].second);
    }
    for (int u = 0; u < NU; u++)
        Sel[u] = 0;
    for (size_t i = 0; i < Partition.size(); i++) {
        uint64_t e = i + 1 < Partition.size() ? Partition[i + 1].first : FULL;
        int u = Partition[i].second;
        if (u >= 0)
            Sel[u] += (e - Partition[i].first) / 4294967296.0;
    }
}

// ---- C05 -----------------------------------------------------------------------------------
// All diagrams of a given order the formalism allows, enumerated without the simulator: vertices 2i and 2i+1
// are the ends of interaction i; a permutation gives the propagators.
struct Allowed {
    std::set<std::pair<uint64_t, uint64_t>> keys;
    uint64_t raw = 0;
};
static bool kExists(int n, const std::vector<int>& perm, const std::vector<int>& wIn /*vertex at IN end*/)
{
    // unknown momenta: G[v] leaves vertex v; W[i] = flow conservation; depth-first assignment
    int N = 2 * n, K = 2 * MAX_K + 1;
    std::vector<int> g(N, 0);
    std::vector<int> used(K, 0);
    std::vector<int> inv(N);
    for (int v = 0; v < N; v++)
        inv[perm[v]] = v;
    std::function<bool(int)> rec = [&](int v) -> bool {
        if (v == N) {
            std::set<int> ws;
            for (int i = 0; i < n; i++) {
                int a = wIn[i], b = (a == 2 * i) ? 2 * i + 1 : 2 * i;
                // at IN end: Gin - Gout - W = 0 ; at OUT end: Gin - Gout + W = 0
                int w = ((g[inv[a]] - g[a]) % K + K) % K;
                int w2 = ((g[b] - g[inv[b]]) % K + K) % K;
                if (w != w2)
                    return false;
                int aw = std::min(w, K - w);
                if (aw == 0 || ws.count(aw))
                    return false;
                ws.insert(aw);
            }
            return true;
        }
        for (int k = 0; k < K; k++)
            if (!used[k]) {
                used[k] = 1;
                g[v] = k;
                bool ok = rec(v + 1);
                used[k] = 0;
                if (ok)
                    return true;
            }
        return false;
    };
    return rec(0);
}
static uint64_t allowedCount = 0;
static std::set<std::pair<uint64_t, uint64_t>> allowedKeys(int n, std::map<std::pair<uint64_t, uint64_t>, std::string>* desc)
{
    std::set<std::pair<uint64_t, uint64_t>> res;
    int N = 2 * n;
    std::vector<int> perm(N);
    for (int i = 0; i < N; i++)
        perm[i] = i;
    int NS = W_.Vol * W_.Sub;
    do {
        // connected?
        {
            std::vector<int> comp(N);
            for (int i = 0; i < N; i++)
                comp[i] = i;
            std::function<int(int)> f = [&](int x) { return comp[x] == x ? x : comp[x] = f(comp[x]); };
            for (int v = 0; v < N; v++) {
                comp[f(v)] = f(perm[v]);
                comp[f(v)] = f(v ^ 1);
            }
            bool c = true;
            for (int v = 1; v < N; v++)
                c &= f(v) == f(0);
            if (!c)
                continue;
        }
        std::vector<int> wIn(n);
        for (int i = 0; i < n; i++)
            wIn[i] = 2 * i;
        if (!kExists(n, perm, wIn))
            continue;
        std::vector<int> loop(N, -1);
        int nl = 0;
        for (int v = 0; v < N; v++)
            if (loop[v] < 0) {
                for (int u = v; loop[u] < 0; u = perm[u])
                    loop[u] = nl;
                nl++;
            }
        // direction of every interaction does not restrict anything: relabelling 2i<->2i+1 gives it, so keep IN at 2i
        for (int meas = 0; meas < N + n; meas++) { // measured propagator leaving vertex meas, or interaction
            for (int del = 0; del < (1 << n); del++) {
                if (meas >= N && (del >> (meas - N) & 1))
                    continue;
                if (n == 1 && del)
                    continue; // see C05 in properties: an instantaneous interaction needs order >= 2
                for (long sp = 0; sp < (1L << N); sp++) { // spin of the propagator leaving v
                    bool ok = true;
                    for (int i = 0; i < n && ok; i++) {
                        int s = 0;
                        for (int v : { 2 * i, 2 * i + 1 })
                            s -= (sp >> v & 1);
                        for (int v = 0; v < N; v++)
                            if (perm[v] == 2 * i || perm[v] == 2 * i + 1)
                                s += (sp >> v & 1);
                        ok = s == 0;
                    }
                    if (!ok)
                        continue;
                    long nR = 1, nT = 1;
                    for (int i = 0; i < nl; i++)
                        nR *= NS;
                    for (int i = 0; i < N; i++)
                        nT *= W_.NTau;
                    for (long r = 0; r < nR; r++)
                        for (long t = 0; t < nT; t++) {
                            int tau[MAX_BUNDLE];
                            long x = t;
                            bool good = true;
                            for (int v = 0; v < N; v++) {
                                tau[v] = x % W_.NTau;
                                x /= W_.NTau;
                            }
                            for (int i = 0; i < n; i++)
                                if ((del >> i & 1) && tau[2 * i] != tau[2 * i + 1])
                                    good = false;
                            if (!good)
                                continue;
                            allowedCount++;
                            int inv[MAX_BUNDLE];
                            for (int v = 0; v < N; v++)
                                inv[perm[v]] = v;
                            int site[MAX_BUNDLE];
                            long y = r;
                            int ls[MAX_BUNDLE];
                            for (int i = 0; i < nl; i++) {
                                ls[i] = y % NS;
                                y /= NS;
                            }
                            for (int v = 0; v < N; v++)
                                site[v] = ls[loop[v]];
                            // key in the same traversal order as StateReader::keyFrom, momenta left out
                            std::vector<int8_t> out;
                            int idx[MAX_BUNDLE], q[MAX_BUNDLE], m = 0;
                            for (int i = 0; i < N; i++)
                                idx[i] = -1;
                            auto visit = [&](int v) {
                                if (idx[v] < 0) {
                                    idx[v] = m;
                                    q[m++] = v;
                                }
                            };
                            visit(meas < N ? meas : 2 * (meas - N));
                            for (int h = 0; h < m; h++) {
                                visit(perm[q[h]]);
                                visit(inv[q[h]]);
                                visit(q[h] ^ 1);
                            }
                            out.push_back(n);
                            out.push_back(meas < N ? 2 : 0);
                            for (int h = 0; h < m; h++) {
                                int v = q[h];
                                int i = v / 2;
                                out.push_back(idx[perm[v]]);
                                out.push_back(idx[v ^ 1]);
                                out.push_back((v & 1) | ((del >> i & 1) << 1) | ((meas == N + i) << 2) | ((meas == v) << 4));
                                out.push_back(tau[v]);
                                out.push_back(((sp >> inv[v] & 1) << 1) | (sp >> v & 1));
                                int c = site[v] / W_.Sub;
                                out.push_back(c / W_.L1);
                                out.push_back(c % W_.L1);
                                out.push_back(site[v] % W_.Sub);
                            }
                            V::H128 hh;
                            hh.add(out.data(), out.size());
                            res.insert({ hh.a, hh.b });
                            if (desc) {
                                std::string s = V::fmt("order %d perm", n);
                                for (int v = 0; v < N; v++)
                                    s += V::fmt(" %d>%d", v, perm[v]);
                                s += V::fmt(" measured %s%d delta-mask %d spins %lx taus %ld sites %ld", meas < N ? "G" : "W", meas < N ? meas : meas - N, del, sp, t, r);
                                (*desc)[{ hh.a, hh.b }] = s;
                            }
                        }
                }
            }
        }
    } while (std::next_permutation(perm.begin(), perm.end()));
    return res;
}

// ---- C29 ---------------------------------------------------------------------------------
// What the chain measures on average up to first order: every reached structure, with its times moved over the bins,
// contributes the real measurement times its stationary weight.  The sums are left in a statistics file.
static uint64_t structures = 0, placed = 0;
static void stationarySums(const char* file)
{
    const int B = W_.Bins;
    const double D = W_.Beta / B;
    Diagram& d = *W_.Dg;
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> seen;
    std::vector<double> grid = W_.tau;
    auto real1 = [&](Complex& a) { return cd(a.Re, a.Im); };
    std::vector<cd> S(MO.nS), Pl(MO.nP), GG(MO.nGG), WW(MO.nWW);
    double nS = 0, nP = 0, nG = 0, nW = 0;
    auto clear = [&]() {
        W_.Wt->Sigma->Estimator.ClearStatistics();
        W_.Wt->Polar->Estimator.ClearStatistics();
        W_.Wt->GammaG->ClearStatistics();
        W_.Wt->GammaW->ClearStatistics();
    };
    auto norm = [](Dictionary x) { return x.Get<double>("NormAccu"); };
    // weights of the lines, from the same functions the updates use
    auto reweigh = [&]() {
        cd p = d.SignFermiLoop * (d.Order % 2 ? -1.0 : 1.0);
        for (int i = 0; i < R->ng; i++) {
            Vertex *a = R->V_[R->gfrom[i]], *b = R->V_[R->gto[i]];
            GLine* g = R->G_[i];
            g->Weight = g->IsGGGammaG ? d.GWeight->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(OUT), b->Spin(IN), false, true, &d.UExt)
                                      : d.GWeight->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(OUT), b->Spin(IN), g->IsMeasure, false);
            p *= real1(g->Weight);
        }
        for (int i = 0; i < R->nw; i++) {
            Vertex *a = R->V_[R->wa[i]], *b = R->V_[R->wb[i]];
            WLine* w = R->W_[i];
            w->Weight = w->IsWWGammaW ? d.WWeight->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(), b->Spin(), false, false, false, true, &d.UExt)
                                      : d.WWeight->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(), b->Spin(), w->IsWorm, w->IsMeasure, w->IsDelta, false);
            p *= real1(w->Weight);
        }
        d.Weight = Complex(p.real(), p.imag());
        if (std::abs(p) > 0)
            d.Phase = Complex(p.real() / std::abs(p), p.imag() / std::abs(p));
        return std::abs(p);
    };
    double sumW = 0;
    uint64_t here = 0;
    auto take = [&](Complex* a, size_t k, std::vector<cd>& to, double w) {
        for (size_t i = 0; i < k; i++)
            if (a[i].Re != 0 || a[i].Im != 0)
                to[i] += w * real1(a[i]), a[i] = Complex(0, 0);
    };
    auto measure = [&](double w) {
        sumW += w, here++;
        placed++;
        W_.Mon->Measure();
        take(MO.aS, MO.nS, S, w), take(MO.aP, MO.nP, Pl, w);
        if (W_.Gamma)
            take(MO.aGG, MO.nGG, GG, w), take(MO.aWW, MO.nWW, WW, w);
    };
    auto flush = [&]() { // the normalisation credited on the way
        double w = here ? sumW / here : 0;
        nS += w * norm(W_.Wt->Sigma->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
        nP += w * norm(W_.Wt->Polar->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
        if (W_.Gamma)
            nG += w * norm(W_.Wt->GammaG->StatisToDict()), nW += w * norm(W_.Wt->GammaW->StatisToDict());
        clear();
        sumW = 0, here = 0;
    };
    clear();
    for (auto& node : Nodes) {
        if (!node.physical)
            continue;
        unpack(node.blob, curMem.data());
        restore();
        R->read();
        V::H128 h = R->hash(false, false);
        if (!seen.insert({ { h.a, h.b }, 0 }).second)
            continue;
        structures++;
        V::beat()++;
        if (V::argi("show", 0))
            V::note(R->describe());
        double f = W_.Para.OrderReWeight[d.Order] * std::pow(0.5, std::max(1, d.Order)) * (d.MeasureGLine ? 1 : W_.Para.PolarReweight);
        if (d.HasGammaGW)
            f *= d.MeasureGLine ? W_.Para.GammaGReweight : W_.Para.GammaWReweight;
        if (d.Order == 0) {
            measure(f * weight::Norm::Weight());
            flush();
            continue;
        }
        // each point in time on its own (an instantaneous interaction is one point), in every bin, and in every order
        // within the bins: what is integrated is constant on each of these simplices
        std::vector<std::vector<Vertex*>> point;
        for (int i = 0; i < R->nv; i++) {
            Vertex* v = R->V_[i];
            bool joined = false;
            if (v->nW->IsDelta)
                for (auto& q : point)
                    if (q[0]->nW == v->nW)
                        q.push_back(v), joined = true;
            if (!joined)
                point.push_back({ v });
        }
        int n = point.size() + (d.HasGammaGW ? 1 : 0);
        std::vector<int> bin(n, 0), rank(n);
        double volume = f;
        for (int i = 0; i < n; i++)
            volume *= D / (i + 1);
        while (true) {
            for (int i = 0; i < n; i++)
                rank[i] = i;
            do {
                for (int i = 0; i < n; i++) {
                    double t = (bin[i] + (rank[i] + 0.5) / n) * D;
                    if (i < (int)point.size())
                        for (Vertex* v : point[i])
                            v->Tau = t;
                    else
                        d.UExt.Tau = t;
                }
                measure(reweigh() * volume);
            } while (std::next_permutation(rank.begin(), rank.end()));
            int i = 0;
            while (i < n && ++bin[i] == B)
                bin[i++] = 0;
            if (i == n)
                break;
        }
        flush();
    }
    clear();
    auto put = [](Complex* a, const std::vector<cd>& v) {
        for (size_t i = 0; i < v.size(); i++)
            a[i] = Complex(v[i].real(), v[i].imag());
    };
    put(MO.aS, S), put(MO.aP, Pl);
    W_.Wt->Sigma->Estimator.MeasureNorm(nS), W_.Wt->Polar->Estimator.MeasureNorm(nP);
    if (W_.Gamma) {
        put(MO.aGG, GG), put(MO.aWW, WW);
        W_.Wt->GammaG->MeasureNorm(nG), W_.Wt->GammaW->MeasureNorm(nW);
    }
    W_.Wt->ToDict(weight::SigmaPolar | (W_.Gamma ? weight::GammaGWStatis : 0)).BigSave(file);
    V::stati("structures", structures);
    V::stati("configurations", placed);
}
int main(int argc, char** argv)
{
    V::init(argc, argv);
    Prop = V::arg("check", "C01");
    V::guard(Prop, (int)V::argi("hang", 20));
    double t0 = V::now();
    V::in_code() = true;
    try {
        W_.build();
    }
    catch (std::exception& e) {
        V::in_code() = false;
        V::viol(Prop, "setup", std::string("building a simulation aborts: ") + e.what());
        V::finish();
    }
    V::in_code() = false;
    R = new StateReader(W_);
    NW64 = sizeof(Diagram) / 8;
    Mem = (uint64_t*)W_.Dg;
    Base.assign(Mem, Mem + NW64);
    curMem.resize(NW64);
    for (double u : W_.tauU)
        S.tauWord.push_back(V::word_of_u(u));
    Verif::Source = &S;
    long maxStates = V::argi("states", 20000), maxDepth = V::argi("depth", 10000);
    double maxTime = V::argf("time", 1e9);
    bool db = Prop == "C01";
    MO.init();
    bool useHop = Prop == "C01" || Prop == "C23" || Prop == "C05";
    for (int u = 0; u < NU; u++)
        Sel[u] = u < 17 || W_.Gamma ? 1.0 / (W_.Gamma ? 23 : 19) : 0;
    bool fresh, broken;
    intern(-1, fresh, broken);
    if (broken || Nodes.empty()) {
        V::viol(Prop, "initial", "initial diagram is invalid: " + R->err02 + R->err03);
        V::finish();
    }
    if (!R->err03.empty() && Prop == "C03")
        V::viol("C03", "initial", R->err03);
    if (useHop) {
        // breadth-first pool of states, no thresholds
        std::string keepProp = Prop;
        long pool = V::argi("pool", 3000);
        Prop = "none";
        std::vector<Blob> pb;
        for (uint32_t i = 0; i < Nodes.size() && (long)Nodes.size() < pool; i++) {
            Cur = i;
            unpack(Nodes[i].blob, curMem.data());
            restore();
            curDigest = R->digest();
            for (int u = 0; u < NU; u++)
                if (u < 17 || W_.Gamma)
                    expand(i, u, false);
        }
        Prop = keepProp;
        V::nviol() = 0;
        for (size_t i = 0; i < Nodes.size(); i++)
            pb.push_back(Nodes[i].blob);
        // a thinned selection first, then every state of the pool
        std::vector<Blob> order;
        size_t step = std::max<size_t>(1, pb.size() / 400);
        for (size_t i = 0; i < pb.size(); i += step)
            order.push_back(pb[i]);
        for (size_t i = 0; i < pb.size(); i++)
            order.push_back(pb[i]);
        makeProbes(order);
        resolveHop((int)V::argi("grid", 512));
        Nodes.clear();
        Index.clear();
        Graph.clear();
        memset(nAcc, 0, sizeof nAcc);
        memcpy(Mem, Base.data(), NW64 * 8);
        Cur = 0;
        intern(-1, fresh, broken);
        if (Prop == "C23") {
            // exact shares
            int slots = W_.Gamma ? 23 : 19;
            std::map<int, double> mass;
            for (size_t i = 0; i < Partition.size(); i++) {
                uint64_t e = i + 1 < Partition.size() ? Partition[i + 1].first : FULL;
                mass[Partition[i].second] += (e - Partition[i].first) / 4294967296.0;
            }
            V::stati("states", Probes.size());
            V::stati("transitions", nRuns);
            V::stati("classes", NProbeClasses);
            V::stati("switch_points", Partition.size());
            if (!hopErr.empty())
                V::viol("C23", "step", hopErr);
            for (int u = 0; u < NU; u++) {
                double want = u < 17 || W_.Gamma ? 1.0 / slots : 0;
                double got = mass.count(u) ? mass[u] : 0;
                if (std::fabs(got - want) > 4e-9)
                    V::viol("C23", UName[u], V::fmt("%s is chosen with probability %.12g instead of %.12g", UName[u], got, want));
            }
            if (mass.count(-2))
                V::viol("C23", "unknown", V::fmt("with probability %.12g a step does something that is none of the updates", mass[-2]));
            std::string s;
            for (auto& p : Partition)
                s += V::fmt("%.9f:%s ", p.first / 4294967296.0, p.second >= 0 ? UName[p.second] : p.second == -1 ? "idle" : "?");
            V::sample(s);
            if (NProbeClasses < (W_.Gamma ? NU + 1 : 18))
                V::note(V::fmt("only %d of the updates are told apart by the probe states", NProbeClasses));
            // n steps are n single steps
            for (int n : { 0, 1, 2, 3 }) {
                std::vector<uint64_t> r1;
                for (auto& b : Probes) {
                    // fixed words: selector 'a' for every step, first choice everywhere
                    for (uint64_t a = 0; a < 23; a++) {
                        uint32_t word = V::word_of_rank((uint64_t)((a + 0.5) / 23 * 4294967296.0));
                        struct Fix : Verif::WordSource {
                            uint32_t w;
                            std::mt19937::result_type Word(int k, int, int) override { return k == 0 ? w : 0; }
                        } F;
                        F.w = word;
                        Verif::Source = &F;
                        V::H128 h[2];
                        bool thr[2] = { false, false };
                        for (int mode = 0; mode < 2; mode++) {
                            unpack(b, curMem.data());
                            restore();
                            const long long c0 = 9000000000LL; // more than 32 bits hold
                            W_.Para.Counter = c0;
                            V::in_code() = true;
                            try {
                                if (mode == 0)
                                    W_.Mk->Hop(n);
                                else
                                    for (int i = 0; i < n; i++)
                                        W_.Mk->Hop(1);
                            }
                            catch (std::exception&) {
                                thr[mode] = true;
                            }
                            V::in_code() = false;
                            V::beat()++;
                            if (!thr[mode] && W_.Para.Counter != c0 + n)
                                V::viol("C23", "count", V::fmt("%d steps advance the step counter by %lld", n, W_.Para.Counter - c0));
                            h[mode] = R->digest();
                        }
                        if (thr[0] != thr[1] || (!thr[0] && !(h[0] == h[1])))
                            V::viol("C23", "sweep", V::fmt("one call for %d steps differs from %d single-step calls", n, n));
                        nRuns += 2;
                    }
                }
                Verif::Source = &S;
            }
            V::stati("hop_runs", nRuns);
            V::stati("complete", 1);
            V::finish();
        }
    }
    bool complete = true;
    long frontierDepth = 0, deepest = 0;
    // breadth first from the front; with mixed=1 every other expansion takes the newest state instead
    bool mixed = V::argi("mixed", 0);
    uint32_t nExp = 0;
    {
        uint32_t front = 0, listed = 0;
        std::vector<uint32_t> newest;
        // climb=N: the newest state of the highest order first, until one of order N turns up; the search starts there
        if (int to = (int)V::argi("climb", 0)) {
            std::vector<std::vector<uint32_t>> byOrder(64);
            size_t seen = 0;
            for (bool there = false; !there;) {
                for (; seen < Nodes.size() && !there; seen++) {
                    byOrder[std::max<int>(0, Nodes[seen].order)].push_back(seen);
                    if (Nodes[seen].order >= to)
                        there = true, front = listed = seen;
                }
                if (there)
                    break;
                int o = 63;
                while (o >= 0 && byOrder[o].empty())
                    o--;
                if (o < 0 || nExp >= maxStates || V::nviol() > 40) {
                    complete = false;
                    V::note(V::fmt("no state of order %d found", to));
                    break;
                }
                uint32_t i = byOrder[o].back();
                byOrder[o].pop_back();
                if (Nodes[i].expanded)
                    continue;
                Cur = i;
                unpack(Nodes[i].blob, curMem.data());
                restore();
                curDigest = R->digest();
                for (int u = 0; u < NU; u++)
                    if (Sel[u] > 0)
                        expand(i, u, db);
                Nodes[i].expanded = true;
                nExp++;
            }
            V::note(V::fmt("order %d first reached after %u expansions, at state %u", to, nExp, front));
            complete = false;
        }
        for (bool lifo = false;; lifo = mixed && !lifo) {
            for (; mixed && listed < Nodes.size(); listed++)
                newest.push_back(listed);
            uint32_t i;
            if (lifo) {
                while (!newest.empty() && Nodes[newest.back()].expanded)
                    newest.pop_back();
                if (newest.empty())
                    continue;
                i = newest.back();
                newest.pop_back();
            }
            else {
                while (front < Nodes.size() && Nodes[front].expanded)
                    front++;
                if (front == Nodes.size())
                    break;
                i = front;
                frontierDepth = Nodes[i].depth;
            }
            if (Nodes[i].depth >= maxDepth || nExp >= maxStates || V::now() - t0 > maxTime || V::nviol() > 40) {
                complete = false;
                break;
            }
            deepest = std::max<long>(deepest, Nodes[i].depth);
            Cur = i;
            unpack(Nodes[i].blob, curMem.data());
            restore();
            curDigest = R->digest();
            for (int u = 0; u < NU; u++)
                if (Sel[u] > 0)
                    expand(i, u, db);
            Nodes[i].expanded = true;
            nExp++;
        }
    }
    uint64_t pairs = 0;
    double worst = 0;
    if (db) {
        std::sort(Edges.begin(), Edges.end(), [](const Edge& a, const Edge& b) { return a.from != b.from ? a.from < b.from : a.to < b.to; });
        // merge parallel edges
        std::vector<Edge> E;
        for (auto& e : Edges) {
            if (!E.empty() && E.back().from == e.from && E.back().to == e.to) {
                E.back().p += e.p;
                E.back().slack += e.slack;
                E.back().mask |= e.mask;
            }
            else
                E.push_back(e);
        }
        auto find = [&](uint32_t a, uint32_t b) -> const Edge* {
            auto it = std::lower_bound(E.begin(), E.end(), std::make_pair(a, b), [](const Edge& e, const std::pair<uint32_t, uint32_t>& k) { return e.from != k.first ? e.from < k.first : e.to < k.second; });
            if (it != E.end() && it->from == a && it->to == b)
                return &*it;
            return nullptr;
        };
        auto names = [&](uint32_t m) {
            std::string s;
            for (int u = 0; u < NU; u++)
                if (m >> u & 1)
                    s += std::string(s.empty() ? "" : "+") + UName[u];
            return s.empty() ? std::string("none") : s;
        };
        double maxUp = 0;
        for (auto& e : E) {
            if (e.from == e.to || !Nodes[e.from].expanded || !Nodes[e.to].expanded)
                continue;
            const Edge* r = find(e.to, e.from);
            if (r && e.from > e.to)
                continue; // each pair once
            pairs++;
            double a = Nodes[e.from].pi * e.p, b = r ? Nodes[e.to].pi * r->p : 0;
            double tol = 1e-6 * std::max(a, b) + 2 * (Nodes[e.from].pi * e.slack + (r ? Nodes[e.to].pi * r->slack : 0));
            double rel = std::fabs(a - b) / std::max(a, b);
            if (std::fabs(a - b) > tol) {
                unpack(Nodes[e.from].blob, curMem.data());
                restore();
                R->read();
                std::string da = R->describe();
                unpack(Nodes[e.to].blob, curMem.data());
                restore();
                R->read();
                std::string tag = names(e.mask) + "|" + (r ? names(r->mask) : "none");
                V::viol("C01", tag, V::fmt("pi_i P_ij = %.12g (%s) but pi_j P_ji = %.12g (%s), ratio %.9g; i=%u {", a, names(e.mask).c_str(), b, r ? names(r->mask).c_str() : "none", a / b, e.from) + da + V::fmt("} j=%u {", e.to) + R->describe() + "}; " + trace(e.from));
            }
            else
                worst = std::max(worst, rel);
        }
        (void)maxUp;
        V::stati("pairs", pairs);
        V::stati("edges", E.size());
        V::stat("worst_rel", worst);
        std::string s;
        for (int u = 0; u < NU; u++)
            if (Sel[u] > 0)
                s += V::fmt("%s %.9f; ", UName[u], Sel[u]);
        V::note("selection probabilities: " + s);
    }
    if (Prop == "C05") {
        if (!complete)
            V::note("reachable set not closed within the bound");
        else {
            // every state must lead back to the initial one
            std::vector<uint32_t> head(Nodes.size() + 1, 0), back(Graph.size());
            for (auto& g : Graph)
                head[g.second + 1]++;
            for (size_t k = 1; k < head.size(); k++)
                head[k] += head[k - 1];
            auto fill = head;
            for (auto& g : Graph)
                back[fill[g.second]++] = g.first;
            std::vector<char> seen(Nodes.size(), 0);
            std::vector<uint32_t> q(1, 0);
            seen[0] = 1;
            for (size_t k = 0; k < q.size(); k++)
                for (uint32_t e = head[q[k]]; e < head[q[k] + 1]; e++)
                    if (!seen[back[e]]) {
                        seen[back[e]] = 1;
                        q.push_back(back[e]);
                    }
            int shown = 0;
            for (uint32_t k = 0; k < Nodes.size(); k++)
                if (!seen[k] && shown++ < 3) {
                    unpack(Nodes[k].blob, curMem.data());
                    restore();
                    R->read();
                    V::viol("C05", "noreturn", "no way back to the initial diagram from " + R->describe() + " " + trace(k));
                }
            V::stati("returning", q.size());
        }
        std::set<std::pair<uint64_t, uint64_t>> got[4];
        for (auto& n : Nodes)
            if (n.physical) {
                unpack(n.blob, curMem.data());
                restore();
                if (!R->read() || W_.Dg->HasGammaGW)
                    continue;
                V::H128 h = R->hash(false);
                if (W_.Dg->Order > 0)
                    got[W_.Dg->Order].insert({ h.a, h.b });
            }
        for (int o = 1; o <= W_.Order && complete; o++) {
            std::map<std::pair<uint64_t, uint64_t>, std::string> desc;
            auto want = allowedKeys(o, &desc);
            V::stati(V::fmt("allowed_order%d", o).c_str(), want.size());
            V::stati(V::fmt("reached_order%d", o).c_str(), got[o].size());
            int shown = 0;
            for (auto& k : want)
                if (!got[o].count(k) && shown++ < 3)
                    V::viol("C05", "unreachable", "allowed but never reached: " + desc[k]);
            shown = 0;
            if (got[o] != want)
                for (auto& n : Nodes)
                    if (n.physical && shown < 3) {
                        unpack(n.blob, curMem.data());
                        restore();
                        R->read();
                        if (W_.Dg->Order != o || W_.Dg->HasGammaGW)
                            continue;
                        V::H128 h = R->hash(false);
                        if (!want.count({ h.a, h.b })) {
                            shown++;
                            V::viol("C05", "forbidden", "reached but not allowed: " + R->describe() + " " + trace(&n - &Nodes[0]));
                        }
                    }
        }
    }
    if (Prop == "C29") {
        if (!complete)
            V::viol("C29", "unclosed", "the reachable set is not closed within the bound");
        else
            stationarySums("1_MC_statis.hkl");
    }
    V::stati("states", Nodes.size());
    V::stati("expanded", nExp);
    V::stati("transitions", nTrans);
    V::stati("runs", nRuns);
    V::stati("rejections_checked", nRejectedChecked);
    V::stati("complete", complete);
    for (int u = 0; u < NU; u++)
        if (nAcc[u])
            V::stati((std::string("accepted_") + UName[u]).c_str(), nAcc[u]);
    V::stati("depth", frontierDepth);
    V::stati("deepest", deepest);
    if (Prop == "C06") {
        V::stati("measurements", MO.checked);
        std::string s;
        for (auto& k : MO.kinds)
            s += k + " ";
        V::note("measured sectors: " + s);
    }
    if (Prop == "C17")
        V::stati("round_trips", roundTrips);
    if (Prop == "C01")
        V::stati("thresholds_bisected", nThresholdExact);
    std::map<std::string, long> hist;
    for (auto& n : Nodes) {
        (void)n;
    }
    for (uint32_t k : { (uint32_t)(Nodes.size() / 2), (uint32_t)(Nodes.size() - 1) }) {
        unpack(Nodes[k].blob, curMem.data());
        restore();
        if (R->read())
            V::sample(R->describe() + " <- " + trace(k));
    }
    V::stat("wall", V::now() - t0);
    V::finish();
}
