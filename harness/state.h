// Reading a diagram: structural checks (C02), bookkeeping checks (C03), canonical key, exact weight.
#pragma once
#include "world.h"
using namespace diag;

struct StateReader {
    World& w;
    Diagram& d;
    std::string err02, err03;
    // filled by read()
    int n; // lines of the (possibly hidden) diagram: number of W lines
    int nv, ng, nw;
    Vertex* V_[MAX_BUNDLE];
    GLine* G_[MAX_BUNDLE];
    WLine* W_[MAX_BUNDLE];
    int vtau[MAX_BUNDLE];
    int gi[MAX_BUNDLE], go[MAX_BUNDLE]; // per vertex: position of incoming / outgoing G
    int vw[MAX_BUNDLE];
    int gfrom[MAX_BUNDLE], gto[MAX_BUNDLE], wa[MAX_BUNDLE], wb[MAX_BUNDLE];
    int ira, masha;
    int gammaLine;
    int utau;
    int loops;
    cd product; // product of all line weights with fermion sign and (-1)^order
    bool zero;
    StateReader(World& w_) : w(w_), d(*w_.Dg) {}

    template <typename T>
    static int pos(T** a, int n, T* p)
    {
        for (int i = 0; i < n; i++)
            if (a[i] == p)
                return i;
        return -1;
    }
    int tauIndex(double t) const
    {
        for (int i = 0; i < w.NTau; i++)
            if (w.tau[i] == t)
                return i;
        return -1;
    }
    bool bad02(const std::string& s)
    {
        if (err02.empty())
            err02 = s;
        return false;
    }
    // recorded, but the diagram can still be interpreted
    void soft02(const std::string& s)
    {
        if (err02.empty())
            err02 = s;
    }
    void bad03(const std::string& s)
    {
        if (err03.empty())
            err03 = s;
    }
    // structure only; false if the state is too broken to interpret
    bool read()
    {
        err02.clear();
        err03.clear();
        nv = d.Ver.HowMany(), ng = d.G.HowMany(), nw = d.W.HowMany();
        if (d.Order < 0 || d.Order > w.Order)
            return bad02(V::fmt("order %d outside [0,%d]", d.Order, w.Order));
        n = d.Order == 0 ? 1 : d.Order;
        if (nv != 2 * n || ng != 2 * n || nw != n)
            return bad02(V::fmt("order %d has %d vertices, %d propagators, %d interactions", d.Order, nv, ng, nw));
        for (int i = 0; i < nv; i++)
            V_[i] = d.Ver(i);
        for (int i = 0; i < ng; i++)
            G_[i] = d.G(i);
        for (int i = 0; i < nw; i++)
            W_[i] = d.W(i);
        for (int i = 0; i < nv; i++)
            if (pos(V_, nv, V_[i]) != i || V_[i]->Name != i || !d.Ver.Exist(V_[i]))
                return bad02(V::fmt("vertex at position %d is named %d or listed twice", i, V_[i]->Name));
        for (int i = 0; i < ng; i++)
            if (pos(G_, ng, G_[i]) != i || G_[i]->Name != i || !d.G.Exist(G_[i]))
                return bad02(V::fmt("propagator at position %d is named %d or listed twice", i, G_[i]->Name));
        for (int i = 0; i < nw; i++)
            if (pos(W_, nw, W_[i]) != i || W_[i]->Name != i || !d.W.Exist(W_[i]))
                return bad02(V::fmt("interaction at position %d is named %d or listed twice", i, W_[i]->Name));
        for (int i = 0; i < ng; i++) {
            gfrom[i] = pos(V_, nv, G_[i]->nVer[IN]);
            gto[i] = pos(V_, nv, G_[i]->nVer[OUT]);
            if (gfrom[i] < 0 || gto[i] < 0)
                return bad02(V::fmt("propagator %d ends on a vertex that does not exist", i));
            if (V_[gfrom[i]]->nG[OUT] != G_[i] || V_[gto[i]]->nG[IN] != G_[i])
                return bad02(V::fmt("propagator %d and its end vertices disagree", i));
        }
        for (int i = 0; i < nw; i++) {
            wa[i] = pos(V_, nv, W_[i]->nVer[IN]);
            wb[i] = pos(V_, nv, W_[i]->nVer[OUT]);
            if (wa[i] < 0 || wb[i] < 0 || wa[i] == wb[i])
                return bad02(V::fmt("interaction %d has a bad end", i));
            if (V_[wa[i]]->nW != W_[i] || V_[wb[i]]->nW != W_[i] || V_[wa[i]]->Dir != IN || V_[wb[i]]->Dir != OUT)
                return bad02(V::fmt("interaction %d and its end vertices disagree", i));
        }
        for (int i = 0; i < nv; i++) {
            gi[i] = pos(G_, ng, V_[i]->nG[IN]);
            go[i] = pos(G_, ng, V_[i]->nG[OUT]);
            vw[i] = pos(W_, nw, V_[i]->nW);
            if (gi[i] < 0 || go[i] < 0 || vw[i] < 0 || gto[gi[i]] != i || gfrom[go[i]] != i)
                return bad02(V::fmt("vertex %d has a bad neighbour", i));
            vtau[i] = tauIndex(V_[i]->Tau);
            if (d.Order > 0 && vtau[i] < 0)
                return bad02(V::fmt("vertex %d sits at a time %.17g never drawn", i, V_[i]->Tau));
            const Site& r = V_[i]->R;
            if (r.Sublattice < 0 || r.Sublattice >= w.Sub || r.Coordinate[0] < 0 || r.Coordinate[0] >= w.L0 || r.Coordinate[1] < 0 || r.Coordinate[1] >= w.L1)
                return bad02(V::fmt("vertex %d lies outside the lattice", i));
            for (int s = 0; s < 2; s++)
                if (V_[i]->_spin[s] != UP && V_[i]->_spin[s] != DOWN)
                    return bad02("spin is neither up nor down");
        }
        ira = masha = -1;
        if (d.Worm.Exist) {
            if (d.Order == 0)
                return bad02("worm at order 0");
            ira = pos(V_, nv, d.Worm.Ira);
            masha = pos(V_, nv, d.Worm.Masha);
            if (ira < 0 || masha < 0 || ira == masha)
                return bad02("worm ends are not two live vertices");
            if (d.Worm.dSpin != 1 && d.Worm.dSpin != -1)
                return bad02("worm spin is not +-1");
            if (d.Worm.K.K < -MAX_K || d.Worm.K.K > MAX_K)
                return bad02("worm momentum out of range");
        }
        if (d.HasGammaGW < 0 || d.HasGammaGW > 2 || (d.HasGammaGW && (!w.Gamma || d.Order == 0)))
            return bad02("three-point insertion flag has an impossible value");
        // flags
        int mg = 0, mw = 0, gg = 0, ww = 0;
        gammaLine = -1;
        for (int i = 0; i < ng; i++) {
            if (G_[i]->IsMeasure) {
                mg++;
                if (d.GMeasure != G_[i])
                    soft02("measured propagator is not the registered one");
            }
            if (G_[i]->IsGGGammaG) {
                gg++;
                gammaLine = i;
                if (G_[i]->IsMeasure)
                    soft02("measured propagator carries a three-point insertion");
            }
        }
        for (int i = 0; i < nw; i++) {
            if (W_[i]->IsMeasure) {
                mw++;
                if (d.WMeasure != W_[i])
                    soft02("measured interaction is not the registered one");
                if (W_[i]->IsDelta)
                    soft02("instantaneous interaction is measured");
            }
            if (W_[i]->IsWWGammaW) {
                ww++;
                gammaLine = i;
                if (W_[i]->IsMeasure || W_[i]->IsDelta)
                    soft02("three-point insertion on a measured or instantaneous interaction");
            }
            if (W_[i]->IsDelta && d.Order > 0 && V_[wa[i]]->Tau != V_[wb[i]]->Tau)
                soft02("instantaneous interaction joins two different times");
            bool worm = ira >= 0 && (vw[ira] == i || vw[masha] == i);
            if (d.Order > 0 && W_[i]->IsWorm != worm)
                soft02(V::fmt("interaction %d worm flag is %d", i, (int)W_[i]->IsWorm));
        }
        if (mg + mw != 1 || (mg == 1) != d.MeasureGLine)
            soft02(V::fmt("%d propagators and %d interactions are measured", mg, mw));
        if (gg != (d.HasGammaGW == 1) || ww != (d.HasGammaGW == 2))
            soft02(V::fmt("%d/%d three-point insertions for flag %d", gg, ww, d.HasGammaGW));
        utau = -1;
        if (d.HasGammaGW) {
            Vertex *a = d.HasGammaGW == 1 ? G_[gammaLine]->nVer[IN] : W_[gammaLine]->nVer[IN];
            Vertex *b = d.HasGammaGW == 1 ? G_[gammaLine]->nVer[OUT] : W_[gammaLine]->nVer[OUT];
            if (*d.Vin != a || *d.Vout != b)
                soft02("registered ends of the three-point insertion are wrong");
            utau = tauIndex(d.UExt.Tau);
            if (utau < 0)
                soft02("external point sits at a time never drawn");
            const Site& r = d.UExt.R;
            if (r.Sublattice < 0 || r.Sublattice >= w.Sub || r.Coordinate[0] < 0 || r.Coordinate[0] >= w.L0 || r.Coordinate[1] < 0 || r.Coordinate[1] >= w.L1)
                soft02("external point outside the lattice");
            if (d.UExt.Spin != UP)
                soft02("external point spin is not up");
        }
        // momenta
        bool gh[2 * MAX_K + 1] = { 0 }, wh[MAX_K + 1] = { 0 };
        for (int i = 0; i < ng; i++) {
            int k = G_[i]->K.K;
            if (k < -MAX_K || k > MAX_K) {
                soft02("propagator momentum out of range");
                continue;
            }
            if (gh[k + MAX_K])
                soft02(V::fmt("two propagators carry momentum %d", k));
            gh[k + MAX_K] = true;
        }
        for (int i = 0; i < nw; i++) {
            int k = std::abs(W_[i]->K.K);
            if (k > MAX_K || k == 0) {
                soft02(V::fmt("interaction momentum %d", W_[i]->K.K));
                continue;
            }
            if (wh[k])
                soft02(V::fmt("two interactions carry momentum +-%d", k));
            wh[k] = true;
        }
        for (int k = 0; k < 2 * MAX_K + 1; k++)
            if (d.GHash[k] != gh[k])
                soft02(V::fmt("propagator momentum table wrong at %d", k - MAX_K));
        for (int k = 0; k < MAX_K + 1; k++)
            if (d.WHash[k] != wh[k])
                soft02(V::fmt("interaction momentum table wrong at %d", k));
        for (int i = 0; i < nv; i++) {
            long k = (long)G_[gi[i]]->K.K - G_[go[i]]->K.K;
            k += (V_[i]->Dir == IN ? -1 : 1) * W_[vw[i]]->K.K;
            if (i == ira)
                k -= d.Worm.K.K;
            if (i == masha)
                k += d.Worm.K.K;
            if (k % (2 * MAX_K + 1))
                soft02(V::fmt("momentum not conserved at vertex %d", i));
        }
        if (d.Order > 0) {
            for (int i = 0; i < ng; i++)
                if (V_[gfrom[i]]->_spin[OUT] != V_[gto[i]]->_spin[IN])
                    soft02(V::fmt("spin changes along propagator %d", i));
            for (int i = 0; i < nw; i++) {
                int s = 0;
                for (int v : { wa[i], wb[i] })
                    s += V_[v]->_spin[IN] - V_[v]->_spin[OUT];
                int want = 0;
                if (ira >= 0)
                    want = d.Worm.dSpin * ((vw[ira] == i) - (vw[masha] == i));
                if (s != want)
                    soft02(V::fmt("spin not conserved at interaction %d", i));
            }
            // every fermion line is local: all vertices of a loop share a site
            for (int i = 0; i < ng; i++)
                if (V_[gfrom[i]]->R != V_[gto[i]]->R)
                    soft02(V::fmt("propagator %d leaves its site", i));
        }
        // fermion loops
        loops = 0;
        bool seen[MAX_BUNDLE] = { 0 };
        for (int i = 0; i < nv; i++)
            if (!seen[i]) {
                loops++;
                for (int v = i; !seen[v]; v = gto[go[v]])
                    seen[v] = true;
            }
        weigh();
        return true;
    }
    static bool close(cd a, const Complex& b, double rel)
    {
        double s = std::abs(a);
        return std::abs(a - cd(b.Re, b.Im)) <= rel * (s > 1e-300 ? s : 1e-300);
    }
    static std::string str(cd a) { return V::fmt("(%.12g,%.12g)", a.real(), a.imag()); }
    static std::string str(const Complex& a) { return V::fmt("(%.12g,%.12g)", a.Re, a.Im); }
    cd lineG(int i) const
    {
        if (G_[i]->IsMeasure)
            return 1.0;
        Vertex *a = V_[gfrom[i]], *b = V_[gto[i]];
        if (G_[i]->IsGGGammaG)
            return w.oGG(a->R, d.UExt.R, a->Tau, b->Tau, d.UExt.Tau, a->_spin[OUT]);
        return w.oG(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN]);
    }
    cd lineW(int i) const
    {
        Vertex *a = V_[wa[i]], *b = V_[wb[i]];
        int sa[2] = { a->_spin[IN], a->_spin[OUT] }, sb[2] = { b->_spin[IN], b->_spin[OUT] };
        bool worm = ira >= 0 && (vw[ira] == i || vw[masha] == i);
        if (worm)
            sa[0] = sa[1] = sb[0] = sb[1] = 1;
        if (W_[i]->IsMeasure)
            return 1.0;
        if (W_[i]->IsDelta)
            return w.oW(a->R, b->R, 0, 0, sa, sb, true);
        if (W_[i]->IsWWGammaW)
            return w.oWW(a->R, b->R, d.UExt.R, a->Tau, b->Tau, d.UExt.Tau, sa, sb);
        return w.oW(a->R, b->R, a->Tau, b->Tau, sa, sb, false);
    }
    void weigh()
    {
        double sign = (loops % 2 == 1 ? 1.0 : -1.0);
        if (d.SignFermiLoop != sign)
            bad03(V::fmt("fermion sign is %g with %d loops", d.SignFermiLoop, loops));
        if (d.Order == 0) {
            product = weight::Norm::Weight();
            if (!close(product, d.Weight, 1e-9))
                bad03("order-0 weight is " + str(d.Weight));
            if (!close(cd(1, 0), d.Phase, 1e-9))
                bad03("order-0 phase is " + str(d.Phase));
            zero = false;
            return;
        }
        product = sign * (d.Order % 2 ? -1.0 : 1.0);
        for (int i = 0; i < ng; i++) {
            cd g = lineG(i);
            if (!close(g, G_[i]->Weight, 1e-9))
                bad03(V::fmt("propagator %d stores ", i) + str(G_[i]->Weight) + " but is worth " + str(g));
            product *= g;
        }
        for (int i = 0; i < nw; i++) {
            cd g = lineW(i);
            if (!close(g, W_[i]->Weight, 1e-9))
                bad03(V::fmt("interaction %d stores ", i) + str(W_[i]->Weight) + " but is worth " + str(g));
            product *= g;
        }
        zero = std::abs(product) == 0;
        if (zero)
            bad03("a diagram of zero weight was accepted");
        else {
            if (!close(product, d.Weight, 1e-8))
                bad03("diagram weight is " + str(d.Weight) + " but should be " + str(product));
            if (!close(product / std::abs(product), d.Phase, 1e-8))
                bad03("diagram phase is " + str(d.Phase) + " but should be " + str(product / std::abs(product)));
        }
        if (ira >= 0 && d.Worm.Weight != weight::Worm::Weight(d.Worm.Ira->R, d.Worm.Masha->R, d.Worm.Ira->Tau, d.Worm.Masha->Tau))
            bad03("worm weight is stale");
    }
    // target distribution of the Markov chain (unnormalised)
    double pi() const
    {
        double p = std::abs(product);
        p *= w.Para.OrderReWeight[d.Order];
        int ord = d.Order == 0 ? 1 : d.Order;
        p *= std::pow(0.5, ord);
        p /= std::pow((double)w.NK, ord + 1);
        double cell = w.Beta / w.NTau;
        if (d.Order > 0) {
            int delta = 0;
            for (int i = 0; i < nw; i++)
                delta += W_[i]->IsDelta;
            p *= std::pow(cell, nv - delta);
        }
        if (!d.MeasureGLine)
            p *= w.Para.PolarReweight;
        if (ira >= 0)
            p *= w.Para.WormSpaceReweight / w.NK;
        if (d.HasGammaGW)
            p *= (d.MeasureGLine ? w.Para.GammaGReweight : w.Para.GammaWReweight) * cell;
        return p;
    }
    // canonical description, independent of names; with k=false momenta are left out
    void keyFrom(int start, std::vector<int8_t>& out, bool k, bool t) const
    {
        out.clear();
        int idx[MAX_BUNDLE], q[MAX_BUNDLE], m = 0;
        for (int i = 0; i < nv; i++)
            idx[i] = -1;
        auto visit = [&](int v) {
            if (idx[v] < 0) {
                idx[v] = m;
                q[m++] = v;
            }
        };
        visit(start);
        for (int h = 0; h < m; h++) {
            int v = q[h];
            visit(gto[go[v]]);
            visit(gfrom[gi[v]]);
            visit(wa[vw[v]] == v ? wb[vw[v]] : wa[vw[v]]);
            if (v == ira)
                visit(masha);
            if (v == masha)
                visit(ira);
            if (h == m - 1 && m < nv) { // disconnected piece: continue with every unvisited vertex in turn, smallest wins is not needed for a hash
                int best = -1;
                for (int u = 0; u < nv; u++)
                    if (idx[u] < 0 && (best < 0 || pieceLess(u, best)))
                        best = u;
                visit(best);
            }
        }
        out.push_back(d.Order);
        out.push_back((ira >= 0 ? 1 : 0) | (d.MeasureGLine ? 2 : 0) | (d.HasGammaGW << 2));
        bool full = d.Order > 0;
        for (int h = 0; h < m; h++) {
            int v = q[h];
            const Vertex* x = V_[v];
            out.push_back(idx[gto[go[v]]]);
            out.push_back(idx[wa[vw[v]] == v ? wb[vw[v]] : wa[vw[v]]]);
            const GLine* g = G_[go[v]];
            const WLine* l = W_[vw[v]];
            out.push_back(x->Dir | (l->IsDelta << 1) | (l->IsMeasure << 2) | (l->IsWWGammaW << 3) | (g->IsMeasure << 4) | (g->IsGGGammaG << 5));
            if (k) {
                out.push_back(g->K.K);
                out.push_back(l->K.K);
            }
            if (full) {
                out.push_back(t ? vtau[v] : 0);
                out.push_back((x->_spin[0] << 1) | x->_spin[1]);
                out.push_back(x->R.Coordinate[0]);
                out.push_back(x->R.Coordinate[1]);
                out.push_back(x->R.Sublattice);
            }
        }
        if (ira >= 0) {
            out.push_back(idx[ira]);
            out.push_back(idx[masha]);
            out.push_back(d.Worm.dSpin);
            if (k)
                out.push_back(d.Worm.K.K);
        }
        if (d.HasGammaGW) {
            out.push_back(t ? utau : 0);
            out.push_back(d.UExt.R.Coordinate[0]);
            out.push_back(d.UExt.R.Coordinate[1]);
            out.push_back(d.UExt.R.Sublattice);
        }
    }
    bool pieceLess(int a, int b) const { return G_[go[a]]->K.K < G_[go[b]]->K.K; } // momenta are distinct
    int start() const
    {
        if (d.MeasureGLine)
            return pos(const_cast<Vertex**>(V_), nv, d.GMeasure->nVer[IN]);
        return pos(const_cast<Vertex**>(V_), nv, d.WMeasure->nVer[IN]);
    }
    bool connected() const // without the worm line
    {
        int idx[MAX_BUNDLE] = { 0 }, q[MAX_BUNDLE], m = 0;
        q[m++] = 0;
        idx[0] = 1;
        for (int h = 0; h < m; h++) {
            int v = q[h];
            for (int u : { gto[go[v]], gfrom[gi[v]], wa[vw[v]] == v ? wb[vw[v]] : wa[vw[v]] })
                if (!idx[u]) {
                    idx[u] = 1;
                    q[m++] = u;
                }
        }
        return m == nv;
    }
    void key(std::vector<int8_t>& out, bool k = true, bool t = true) const { keyFrom(start(), out, k, t); }
    V::H128 hash(bool k = true, bool t = true) const
    {
        static std::vector<int8_t> b;
        key(b, k, t);
        V::H128 h;
        h.add(b.data(), b.size());
        return h;
    }
    std::string describe() const
    {
        std::string s = V::fmt("order %d%s%s%s;", d.Order, d.MeasureGLine ? " measuring G" : " measuring W",
                               ira >= 0 ? V::fmt(" worm %d->%d dS%+d K%d", ira, masha, d.Worm.dSpin, d.Worm.K.K).c_str() : "",
                               d.HasGammaGW ? V::fmt(" insertion %d at t%d r(%d,%d)%d", d.HasGammaGW, utau, d.UExt.R.Coordinate[0], d.UExt.R.Coordinate[1], d.UExt.R.Sublattice).c_str() : "");
        for (int i = 0; i < nv; i++)
            s += V::fmt(" V%d(t%d r%d,%d/%d %c%c)", i, vtau[i], V_[i]->R.Coordinate[0], V_[i]->R.Coordinate[1], V_[i]->R.Sublattice, V_[i]->_spin[0] ? 'u' : 'd', V_[i]->_spin[1] ? 'u' : 'd');
        for (int i = 0; i < ng; i++)
            s += V::fmt(" G%d:%d>%d K%d%s%s", i, gfrom[i], gto[i], G_[i]->K.K, G_[i]->IsMeasure ? "*" : "", G_[i]->IsGGGammaG ? "#" : "");
        for (int i = 0; i < nw; i++)
            s += V::fmt(" W%d:%d~%d K%d%s%s%s", i, wa[i], wb[i], W_[i]->K.K, W_[i]->IsMeasure ? "*" : "", W_[i]->IsDelta ? "d" : "", W_[i]->IsWWGammaW ? "#" : "");
        return s;
    }
    // everything a rejected update must leave alone
    V::H128 digest() const
    {
        V::H128 h;
        auto P = [&](const void* base, const void* p) { h.add((uint64_t)((const char*)p - (const char*)base)); };
        auto C = [&](const Complex& c) {
            h.add(&c.Re, 8);
            h.add(&c.Im, 8);
        };
        Diagram& D_ = d;
        h.add((uint64_t)D_.Order);
        C(D_.Phase);
        C(D_.Weight);
        h.add(&D_.SignFermiLoop, 8);
        int a = D_.Ver.HowMany(), b = D_.G.HowMany(), c = D_.W.HowMany();
        h.add((uint64_t)a << 40 | (uint64_t)b << 20 | c);
        for (int i = 0; i < a; i++) {
            Vertex* v = D_.Ver(i);
            P(&D_, v);
            h.add((uint64_t)v->Name);
            P(&D_, v->nG[0]);
            P(&D_, v->nG[1]);
            P(&D_, v->nW);
            h.add(((uint64_t)v->R.Sublattice << 48) ^ ((uint64_t)v->R.Coordinate[0] << 24) ^ (uint64_t)v->R.Coordinate[1]);
            h.add(v->_spin[0] * 2 + v->_spin[1]);
            h.add(&v->Tau, 8);
            h.add((uint64_t)v->Dir);
        }
        for (int i = 0; i < b; i++) {
            GLine* g = D_.G(i);
            P(&D_, g);
            h.add((uint64_t)g->Name * 4 + g->IsMeasure * 2 + g->IsGGGammaG);
            P(&D_, g->nVer[0]);
            P(&D_, g->nVer[1]);
            h.add((uint64_t)(int64_t)g->K.K);
            C(g->Weight);
        }
        for (int i = 0; i < c; i++) {
            WLine* g = D_.W(i);
            P(&D_, g);
            h.add((uint64_t)g->Name * 16 + g->IsMeasure * 8 + g->IsWWGammaW * 4 + g->IsDelta * 2 + g->IsWorm);
            P(&D_, g->nVer[0]);
            P(&D_, g->nVer[1]);
            h.add((uint64_t)(int64_t)g->K.K);
            C(g->Weight);
        }
        h.add(D_.GHash, sizeof D_.GHash);
        h.add(D_.WHash, sizeof D_.WHash);
        h.add((uint64_t)D_.Worm.Exist);
        if (D_.Worm.Exist) {
            P(&D_, D_.Worm.Ira);
            P(&D_, D_.Worm.Masha);
            h.add((uint64_t)(int64_t)D_.Worm.K.K * 4 + D_.Worm.dSpin);
            h.add(&D_.Worm.Weight, 8);
        }
        h.add((uint64_t)D_.MeasureGLine);
        P(&D_, D_.MeasureGLine ? (void*)D_.GMeasure : (void*)D_.WMeasure);
        h.add((uint64_t)D_.HasGammaGW);
        if (D_.HasGammaGW) {
            h.add(&D_.UExt.Tau, 8);
            h.add(((uint64_t)D_.UExt.R.Sublattice << 48) ^ ((uint64_t)D_.UExt.R.Coordinate[0] << 24) ^ (uint64_t)D_.UExt.R.Coordinate[1]);
            h.add((uint64_t)D_.UExt.Spin);
            P(&D_, D_.Vin);
            P(&D_, D_.Vout);
        }
        return h;
    }
};
