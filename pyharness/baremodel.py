"""C30: the lattices, the bare propagators and the bare interactions the solver starts from are those of the Hamiltonian;
the measured averages are those of their definitions.  Everything is rebuilt here from the geometry of the crystals."""
from vsolver import *
P = "C30"
weight, logger, parameter, model, measure, lattice, IO = load(["weight", "logger", "parameter", "model", "measure", "lattice", "IO"])
import numpy as np, itertools, math, io
PART = ARGS.get("part", "all")
LMAX1, LMAX2, LMAX3 = argi("l1", 7), argi("l2", 5), argi("l3", 3)
R3 = math.sqrt(3.0)
# ---- the crystals: translations, sites of a cell
S2 = [[0, 0]]
LAT = {
    "Chain": ([[1]], [[0]]),
    "Square": ([[1, 0], [0, 1]], S2),
    "Checkerboard": ([[1, 1], [1, -1]], [[0, 0], [1, 0]]),
    "ValenceBond": ([[1, 0], [0, 2]], [[0, 0], [0, 1]]),
    "Triangular": ([[1, 0], [.5, R3 / 2]], S2),
    "Assymetric_Triangular": ([[1, 0], [.5, R3 / 2]], [[0, 0], [.5, .5 / R3], [.5, -.5 / R3]]),
    "Honeycomb": ([[0, 1], [R3 / 2, -.5]], [[0, 0], [.5 / R3, .5]]),
    "Kagome": ([[1, 0], [.5, R3 / 2]], [[.5, 0], [.25, R3 / 4], [.75, R3 / 4]]),
    "Cubic": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]]),
    "3DCheckerboard": ([[1, 1, 0], [1, -1, 0], [1, 0, 1]], [[0, 0, 0], [1, 0, 0]]),
    "Pyrochlore": ([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0], [0, .25, .25], [.25, 0, .25], [.25, .25, 0]]),
}
LAT = {k: (np.array(a, float), np.array(b, float)) for k, (a, b) in LAT.items()}
def sizes(name):
    d = len(LAT[name][0])
    if d == 1: return [[l] for l in range(2, LMAX1 + 1)]
    return [list(t) for t in itertools.product(range(2, (LMAX2 if d == 2 else LMAX3) + 1), repeat=d)]
def cells(L): return itertools.product(*[range(l) for l in L])
def index(v, L):
    n = 0
    for x, l in zip(v, L): n = n * l + x % l
    return n
def shells(name):
    """the displacements (a, b, cell) of every coupling: [J1, J2, J3, J4], each the list of directed bonds"""
    A, B = LAT[name]
    d, n = len(A), len(B)
    pairs = [(a, b, c, tuple(np.dot(c, A) + B[b] - B[a])) for a in range(n) for b in range(n) for c in itertools.product(range(-4, 5), repeat=d)]
    def dist(v): return math.sqrt(sum(x * x for x in v))
    ds = sorted({round(dist(v), 6) for _, _, _, v in pairs} - {0.0})
    def at(x): return [(a, b, c) for a, b, c, v in pairs if abs(dist(v) - x) < 1e-5]
    sites = {tuple(np.round(np.dot(c, A) + B[b], 5) + 0.0) for b in range(n) for c in itertools.product(range(-4, 5), repeat=d)}
    def middle(a, b, c): return tuple(np.round((B[a] + np.dot(c, A) + B[b]) / 2, 5) + 0.0) in sites
    if name == "ValenceBond": # dimers along the second direction: J1 inside and along the rows, J2 between the dimers, J4 on the dimers
        near = at(1.0)
        between = [(a, b, c) for a, b, c in near if c[1] != 0]
        inside = [(a, b, c) for a, b, c in near if a != b and c[1] == 0]
        return [[e for e in near if e not in between], between, [], inside]
    if name in ("Assymetric_Triangular", "Cubic"): return [at(ds[0]), [], [], []]
    r = [at(ds[0]), at(ds[1]), [], []]
    if name == "Kagome": r[2] = [e for e in at(ds[2]) if not middle(*e)]      # across the hexagons
    if name == "Pyrochlore": r[2] = [e for e in at(ds[2]) if middle(*e)]      # along the chains
    return r
SH = {k: shells(k) for k in LAT}
EXPECTED = {"Chain": (2, 2, 0), "Square": (4, 4, 0), "Checkerboard": (8, 8, 0), "ValenceBond": (6, 2, 0), "Triangular": (6, 6, 0), "Assymetric_Triangular": (18, 0, 0), "Honeycomb": (6, 12, 0), "Kagome": (12, 12, 6), "Cubic": (6, 0, 0), "3DCheckerboard": (12, 24, 0), "Pyrochlore": (24, 48, 24)}
for k in LAT: assert tuple(len(x) for x in SH[k][:3]) == EXPECTED[k], (k, [len(x) for x in SH[k]])
def makemap(name, L, NT=4, beta=0.5):
    return weight.IndexMap(Beta=beta, L=list(L), NSublat=len(LAT[name][1]), MaxTauBin=NT, MaxTauBinTiny=NT, BasisNum=NT, Symmetry=[])
def close(a, b, tol=1e-9): return np.allclose(a, b, rtol=tol, atol=tol)
def attempt(what, f):
    STAT["transitions"] += 1
    try: return f()
    except Exception as e:
        import traceback
        viol(P, what.split(":")[0], "%s: %s: %s" % (what, type(e).__name__, "".join(traceback.format_exc().split("\n")[-4:-2]).strip()))
        return None
def where(a, b):
    i = np.unravel_index(np.argmax(np.abs(np.asarray(a) - np.asarray(b))), np.shape(a))
    return "at %s: %s, not %s" % (tuple(int(x) for x in i), np.asarray(a)[i], np.asarray(b)[i])
# ---- the spin models
D, U = 0, 3
sx, sy, sz = [0.5 * np.array(m) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
def spin4(m1, m2):
    """the interaction m1 x m2 with the legs of each end as one index in*2+out"""
    return np.outer(m1.reshape(-1), m2.reshape(-1))
SS = spin4(sx, sx) + spin4(sy, sy) + spin4(sz, sz)
def bonds(name, L, couplings):
    n, v = len(LAT[name][1]), int(np.prod(L))
    W = np.zeros((4, n, 4, n, v), complex)
    for J, es in zip(couplings, SH[name]):
        for a, b, c in es: W[:, a, :, b, index(c, L)] += J * SS
    return W
def kitaev(L, J):
    """the three bonds of a site of the honeycomb lattice couple one component each"""
    W = np.zeros((4, 2, 4, 2, int(np.prod(L))), complex)
    A, B = LAT["Honeycomb"]
    for a, b, c in SH["Honeycomb"][0]:
        v = np.dot(c, A) + B[b] - B[a]
        # the directions are told apart by their angle, opposite ones belong to the same kind
        ang = round(math.degrees(math.atan2(v[1], v[0]))) % 180
        k = {60: 0, 120: 1, 0: 2}[ang]
        W[:, a, :, b, index(c, L)] += J[k] * spin4((sx, sy, sz)[k], (sx, sy, sz)[k])
    return W
def spins(name, L):
    n = len(LAT[name][1])
    calls = [("Heisenberg", [0.7]), ("Heisenberg", [-0.7]), ("J1J2", [0.7, 0.0]), ("J1J2", [0.0, 0.3]), ("J1J2", [0.7, 0.3, 0.2, 0.11]), ("J1J2", [-0.7, 0.3, -0.2, 0.0]), ("Heisenberg", [0.7, 0.3])]
    if name == "Honeycomb": calls += [("Kitaev", [0.7, 0.3, 0.2]), ("Kitaev", [0.0, 0.3, 0.0])]
    first = True
    for mod, J in calls:
        fields = [(s, d) for s in range(-1, n) for d in (0, 1)] if first else [(0, 0)]
        first = False
        for s, d in fields:
            ext, delta = [0.0] * 4, [0.0] * 4
            if s >= 0:
                ext[s] = 0.4
                if d: delta[s] = -0.15; delta[(s + 1) % n] += 0.25
            for NT, beta in ((4, 0.5), (5, 2.0)):
                m = makemap(name, L, NT, beta)
                tag = "%s on %s %s J=%s h=%s delta=%s" % (mod, name, L, J, ext, delta)
                def run():
                    F = model.BareFactory(m, lattice.Lattice(name, m), {"Name": mod, "Interaction": J, "ExternalField": ext}, {"DeltaField": list(delta), "Interval": [0.0] * 4})
                    F.Build()
                    G, W = F.Build() # building again gives the same, not twice as much
                    return F, G, W
                r = attempt("spin: " + tag, run)
                if r is None: continue
                F, G, W = r
                STAT["states"] += 1
                JJ = (J + [0, 0, 0, 0])[:4]
                want = kitaev(L, JJ) if mod == "Kitaev" else bonds(name, L, JJ)
                if not close(W.Data, want): viol(P, "bare interaction " + name, "%s: the bare interaction is not that of the bonds, (spin, sublattice, spin, sublattice, distance) %s" % (tag, where(W.Data, want)))
                back = np.zeros_like(W.Data)
                for c in cells(L): back[..., index(c, L)] = np.transpose(W.Data[..., index([-x for x in c], L)], (2, 3, 0, 1))
                if not close(W.Data, back): viol(P, "one-way bonds " + name, "%s: a bond seen from its two ends is not the same, %s" % (tag, where(W.Data, back)))
                tau = (np.arange(NT) + 0.5) * beta / NT
                g = np.zeros((2, n, 2, n, int(np.prod(L)), NT), complex)
                for sub in range(n):
                    for sp, sign in ((0, 1), (1, -1)):
                        mu = 1j * math.pi / 2 / beta + 0.5 * sign * (ext[sub] + delta[sub])
                        g[sp, sub, sp, sub, 0] = np.exp(mu * tau) / (1 + np.exp(mu * beta))
                if not close(G.Data, g): viol(P, "bare propagator " + name, "%s beta=%g: the bare propagator is not that of a local spin, %s" % (tag, beta, where(G.Data, g)))
                if mod != "Kitaev":
                    for nm, k in (("NearestNeighbor", 0), ("NextNearestNeighbor", 1), ("NextNextNearestNeighbor", 2)):
                        got = sorted((a, b, index(c, L)) for a in range(n) for b in range(n) for c in getattr(F, nm)[a][b])
                        exp = sorted((a, b, index(c, L)) for a, b, c in SH[name][k])
                        if got != exp: viol(P, "neighbours " + name, "%s %s: %s are %s, not %s" % (name, L, nm, got[:12], exp[:12]))
                d = attempt("bonds: " + tag, F.ToDict)
                if d is not None:
                    got = sorted(tuple(e[1]) + (e[2],) for e in d["Interaction"])
                    exp = sorted((a, index(c, L) * n + b, a) for a in range(n) for b in range(n) for c in cells(L) if abs(want[U, a, U, b, index(c, L)]) > 1e-5)
                    if got != exp: viol(P, "list of bonds " + name, "%s: the list of bonds to draw is not that of the interaction" % tag)
# ---- fermions
def fermions(name, L):
    n, v = len(LAT[name][1]), int(np.prod(L))
    def one(mod, t, mu, h, Uh, sr, NT, beta):
        m = makemap(name, L, NT, beta)
        tag = "%s on %s %s t=%s mu=%s h=%s U=%s V=%s" % (mod, name, L, t, mu, h, Uh, sr)
        def run():
            F = model.BareFactory(m, lattice.Lattice(name, m), {"Name": mod, "Interaction": [0.0], "ExternalField": h, "Hopping": t, "Phase": [0.0] * 4, "HubbardInteraction": Uh, "ShortRangeInteraction": sr, "ChemicalPotential": [mu]}, {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4})
            F.Build()
            G, W = F.Build()
            G.FFT("R", "T"); W.FFT("R", "T")
            return F, G, W
        r = attempt("fermion: " + tag, run)
        if r is None: return
        F, G, W = r
        STAT["states"] += 1
        want = np.zeros((4, n, 4, n, v), complex)
        if mod == "Hubbard":
            for a in range(n):
                want[D, a, U, a, 0] += Uh
                want[U, a, D, a, 0] += Uh
        else:
            for a, b, c in SH[name][0]:
                for x in (D, U):
                    for y in (D, U): want[x, a, y, b, index(c, L)] += sr[0]
        if not close(W.Data, want): viol(P, "bare interaction of " + mod, "%s: %s" % (tag, where(W.Data, want)))
        T = (list(t) + [0, 0])[:2]
        tau = (np.arange(NT) + 0.5) * beta / NT
        # the Hamiltonian of the whole finite crystal
        sites = [(c, a) for c in cells(L) for a in range(n)]
        num = {s: i for i, s in enumerate(sites)}
        g = np.zeros((2, n, 2, n, v, NT), complex)
        for sp, sign in ((0, 1), (1, -1)):
            H = np.zeros((len(sites), len(sites)))
            for s in sites:
                H[num[s], num[s]] += -mu + sign * h[s[1]]
            for tt, es in zip(T, SH[name]):
                for c in cells(L):
                    for a, b, dc in es:
                        H[num[(c, a)], num[(tuple((x + y) % l for x, y, l in zip(c, dc, L)), b)]] += -tt
            e, u = np.linalg.eigh(H)
            for k in range(NT):
                x = u @ np.diag([math.exp(-y * tau[k]) / (1 + math.exp(-beta * y)) if y > 0 else math.exp(y * (beta - tau[k])) / (1 + math.exp(beta * y)) for y in e]) @ u.T
                for a in range(n):
                    for s in sites: g[sp, a, sp, s[1], index(s[0], L), k] = x[num[((0,) * len(L), a)], num[s]]
        if not close(G.Data, g, 1e-7): viol(P, "bare propagator of " + mod + " " + name, "%s beta=%g: not the propagator of free fermions, %s" % (tag, beta, where(G.Data, g)))
        for nm, k in (("NearestNeighbor", 0), ("NextNearestNeighbor", 1)):
            got = sorted((a, b, index(c, L)) for a in range(n) for b in range(n) for c in getattr(F, nm)[a][b])
            exp = sorted((a, b, index(c, L)) for a, b, c in SH[name][k])
            if got != exp: viol(P, "neighbours " + name, "%s %s: %s are %s, not %s" % (name, L, nm, got[:12], exp[:12]))
    mods = ["Hubbard"] + (["Haldane"] if name == "Honeycomb" else [])
    for mod in mods:
        for t in ([1.0], [1.0, 0.0], [0.8, 0.3], [0.0, 0.5], [-0.8]):
            for mu in (0.0, 0.6):
                for h in ([0.0] * 4, [0.3, -0.1, 0, 0]):
                    one(mod, t, mu, h, 1.3, [0.9], 3, 1.2)
        for Uh in (0.0, -2.0): one(mod, [1.0], 0.2, [0.0] * 4, Uh, [Uh, 0.5], 4, 400.0)
        if max(L) <= 3:
            for mu in (5.0, -5.0): one(mod, [1.0], mu, [0.0] * 4, 0.0, [0.0], 24, 60.0) # levels far from the Fermi energy
def spinorbit():
    """hopping that turns the spin: along a bond by some rotation about the given axis, back by its inverse"""
    NT, beta, L, t = 4, 1.2, [3, 3], 1.0
    PAULI = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
    for axis in range(3):
        for ang in (0.3, -0.7):
            ph = [0.0] * 3
            ph[axis] = ang
            m = makemap("Square", L, NT, beta)
            def run():
                G, W = model.BareFactory(m, lattice.Lattice("Square", m), {"Name": "Hubbard", "Interaction": [0.0], "ExternalField": [0.0] * 4, "Hopping": [t], "Phase": ph, "HubbardInteraction": 0.0, "ShortRangeInteraction": [0.0], "ChemicalPotential": [0.0]}, {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4}).Build()
                G.FFT("R", "T")
                return G.Data[:, 0, :, 0]
            g = attempt("spin-orbit: %s" % ph, run)
            if g is None: continue
            STAT["states"] += 1
            tau = (np.arange(NT) + 0.5) * beta / NT
            ok = False
            for sx_, sy_ in itertools.product((1, -1), repeat=2): # a convention of its own for the sense of each direction
                H = np.zeros((9, 2, 9, 2), complex)
                for c in cells(L):
                    for d, s in (((1, 0), sx_), ((0, 1), sy_)):
                        Us = math.cos(ang) * np.eye(2) + 1j * s * math.sin(ang) * PAULI[axis]
                        to = index([x + y for x, y in zip(c, d)], L)
                        H[index(c, L), :, to, :] += -t * Us
                        H[to, :, index(c, L), :] += -t * Us.conj().T
                e, u = np.linalg.eigh(H.reshape(18, 18))
                for conj in (False, True):
                    w = np.zeros((2, 2, 9, NT), complex)
                    for k in range(NT):
                        x = (u @ np.diag(np.exp(-e * tau[k]) / (1 + np.exp(-beta * e))) @ u.conj().T).reshape(9, 2, 9, 2)
                        if conj: x = x.conj()
                        for r in range(9): w[:, :, r, k] = x[0, :, r, :]
                    ok = ok or close(g, w, 1e-7)
            if not ok: viol(P, "spin-orbit-hopping", "Hubbard on Square %s with Phase=%s: not the propagator of any hopping that turns the spin about this axis on the way and back on the way back" % (L, ph))
# ---- geometry, Fourier transform, averages
def geometry(name, L):
    n, v = len(LAT[name][1]), int(np.prod(L))
    m = makemap(name, L)
    lt = attempt("lattice: %s %s" % (name, L), lambda: lattice.Lattice(name, m))
    if lt is None: return
    STAT["states"] += 1
    A, B = LAT[name]
    if not close(lt.LatVec, A) or not close(lt.SubLatVec, B): viol(P, "crystal " + name, "%s: translations %s and sites %s" % (name, lt.LatVec.tolist(), lt.SubLatVec.tolist()))
    R = np.asarray(lt.ReciprocalLatVec, float)
    dual = np.dot(R, A.T)
    if not close(dual, 2 * math.pi * np.eye(len(A))): viol(P, "reciprocal vectors " + name, "%s: the reciprocal vectors times the translations are %s * 2pi, not the identity" % (name, np.round(dual / 2 / math.pi, 3).tolist()))
    for off in (True, False):
        for sub in range(n):
            r = attempt("sites: %s %s" % (name, L), lambda: lt.GetSitesList(HasOffset=off, SubLatIn=sub))
            if r is None: continue
            pts, lines = r
            if len(pts) != v * n: viol(P, "sites " + name, "%s %s: %d sites, not %d" % (name, L, len(pts), v * n))
            for i, p in enumerate(pts):
                c, s = p[1], p[2]
                if index(c, L) * n + s != i: viol(P, "sites " + name, "%s %s: site %d is %s" % (name, L, i, p))
                o = [l // 2 - 1 if off else 0 for l in L]
                w = np.dot([(x + y) % l for x, y, l in zip(c, o, L)], A) + B[s] - B[sub]
                if not close(p[0], w): viol(P, "sites " + name, "%s %s: site %s of sublattice %d seen from sublattice %d is at %s, not %s" % (name, L, c, s, sub, p[0], w))
            got = sorted(tuple(e[0]) + (e[1],) for e in lines)
            exp = sorted((index(c, L) * n + s, index(c, L) * n + t, s) for c in cells(L) for s in range(n) for t in range(s, n))
            if got != exp: viol(P, "lines of the cells " + name, "%s %s" % (name, L))
    # Fourier transform: every symmetric basis function, every momentum of the crystal and some others
    ks = list(itertools.product(*[range(-1, l + 1) for l in L]))
    real = [tuple(0.37 * (i + 1) for i in range(len(L))), (0.0,) * len(L), (math.pi,) * len(L)]
    bound = [[-1.0, math.pi + 0.01]] * len(L)
    for a in range(n):
        for b in range(n):
            for c in cells(L):
                f = np.zeros((n, n, v), complex)
                f[a, b, index(c, L)] += 1.0
                f[b, a, index([-x for x in c], L)] += 1.0
                pos = np.dot(c, A) + B[b] - B[a]
                back = np.dot([-x % l for x, l in zip(c, L)], A) + B[a] - B[b]
                def tf(): return lt.FourierTransformation(f, ks, "Integer"), lt.FourierTransformation(f, real, "Real"), lt.FourierTransformation(f, real, "Real", bound)
                r = attempt("Fourier transform: %s %s" % (name, L), tf)
                if r is None: return
                (K1, F1), (K2, F2), (K3, F3) = r
                if len(K1) != len(ks): viol(P, "momenta " + name, "%s %s: %d of %d" % (name, L, len(K1), len(ks)))
                for p, K, x in zip(ks, K1, F1):
                    k = sum((np.array(r, float) * q / l for r, q, l in zip(2 * math.pi * np.linalg.inv(A.T), p, L)))
                    if not close(K, k): viol(P, "momentum " + name, "%s %s: momentum %s is %s, not %s" % (name, L, p, np.round(K, 5).tolist(), np.round(k, 5).tolist())); break
                    w = 2 * math.cos(np.dot(k, pos)) / n
                    if abs(x - w) > 1e-9: viol(P, "Fourier transform " + name, "%s %s: (%d,%d,%s) at momentum %s gives %s, not %s" % (name, L, a, b, c, p, x, w)); break
                for K, x, k in zip(K2, F2, real):
                    w = [(np.exp(-1j * s * np.dot(k, pos)) + np.exp(-1j * s * np.dot(k, back))) / n for s in (1, -1)]
                    if min(abs(x - y) for y in w) > 1e-9: viol(P, "Fourier transform " + name, "%s %s: (%d,%d,%s) at the wave vector %s gives %s, not %s" % (name, L, a, b, c, k, x, w[0])); break
                keep = [k for k in real if all(lo <= y <= hi for y, (lo, hi) in zip(k, bound))]
                if [tuple(k) for k in K3] != keep or any(abs(x - F2[real.index(tuple(k))]) > 1e-12 for k, x in zip(K3, F3)): viol(P, "bounded Fourier transform " + name, "%s %s" % (name, L))
    # the momenta on a line are those of the crystal that lie on it
    if not hasattr(lt, "Path"): return
    recip = 2 * math.pi * np.linalg.inv(A.T)
    path = [np.array([p] if np.isscalar(p) else p, float) for p in lt.Path]
    allk = [sum(recip[i] * q[i] / L[i] for i in range(len(L))) for q in itertools.product(*[range(-l, l + 1) for l in L])]
    for center in [(0.0,) * len(L)] + [tuple(np.atleast_1d(c)) for c in getattr(lt, "IndependtBZCenter", [])[1:2]]:
        for s, e in zip(path[:-1], path[1:]):
            r = attempt("momenta of a line: %s %s" % (name, L), lambda: lt.GetKVecAlongPath(s, e, center))
            if r is None: continue
            s1, e1 = s + center, e + center
            want = {tuple(np.round(k + center, 4) + 0.0) for k in allk if abs(np.linalg.norm(k + center - s1) + np.linalg.norm(e1 - k - center) - np.linalg.norm(e1 - s1)) < 1e-3}
            got = {tuple(np.round(k, 4) + 0.0) for k in r}
            if got != want: viol(P, "momenta of a line " + name, "%s %s from %s to %s: %d momenta, not %d" % (name, L, s1, e1, len(got), len(want)))
def averages(name, L):
    n, v = len(LAT[name][1]), int(np.prod(L))
    NT, beta = 4, 0.5
    m = makemap(name, L, NT, beta)
    lt = lattice.Lattice(name, m)
    A, B = LAT[name]
    F = model.BareFactory(m, lt, {"Name": "J1J2", "Interaction": [1.0, 0.5, 0.25], "ExternalField": [0.0] * 4}, {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4})
    if attempt("spin: %s %s" % (name, L), F.Build) is None: return
    import re
    recip = 2 * math.pi * np.linalg.inv(A.T)
    stag = None
    if name in ("Chain", "Square", "Checkerboard", "3DCheckerboard", "Cubic", "ValenceBond", "Assymetric_Triangular"): stag = np.full(len(L), math.pi)
    if name == "Triangular": stag = max((k for k in (sum(recip[i] * q[i] / L[i] for i in range(2)) for q in itertools.product(*[range(-l, l + 1) for l in L])) if abs(k[1]) < 1e-3 and -1e-3 < k[0] < 4 * math.pi / 3 + 1e-3), key=lambda k: k[0])
    rng = np.random.RandomState(1)
    def history(O): return [d for k, d in vars(O).items() if isinstance(d, dict)][0]
    def check(chi, bk, g, det, tag):
        O = measure.Observable(m, lt)
        C, K = [weight.Weight("SmoothT", m, "NoSpin", "Symmetric", "R", "T") for _ in range(2)]
        G = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric", "R", "T")
        C.Data[0, :, 0, :] = chi; K.Data[0, :, 0, :] = bk; G.Data[:] = g
        for w, dom in ((C, ("K", "W")), (K, ("K", "W")), (G, ("K", "W"))): w.FFT(*dom)
        if attempt("measure: %s %s" % (name, L), lambda: (O.Measure(C, K, det, G, F.NearestNeighbor), 1)) is None: return
        STAT["states"] += 1
        h = history(O)
        def want(key, x, tol=1e-9):
            if key not in h: viol(P, "missing average " + name, "%s %s %s: no %s" % (name, L, tag, key)); return
            y = np.asarray(h[key]).reshape(-1)
            if len(y) < 1 or abs(y[-1] - x) > tol: viol(P, "average %s %s" % (key, name), "%s %s %s: %s is %s, not %s" % (name, L, tag, key, y[-1] if len(y) else None, x))
        def tosign(x, k):
            return sum(np.sum(x[a, b, index(c, L)]) * np.exp(-1j * np.dot(k, np.dot(c, A) + B[b] - B[a])) for a in range(n) for b in range(n) for c in cells(L)) * beta / NT / n
        want("1-JP", det.min())
        for pre, x in (("", chi), ("BK", bk)):
            u = tosign(x, np.zeros(len(L)))
            sp = "BK " if pre else ""
            want(pre + "UnifChi", u)
            want(sp + "Mag^2 density", u / v / n / beta)
            want("BK_Energy" if pre else "Energy", sum(x[a, b, index(c, L), 0] for a, b, c in SH[name][0]) / n)
            want("BK_SumRule" if pre else "SumRule", x[0, 0, 0, 0])
            if stag is not None:
                s = tosign(x, stag)
                want(pre + "StagChi", s, 1e-6)
                want(sp + "StagMag^2 density", s / v / n / beta, 1e-6)
        if name == "Pyrochlore": want("Chi_X(4Pi,2Pi,0)", tosign(chi, np.array([4 * math.pi, 2 * math.pi, 0])))
        if name == "ValenceBond": want("VBS", np.sum(chi[0, 1, 0] - chi[0, 1, index((0, -1), L)]) * beta / NT)
        for a in range(n):
            nd, nu = [1.5 * g[s, a, s, a, 0, -1] - 0.5 * g[s, a, s, a, 0, -2] for s in (0, 1)]
            want("<Sz_%d>" % a, 0.5 * (nd - nu))
            want("<n_%d>" % a, nd + nu)
        C2 = C; C2.FFT("R", "T"); K.FFT("R", "T"); G.FFT("R", "T")
        if not close(C.Data[0, :, 0, :], chi) or not close(K.Data[0, :, 0, :], bk) or not close(G.Data, g): viol(P, "measuring changes the data", "%s %s %s" % (name, L, tag))
    def sym(x):
        y = np.zeros_like(x)
        for c in cells(L): y[:, :, index(c, L)] = np.transpose(x[:, :, index([-q for q in c], L)], (1, 0, 2))
        return x + y
    zc, zg, det = np.zeros((n, n, v, NT), complex), np.zeros((2, n, 2, n, v, NT), complex), np.array([[0.5 + 0j, 0.25, 0.75]])
    # the averages are linear: all symmetric basis functions of both susceptibilities, all basis functions of the propagator
    for a in range(n):
        for b in range(n):
            for c in range(v):
                for t in range(NT):
                    x = zc.copy(); x[a, b, c, t] = 1.0
                    x = sym(x)
                    check(x, zc, zg, det, "Chi=%s" % ((a, b, c, t),))
                    check(zc, x, zg, det, "BKChi=%s" % ((a, b, c, t),))
    for s in (0, 1):
        for a in range(n):
            for b in range(n):
                for c in range(v):
                    for t in range(NT):
                        x = zg.copy(); x[s, a, s, b, c, t] = 1.0
                        check(zc, zc, x, det, "G=%s" % ((s, a, b, c, t),))
    # and do add up
    check(sym(rng.rand(*zc.shape) + 0j), sym(rng.rand(*zc.shape) + 0j), rng.rand(*zg.shape) + 1j * rng.rand(*zg.shape), det, "all together")
# ---- the field that helps the first versions
def annealing(depth):
    """every sequence of successes and failures of the versions"""
    STEPS = [([-0.5, -0.5, 0.0, 0.0], [0.25, 0.25, 0.0, 0.0]), ([0.3, -0.6, 0.0, 0.0], [-0.1, 0.2, 0.0, 0.0]), ([0.0] * 4, [0.0] * 4), ([0.2, 0.0, 0.0, 0.0], [-0.2, 0.0, 0.0, 0.0])]
    ext = [0.11, -0.07, 0.0, 0.0]
    for start, step in STEPS:
        for seq in itertools.product("SF", repeat=depth):
            m = makemap("Checkerboard", [2, 2])
            A = {"DeltaField": list(start), "Interval": list(step)}
            F = model.BareFactory(m, lattice.Lattice("Checkerboard", m), {"Name": "Heisenberg", "Interaction": [1.0], "ExternalField": list(ext)}, A)
            field, inc = list(start), list(step)
            tag = "field %s in steps of %s, versions %s" % (start, step, "".join(seq))
            for i, c in enumerate(seq):
                if c == "S":
                    on = abs(field[0]) > 1e-5
                    r = attempt("field: " + tag, lambda: (F.DecreaseField(A),))
                    if r is None: break
                    if on: field = [x + y for x, y in zip(field, inc)]
                    if bool(r[0]) != on: viol(P, "a field that is still there", "%s: step %d says %s" % (tag, i, r[0]))
                else:
                    if attempt("field: " + tag, lambda: (F.RevertField(A),)) is None: break
                    inc = [x / 2 for x in inc]
                    field = [x - y for x, y in zip(field, inc)]
                if not close(A["DeltaField"], field) or not close(A["Interval"], inc): viol(P, "field", "%s: after step %d the parameters have the field %s in steps of %s, not %s in steps of %s" % (tag, i, A["DeltaField"], A["Interval"], field, inc))
                G, W = F.Build()
                STAT["states"] += 1
                tau = (np.arange(4) + 0.5) * 0.5 / 4
                for sub in (0, 1):
                    mu = 1j * math.pi + 0.5 * (ext[sub] + field[sub])
                    if not close(G.Data[0, sub, 0, sub, 0], np.exp(mu * tau) / (1 + np.exp(mu * 0.5))): viol(P, "field of the propagator", "%s: after step %d the bare propagator is not that of the field %s" % (tag, i, field))
                if not close(W.Data, bonds("Checkerboard", [2, 2], [1.0])): viol(P, "field of the propagator", "%s: the interaction changed with the field" % tag)
            STAT["runs"] += 1
# ----
ONLY = ARGS.get("lattice")
for name in LAT:
    if ONLY and name not in ONLY.split(","): continue
    for L in sizes(name):
        STAT["runs"] += 1
        if PART in ("all", "geometry"): geometry(name, L)
        if PART in ("all", "spins"): spins(name, L)
        if PART in ("all", "fermions") and name in ("Square", "Honeycomb"): fermions(name, L)
        if PART in ("all", "averages") and np.prod(L) * len(LAT[name][1]) <= argi("sites", 16): averages(name, L)
if PART in ("all", "phase"): spinorbit()
if PART in ("all", "field"): annealing(argi("depth", 5))
sample("lattices %s, sizes of two dimensions up to %d, of three up to %d" % (", ".join(LAT), LMAX2, LMAX3))
finish()
