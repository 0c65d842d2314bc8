"""C29: the Monte Carlo side and the solver give the same diagrams the same value.

Tables of the solver are saved by the solver's own code and read by the Monte Carlo code.  Every configuration that the
updates reach is placed on all time bins (and in every order within the bins), measured and summed with its stationary
weight; the statistics file is read by the solver's own code and compared with the solver's own expressions (first order)
and with the Feynman rules (second order)."""
from vsolver import *
import subprocess, itertools, math, traceback
P = "C29"
EXE = ARGS.get("exe")
L = [argi("Lx", 2), argi("Ly", 1)]
SUB, B, BETA, GAMMA, SEED, ORDER = argi("Sub", 1), argi("Bins", 4), float(ARGS.get("Beta", 2.0)), argi("Gamma", 0), argi("seed", 1), argi("Order", 1)
TINY = argi("Tiny", B)
F = B // TINY
weight, calc, gamma3, collect, IO, main = load(["weight", "calculator", "gamma3_calc", "collect", "IO", "main"])
import numpy as np
UP, DOWN = 1, 0
if ARGS.get("part") == "map": # the tables by which both sides fold and unfold the bosonic vertex function
    for lx, ly, sym, tiny in [(x, y, s, t) for x in range(1, 5) for y in range(1, 5) for s in ((), ("Square",), ("Triangular",)) for t in (1, 2, 3, 5)] + [(1, 2, ("Square",), 258), (2, 1, (), 300)]:
        if "Triangular" in sym and ly % lx: continue # the reflections of the triangular lattice are those of the torus only then
        mp = weight.IndexMap(Beta=1.0, L=[lx, ly], NSublat=1, MaxTauBin=tiny, MaxTauBinTiny=tiny, BasisNum=1, Symmetry=list(sym))
        tsq, tre, tsf, tfl, rsq, rre, rsf = gamma3.SymmetryMapping(mp)
        what = "lattice %dx%d, %s, %d bins" % (lx, ly, list(sym), tiny)
        STAT["runs"] = STAT.get("runs", 0) + 1
        seen = {}
        for t1 in range(tiny):
            for t2 in range(tiny):
                k = (min(t1, t2), max(t1, t2))
                STAT["cells"] = STAT.get("cells", 0) + 1
                if seen.setdefault(tsq[t1, t2], k) != k or tuple(tre[tsq[t1, t2]]) != k: viol(P, "map", "%s: times %d, %d share entry %d with times %s; restored to %s" % (what, t1, t2, tsq[t1, t2], seen[tsq[t1, t2]], tre[tsq[t1, t2]]))
                if tsf[t1, t2] != len(set([(t1, t2), (t2, t1)])) or bool(tfl[t1, t2]) != (t1 > t2): viol(P, "map", "%s: times %d, %d have symmetry factor %d and flag %d" % (what, t1, t2, tsf[t1, t2], tfl[t1, t2]))
        if sorted(seen) != list(range(tiny * (tiny + 1) // 2)) or len(tre) != len(seen): viol(P, "map", "%s: the entries of times are not numbered through" % what)
        def ims(r1, r2):
            c = [(r1 // ly, r1 % ly), (r2 // ly, r2 % ly)]
            f = [lambda x, y: (x, y)]
            if "Triangular" in sym: f += [lambda x, y: (-x - y, y), lambda x, y: (-x, -y), lambda x, y: (x + y, -y)]
            elif sym: f += [lambda x, y: (-x, y), lambda x, y: (-x, -y), lambda x, y: (x, -y)]
            return frozenset(tuple((g(*q)[0] % lx) * ly + g(*q)[1] % ly for q in c) for g in f)
        seen = {}
        for r1 in range(lx * ly):
            for r2 in range(lx * ly):
                k = ims(r1, r2)
                STAT["cells"] += 1
                if seen.setdefault(rsq[r1, r2], k) != k or tuple(rre[rsq[r1, r2]]) not in k: viol(P, "map", "%s: sites %d, %d share entry %d with %s; restored to %s" % (what, r1, r2, rsq[r1, r2], sorted(seen[rsq[r1, r2]]), rre[rsq[r1, r2]]))
                if rsf[r1, r2] != len(k): viol(P, "map", "%s: sites %d, %d have symmetry factor %d instead of %d" % (what, r1, r2, rsf[r1, r2], len(k)))
        if sorted(seen) != list(range(len(set(seen.values())))) or len(rre) != len(seen): viol(P, "map", "%s: the entries of sites are not numbered through" % what)
        if lx * ly <= 4 or tiny <= 2:
            x = np.arange(1, 1 + 2 * len(rre) * len(tre)).reshape(2, len(rre), len(tre)) * (1 + 0.25j)
            u = gamma3.UnCompressGammaW(x.astype(np.complex64), mp)
            if not np.array_equal(gamma3.CompressGammaW(u, mp), x.astype(np.complex64)): viol(P, "map", "%s: folding an unfolded table changes it" % what)
            STAT["cells"] += u.size
            for r1 in range(lx * ly):
                for r2 in range(lx * ly):
                    if not np.array_equal(u[:, r1, r2], np.array([[[x[s, rsq[r1, r2], tsq[a, b]] if a <= b else -np.conj(x[s, rsq[r2, r1], tsq[a, b]]) for b in range(tiny)] for a in range(tiny)] for s in range(2)]).astype(np.complex64)):
                        viol(P, "map", "%s: unfolding does not give every entry of sites %d, %d from its class" % (what, r1, r2))
    sample("symmetry tables of %d lattices and grids, %d entries" % (STAT["runs"], STAT["cells"]))
    STAT["configurations"] = STAT["runs"]
    finish()
SYM = [ARGS["sym"]] if "sym" in ARGS else []
m = weight.IndexMap(Beta=BETA, L=L, NSublat=SUB, MaxTauBin=B, MaxTauBinTiny=TINY, BasisNum=B, Symmetry=SYM)
VOL, D = m.Vol, BETA / B
rng = np.random.RandomState(SEED)
def rnd(*s): return rng.uniform(0.5, 1.5, s) * np.exp(2j * np.pi * rng.rand(*s))
def coordi(i): return (i // L[1], i % L[1])
def index(c): return (c[0] % L[0]) * L[1] + c[1] % L[1]
neg = [index((-coordi(i)[0], -coordi(i)[1])) for i in range(VOL)]
ix = lambda a, b: a * 2 + b

# ---- tables with the symmetries that lines have; otherwise they are arbitrary -------------------------------------
gd, wd, w0d = np.zeros((2, SUB, 2, SUB, VOL, B), dtype=complex), np.zeros((4, SUB, 4, SUB, VOL, B), dtype=complex), np.zeros((4, SUB, 4, SUB, VOL), dtype=complex)
for s in range(2):
    for a in range(SUB):
        g = rnd(B)
        gd[s, a, s, a, 0, :] = (g + np.conj(g[::-1])) / 2 if GAMMA else g
for i in range(4):
    for j in range(4):
        if i // 2 + j // 2 != i % 2 + j % 2: continue
        wd[i, :, j] = rnd(SUB, SUB, VOL, B)
        w0d[i, :, j] = rnd(SUB, SUB, VOL)
if GAMMA: # a real interaction, as long as the vertex functions are hermitian
    wd = wd.real + 0j
w, w0 = wd.copy(), w0d.copy()
for r in range(VOL): # the same line read from its other end
    for t in range(B):
        wd[..., r, t] = (w[..., r, t] + w[..., neg[r], B - 1 - t].transpose(2, 3, 0, 1)) / 2
    w0d[..., r] = (w0[..., r] + w0[..., neg[r]].transpose(2, 3, 0, 1)) / 2
for a in range(SUB):
    w0d[:, a, :, a, 0] = 0 # a spin does not interact with itself without delay
def fresh(name, spins, sym, data, *dom):
    x = weight.Weight(name, m, spins, sym, *dom)
    assert x.Data.shape == data.shape
    x.Data = data.copy()
    return x
def Gw(): return fresh("SmoothT", "TwoSpins", "AntiSymmetric", gd, "R", "T")
def Ww(): return fresh("SmoothT", "FourSpins", "Symmetric", wd, "R", "T")
def W0w(): return fresh("DeltaT", "FourSpins", "Symmetric", w0d, "R")
GGG = WW = None
if GAMMA:
    GGG, WW = rnd(2, VOL, B, B), rnd(2, VOL, VOL, TINY, TINY)
    # classes of pairs of sites under the reflections of the lattice
    def images(r1, r2):
        (x1, y1), (x2, y2) = coordi(r1), coordi(r2)
        p = [((x1, y1), (x2, y2))]
        if "Triangular" in SYM: p += [((-x1 - y1, y1), (-x2 - y2, y2)), ((-x1, -y1), (-x2, -y2)), ((x1 + y1, -y1), (x2 + y2, -y2))]
        elif "Square" in SYM: p += [((-x1, y1), (-x2, y2)), ((x1, -y1), (x2, -y2)), ((-x1, -y1), (-x2, -y2))]
        return sorted(set((index(a), index(b)) for a, b in p))
    x = WW[0].swapaxes(0, 1).swapaxes(2, 3)
    WW[0] = WW[0] + x
    WW = (WW - np.conj(WW.swapaxes(1, 2).swapaxes(3, 4))) / 2
    GGG = (GGG + np.conj(GGG.swapaxes(2, 3))) / 2
    ww, ggg = WW.copy(), GGG.copy()
    for r1 in range(VOL):
        for r2 in range(VOL):
            c = images(r1, r2)
            WW[:, r1, r2] = sum(ww[:, i, j] for i, j in c) / len(c)
            if r1 == r2: GGG[:, r1] = sum(ggg[:, i] for i, j in c) / len(c)
    WW = WW.astype(np.complex64).astype(complex)
WSDIR = os.path.join(WORK, "py")
os.chdir(WSDIR)
# ---- saved by the solver -----------------------------------------------------------------------------------------
class Any_:
    def __getattr__(self, k): return self
    def __call__(self, *a, **k): return self
main.WeightFile, main.ParaFile, main.OutputFile, main.Lat = "Weight", "para", "output", None
zero = lambda n, s, y, *d: weight.Weight(n, m, s, y, *d)
class Obs:
    def Measure(self, *a): pass
    def Save(self, *a): pass
class Fac: NearestNeighbor = []
try:
    ok = main.Measure({"Gamma3": bool(GAMMA), "Version": 1}, Obs(), Fac(), Gw(), W0w(), Gw(), Ww(), zero("DeltaT", "TwoSpins", "AntiSymmetric", "R"), zero("SmoothT", "TwoSpins", "AntiSymmetric", "R", "T"),
                 zero("SmoothT", "FourSpins", "Symmetric", "R", "T"), np.ones(1), zero("SmoothT", "FourSpins", "Symmetric", "K", "T"), GGG.copy() if GAMMA else None, WW.copy() if GAMMA else None)
    why = ""
except Exception:
    why = traceback.format_exc()
if not os.path.exists("Weight.hkl"):
    viol(P, "save", "the solver does not save its tables: " + why[-400:])
    finish()
r = subprocess.run([EXE, "check=C29", "weights=Weight", "Order=%d" % ORDER, "NTau=1", "Lx=%d" % L[0], "Ly=%d" % L[1], "Sub=%d" % SUB, "Bins=%d" % B, "Tiny=%d" % TINY, "Beta=%.17g" % BETA, "Gamma=%d" % GAMMA, "seed=%d" % SEED, "states=%d" % argi("states", 4000000)],
                   cwd=WSDIR, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, VERIF_WORK=WSDIR))
ended = False
for l in r.stdout.decode(errors="replace").split("\n"):
    f = l.split("\t")
    if f[0] == "STAT" and f[1] in ("states", "transitions", "structures", "configurations"):
        STAT[f[1]] = STAT.get(f[1], 0) + int(float(f[2]))
    elif f[0] == "VIOL": viol(P, f[2], f[3])
    elif f[0] == "END": ended = True
STAT["runs"] = STAT.get("configurations", 0)
if not ended: raise SystemExit("the Monte Carlo side ended with %s: %s" % (r.returncode, r.stderr.decode()[-300:]))
if NV[0]: finish()
# ---- read by the solver --------------------------------------------------------------------------------------------
collect.workspace = WSDIR
collect.AcceptRatio = 0.1
S, PL, GG, GW = collect.CollectStatis(m, bool(GAMMA))
def order(e, n): return e.WeightAccu[n - 1] / e.NormAccu * e.Norm
worst = [0.0]
def compare(name, got, want, tol=2e-6):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        viol(P, name, "%s: shape %s instead of %s" % (name, got.shape, want.shape))
        return
    scale = np.abs(want).max()
    d = np.abs(got - want)
    STAT["cells"] = STAT.get("cells", 0) + d.size
    k = np.unravel_index(d.argmax(), d.shape)
    worst[0] = max(worst[0], d[k] / scale)
    if not d[k] <= tol * scale:
        viol(P, name, "%s at %s is %s in the Monte Carlo simulation and %s in the solver (%d of %d entries differ)" % (name, k, got[k], want[k], (d > tol * scale).sum(), d.size))
    else: sample("%s: %d entries agree, the largest is %.3g, largest difference %.1e (lattice %dx%d, %d sublattices, %d bins, beta %g)" % (name, d.size, scale, d[k], L[0], L[1], SUB, B, BETA))
compare("first-order self-energy", order(S, 1), calc.SigmaSmoothT_FirstOrder(Gw(), Ww(), m).Data, 1e-9)
compare("first-order polarisation", order(PL, 1), calc.Polar_FirstOrder(Gw(), m).Data, 1e-9)

# ---- the Feynman rules on the same tables --------------------------------------------------------------------------
def tb(t):
    k = int(math.floor(t / D))
    return (k, 1) if t >= 0 else (k + B, -1)
def g(s, t):
    k, sg = tb(t)
    return sg * gd[s, 0, s, 0, 0, k]
def simplices(n):
    """times of n points: all bins, every order within the bins"""
    vol = D ** n / math.factorial(n)
    for bins in itertools.product(range(B), repeat=n):
        for rank in itertools.permutations(range(n)):
            yield [(bins[i] + (rank[i] + 0.5) / n) * D for i in range(n)], vol
SP4 = [x for x in itertools.product(range(2), repeat=4)]
if ORDER >= 2 and not GAMMA:
    S2, P2 = np.zeros((2, SUB, 2, SUB, VOL, B), dtype=complex), np.zeros((4, SUB, 4, SUB, VOL, B), dtype=complex)
    for t, v in simplices(4):
        # the fermion passes 0, 1, 2, 3; interactions 0-2 and 1-3; closed by 3-0 for the polarisation, without 0-2
        k, sg = tb(t[3] - t[0])
        k2, k3 = tb(t[2] - t[0])[0], tb(t[3] - t[1])[0]
        for a in range(SUB):
            gg = lambda i, j: [(lambda q: q[1] * gd[x, a, x, a, 0, q[0]])(tb(t[j] - t[i])) for x in range(2)]
            g1, g2, g3, g4 = gg(0, 1), gg(1, 2), gg(2, 3), gg(3, 0)
            w02, w13 = wd[:, a, :, a, 0, k2], wd[:, a, :, a, 0, k3]
            for s, p, q, u in SP4:
                S2[s, a, s, a, 0, k] += sg * v * g1[p] * g2[q] * g3[u] * w02[ix(s, p), ix(q, u)] * w13[ix(p, q), ix(u, s)]
                P2[ix(s, p), a, ix(q, u), a, 0, k2] -= v * g1[p] * g2[q] * g3[u] * g4[s] * w13[ix(p, q), ix(u, s)]
    compare("second-order self-energy", order(S, 2), S2 / BETA / D, 1e-9)
    compare("second-order polarisation", order(PL, 2), P2 / BETA / D, 1e-9)
if GAMMA:
    # the vertex functions are the derivatives of the first (and second) order with respect to the field at the external point
    fine = np.repeat(np.repeat(WW, F, axis=3), F, axis=4)
    gg_want = gamma3.AddW_To_GGGammaG(GGG.copy(), Ww(), m) - gamma3.AddG_To_WWGammaW(fine.copy(), Gw(), m)
    gw_want = np.array(gamma3.AddG_To_GGGammaG(GGG.copy(), Gw(), m), dtype=complex)
    if ORDER >= 2:
        def ggg(s, r, ti, to, tu):
            a, sa = tb(to - tu); b, sb = tb(ti - tu)
            return sa * sb * GGG[s, r, a, b]
        def wwg(i, o, r, ti, to, tu): # i, o: (in, out) spins of the two ends
            a, b = tb(to - tu)[0], tb(ti - tu)[0]
            if i in (0, 3) and o in (0, 3): return fine[0, r, r, a, b] * (1 if i == o else -1)
            if (o, i) == (2, 1): return -np.conj(fine[1, r, r, a, b])
            if (o, i) == (1, 2): return fine[1, r, r, a, b]
            return 0
        gg2, gw2 = np.zeros((2, VOL, B, B), dtype=complex), np.zeros((6, VOL, B, B), dtype=complex)
        cls = {(3, 3): 0, (0, 0): 1, (3, 0): 2, (0, 3): 3, (2, 1): 4, (1, 2): 5}
        for t, v in simplices(5):
            u = t[4]
            a, sa = tb(t[3] - u); b, sb = tb(t[0] - u); c = tb(t[2] - u)[0]
            g1, g2, g3, g4 = [[g(x, t[j] - t[i]) for x in range(2)] for i, j in ((0, 1), (1, 2), (2, 3), (3, 0))]
            w02, w13 = wd[:, 0, :, 0, 0, tb(t[2] - t[0])[0]], wd[:, 0, :, 0, 0, tb(t[3] - t[1])[0]]
            for r in range(VOL):
                d1, d2, d3, d4 = [[ggg(x, r, t[i], t[j], u) for x in range(2)] for i, j in ((0, 1), (1, 2), (2, 3), (3, 0))]
                for s, p, q, x in SP4:
                    if s + q != p + x: continue
                    i0, i2, i1, i3 = ix(s, p), ix(q, x), ix(p, q), ix(x, s)
                    z13 = wwg(i1, i3, r, t[1], t[3], u)
                    lines = g1[p] * g2[q] * g3[x]
                    dl = d1[p] * g2[q] * g3[x] + g1[p] * d2[q] * g3[x] + g1[p] * g2[q] * d3[x]
                    gg2[s, r, a, b] += sa * sb * v * (dl * w02[i0, i2] * w13[i1, i3] + lines * (wwg(i0, i2, r, t[0], t[2], u) * w13[i1, i3] + w02[i0, i2] * z13))
                    gw2[cls[(i2, i0)], r, c, b] += v * ((dl * g4[s] + lines * d4[s]) * w13[i1, i3] + lines * g4[s] * z13)
        gg_want = gg_want + gg2 / (BETA * D * D)
        gw2 /= BETA * D * D
        for r in range(VOL):
            gw_want[0, r, r] += gw2[0, r] + gw2[1, r] - gw2[2, r] - gw2[3, r]
            gw_want[1, r, r] += (gw2[4, r] - np.conj(gw2[5, r])) / 2
    compare("fermionic vertex function", GG, gg_want)
    coarse = gw_want.reshape(2, VOL, VOL, TINY, F, TINY, F).mean(axis=(4, 6))
    compare("bosonic vertex function", gamma3.UnCompressGammaW(GW, m), coarse)
    compare("restored table", gamma3.UnCompressGammaW(IO.LoadBigDict("Weight")["WWGammaW"]["SmoothT"], m), WW)
note("largest relative difference %.1e" % worst[0])
finish()
