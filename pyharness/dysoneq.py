"""C31: the expressions of the solver.  All of them but the Dyson equations are linear in each argument, so all tuples of
basis functions decide them on a lattice of given shape; the results are compared with sums over real space and time
written out here.  The Dyson equations are decided by their residual in real space and time.  Last, every sequence of
operations on shared objects: no result may depend on the representation (space or momentum, time or frequency) in which
earlier operations left their arguments."""
from vsolver import *
P = "C31"
weight, logger, calc, gamma3 = load(["weight", "logger", "calculator", "gamma3_calc"])
import numpy as np, itertools, math
if hasattr(gamma3, "gc"): gamma3.gc = type("gc", (), {"collect": staticmethod(lambda *a: 0)}) # only cost time
if hasattr(gamma3, "memory_usage"): gamma3.memory_usage = lambda: 0.0
L = [int(x) for x in ARGS.get("L", "2x2").split("x")]
N, NT, PART, BETA = argi("sub", 1), argi("nt", 3), ARGS.get("part", "all"), float(ARGS.get("beta", "0.7"))
TINY = argi("tiny", NT)
m = weight.IndexMap(Beta=BETA, L=list(L), NSublat=N, MaxTauBin=NT, MaxTauBinTiny=TINY, BasisNum=NT, Symmetry=[])
V = int(np.prod(L))
DT = BETA / NT
D, U = 0, 1
DD, DU, UD, UU = 0, 1, 2, 3
TAG = "%s cells, %d sublattices, %d times, beta=%g" % ("x".join(map(str, L)), N, NT, BETA)
CELLS = list(itertools.product(*[range(l) for l in L]))
NUM = {c: i for i, c in enumerate(CELLS)}
def plus(r, s): return NUM[tuple((x + y) % l for x, y, l in zip(CELLS[r], CELLS[s], L))]
def minus(r): return NUM[tuple(-x % l for x, l in zip(CELLS[r], L))]
PLUS = [[plus(r, s) for s in range(V)] for r in range(V)]
MINUS = [minus(r) for r in range(V)]
DIFF = [[PLUS[r][MINUS[s]] for s in range(V)] for r in range(V)] # r - s
# ---- objects
KINDS = {"G": ("SmoothT", "TwoSpins", "AntiSymmetric"), "S": ("SmoothT", "TwoSpins", "AntiSymmetric"), "SD": ("DeltaT", "TwoSpins", "AntiSymmetric"),
         "W": ("SmoothT", "FourSpins", "Symmetric"), "P": ("SmoothT", "FourSpins", "Symmetric"), "W0": ("DeltaT", "FourSpins", "Symmetric"), "C": ("SmoothT", "FourSpins", "Symmetric")}
def obj(kind, data=None):
    n, s, y = KINDS[kind]
    w = weight.Weight(n, m, s, y, "R", "T")
    if data is not None: w.Data = np.array(data, dtype=complex)
    return w
def shape(kind): return tuple(obj(kind).Shape)
def rt(w):
    w.FFT("R", "T")
    return np.array(w.Data)
def basis(kind, keep=lambda i: True):
    sh = shape(kind)
    return [i for i in itertools.product(*[range(x) for x in sh]) if keep(i)]
def unit(sh, i, x=1.0):
    z = np.zeros(sh, dtype=complex)
    z[i] = x
    return z
RNG = np.random.RandomState(7)
def dense(kind, scale=1.0): return scale * (RNG.rand(*shape(kind)) - 0.5 + 1j * (RNG.rand(*shape(kind)) - 0.5))
def report(what, got, want, tol=1e-10):
    STAT["transitions"] += 1
    got = np.asarray(got)
    if got.shape != want.shape: viol(P, what.split(":")[0], "%s, %s: shape %s, not %s" % (TAG, what, got.shape, want.shape)); return
    if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > tol * (1 + np.max(np.abs(want))):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(got), np.abs(got - want), np.inf)), got.shape)
        viol(P, what.split(":")[0], "%s, %s: entry %s is %s, not %s" % (TAG, what, tuple(int(x) for x in i), got[i], want[i]))
def attempt(what, f):
    try: return f()
    except Exception as e:
        import traceback
        viol(P, what.split(":")[0] + " fails", "%s, %s: %s %s: %s" % (TAG, what, type(e).__name__, e, " / ".join(x.strip() for x in traceback.format_exc().split("\n")[-5:-2])))
        return None
def bilinear(what, ka, kb, f, spec, keepa=lambda i: True, keepb=lambda i: True, tol=1e-10):
    """f(A, B) on objects of two kinds against spec(a, b) on arrays, on all pairs of basis functions and one dense pair"""
    if PART not in ("all", "first", what.split()[0]): return
    A, B = basis(ka, keepa), basis(kb, keepb)
    for i in A:
        a = unit(shape(ka), i)
        for j in B:
            b = unit(shape(kb), j)
            r = attempt("%s: %s%s %s%s" % (what, ka, i, kb, j), lambda: f(obj(ka, a), obj(kb, b)))
            if r is None: return
            report("%s: %s%s %s%s" % (what, ka, i, kb, j), r, spec(a, b), tol)
            STAT["states"] += 1
    a, b = dense(ka), dense(kb)
    r = attempt(what + ": dense", lambda: f(obj(ka, a), obj(kb, b)))
    if r is not None: report(what + ": dense", r, spec(a, b), 10 * tol)
# ---- at equal times the earlier side: extrapolated from the last two bins
def before(g): return 1.5 * g[..., -1] - 0.5 * g[..., -2]
S2 = (D, U)
def p2(i, o): return 2 * i + o
# ---- first-order self-energies and polarisation
def spec_fock(g, w):
    s = np.zeros(shape("S"), complex)
    for s1 in S2:
        for s2 in S2: s[s1, :, s1] -= g[s2, :, s2] * w[p2(s1, s2), :, p2(s2, s1)]
    return s
def spec_hf(g, w0):
    s = np.zeros(shape("SD"), complex)
    x = before(g)
    for s1 in S2:
        for s2 in S2:
            s[s1, :, s1] += x[s2, :, s2] * w0[p2(s1, s2), :, p2(s2, s1)]
            for a in range(N):
                for b in range(N): s[s1, a, s1, a, 0] -= x[s2, b, s2, b, 0] * np.sum(w0[p2(s1, s1), a, p2(s2, s2), b])
    return s
def spec_polar(g, h):
    """from a to b with g one way and h the other way back"""
    p = np.zeros(shape("P"), complex)
    for s1 in S2:
        for s2 in S2:
            for a in range(N):
                for b in range(N):
                    for r in range(V):
                        for t in range(NT): p[p2(s1, s2), a, p2(s2, s1), b, r, t] -= g[s1, b, s1, a, MINUS[r], NT - 1 - t] * h[s2, a, s2, b, r, t]
    return p
def polar(ga, gb):
    """the part of the expression that is linear in both of two propagators"""
    f = lambda d: rt(calc.Polar_FirstOrder(obj("G", d), m))
    return f(ga.Data + gb.Data) - f(ga.Data) - f(gb.Data)
bilinear("fock", "G", "W", lambda g, w: rt(calc.SigmaSmoothT_FirstOrder(g, w, m)), spec_fock, keepb=lambda i: i[5] < 2 or i[5] == NT - 1)
bilinear("hartree-fock", "G", "W0", lambda g, w: rt(calc.SigmaDeltaT_FirstOrder(g, w, m)), spec_hf)
if PART in ("all", "first", "polarisation"):
    B = basis("G", lambda i: i[0] == i[2])
    for i in B:
        a = unit(shape("G"), i)
        r = attempt("polarisation: G%s" % (i,), lambda: rt(calc.Polar_FirstOrder(obj("G", a), m)))
        if r is None: break
        report("polarisation: G%s" % (i,), r, spec_polar(a, a))
        for j in B:
            if j <= i: continue
            b = unit(shape("G"), j)
            report("polarisation: G%s G%s" % (i, j), rt(calc.Polar_FirstOrder(obj("G", a + b), m)), spec_polar(a + b, a + b))
            STAT["states"] += 1
    a = dense("G")
    report("polarisation: dense", rt(calc.Polar_FirstOrder(obj("G", a), m)), spec_polar(a, a))
# ---- space-time matrices: entry ((i, r1, t1), (j, r2, t2)) of f is f[i, j, r2 - r1, t2 - t1]
def big(f, sign):
    """f: (spin, sub, spin, sub, V, NT) -> matrix on (spin, sub, V, NT); times out of range wrap with the sign"""
    n = f.shape[0] * N
    f = f.reshape(n, n, V, NT)
    M = np.zeros((n, V, NT, n, V, NT), complex)
    for r1 in range(V):
        for r2 in range(V):
            for t1 in range(NT):
                for t2 in range(NT):
                    x = f[:, :, DIFF[r2][r1], (t2 - t1) % NT]
                    M[:, r1, t1, :, r2, t2] = x if t2 >= t1 else sign * x
    return M.reshape(n * V * NT, n * V * NT)
def bigd(f):
    """the same of a function without time: diagonal in time"""
    n = f.shape[0] * N
    f = f.reshape(n, n, V)
    M = np.zeros((n, V, NT, n, V, NT), complex)
    for r1 in range(V):
        for r2 in range(V):
            for t in range(NT): M[:, r1, t, :, r2, t] = f[:, :, DIFF[r2][r1]]
    return M.reshape(n * V * NT, n * V * NT)
def later(n, sign, k=1):
    """the matrix that moves by one bin"""
    M = np.zeros((NT, NT))
    for t in range(NT):
        u = t + k
        M[t, u % NT] = sign if u >= NT else 1
    return np.kron(np.eye(n * V), M)
# three functions on half-integer times: n1 + n2 + n3 + 3/2, one bin later than the sum of the bins;
# two of them: an integer time, averaged over the two neighbouring half-integer ones
def check_g(g0, sd, s, what):
    STAT["states"] += 1
    G = attempt("Dyson equation: " + what, lambda: rt(calc.G_Dyson(obj("G", g0), obj("SD", sd), obj("S", s), m)))
    if G is None: return
    a, x, y, z = big(G, -1), big(g0, -1), big(s, -1), bigd(sd)
    T = later(2 * N, -1)
    w = x + DT * DT * x @ y @ a @ T + DT * x @ z @ a @ (0.5 * (np.eye(len(T)) + T))
    report("Dyson equation of the propagator: " + what, a, w, 1e-8)
def check_w(w0, p, what):
    STAT["states"] += 1
    r = attempt("interaction: " + what, lambda: calc.W_Dyson(obj("W0", w0), obj("P", p), m, None))
    if r is None: return
    W, C, det = r
    W, C = rt(W), rt(C)
    a, c, j, q = big(W, 1), big(C, 1), bigd(w0), big(p, 1)
    avg = 0.5 * (np.eye(len(a)) + later(4 * N, 1))
    report("Dyson equation of the interaction: " + what, a, j @ q @ j + DT * j @ q @ a @ avg, 1e-8)
    report("susceptibility: " + what, c, -q + DT * j @ q @ c @ avg, 1e-8)
    if det.shape != (V, NT): viol(P, "determinant", "%s, %s: shape %s" % (TAG, what, det.shape))
    else:
        # the determinants of 1 - J P, frequency by frequency
        ph = lambda f: np.fft.fftn(f.reshape((4 * N, 4 * N) + tuple(L) + f.shape[5:]), axes=tuple(range(2, 2 + len(L)))).reshape((4 * N, 4 * N, V) + f.shape[5:])
        jk, pk = ph(w0), np.fft.fft(ph(p), axis=3)
        want = np.zeros((V, NT), complex)
        for k in range(V):
            for w in range(NT): want[k, w] = np.linalg.det(np.eye(4 * N) - DT * math.cos(math.pi * w / NT) * np.exp(-1j * math.pi * w / NT) * jk[:, :, k] @ pk[:, :, k, w])
        report("determinant: " + what, det, want, 1e-8)
if PART in ("all", "dyson"):
    g0 = dense("G", 0.5)
    for i in basis("S"): check_g(g0, np.zeros(shape("SD")), unit(shape("S"), i, 0.3), "S%s" % (i,))
    for i in basis("SD"): check_g(g0, unit(shape("SD"), i, 0.3), np.zeros(shape("S")), "SD%s" % (i,))
    sd, s = dense("SD", 0.2), dense("S", 0.2)
    for i in basis("G"): check_g(unit(shape("G"), i), sd, s, "G0%s" % (i,))
    check_g(g0, sd, s, "dense")
    check_g(g0, 0 * sd, 0 * s, "no self-energy")
    p = dense("P", 0.1)
    for i in basis("W0"): check_w(unit(shape("W0"), i, 0.4), p, "W0%s" % (i,))
    w0 = dense("W0", 0.2)
    for i in basis("P"): check_w(w0, unit(shape("P"), i, 0.4), "P%s" % (i,))
    check_w(w0, p, "dense")
    check_w(0 * w0, p, "no interaction")
# ---- a vanishing denominator is refused, any other is not
if PART in ("all", "dyson", "refuse"):
    for x in np.linspace(-4.0, 4.0, 33):
        for diag in range(4 * N):
            for sign in (1, -1):
                w0, p = np.zeros(shape("W0"), complex), np.zeros(shape("P"), complex)
                i = (diag // N, diag % N)
                w0[i[0], i[1], i[0], i[1], 0] = sign
                p[i[0], i[1], i[0], i[1], 0, :] = x / BETA
                # constant in time and local: 1 - x at frequency zero for every momentum, 1 elsewhere
                want = 1 - sign * x < 0
                try: calc.W_Dyson(obj("W0", w0), obj("P", p), m, None); got = False
                except calc.DenorminatorTouchZero: got = True
                except Exception as e:
                    if abs(1 - sign * x) < 1e-6: continue # no solution: any refusal will do
                    viol(P, "vanishing denominator", "%s: 1-JP=%g: %s %s" % (TAG, 1 - sign * x, type(e).__name__, e))
                    continue
                STAT["states"] += 1
                if abs(1 - sign * x) > 1e-6 and got != want: viol(P, "vanishing denominator", "%s: 1-JP=%g is %s" % (TAG, 1 - sign * x, "refused" if got else "accepted"))
    # at one momentum and one frequency only, on each channel
    for i in itertools.product(range(4), range(N)):
        for k in range(V):
            for w in range(NT):
                c = math.cos(math.pi * w / NT)
                if abs(c) < 1e-6: continue
                for x in (-3.0, -0.5, 0.5, 0.9, 1.1, 2.0, 3.5):
                    w0 = np.zeros(shape("W0"), complex)
                    w0[i[0], i[1], i[0], i[1], 0] = 1
                    p = weight.Weight("SmoothT", m, "FourSpins", "Symmetric", "K", "W")
                    p.Data = np.zeros(p.Shape, complex)
                    p.Data[i[0], i[1], i[0], i[1], k, w] = x / (DT * c)
                    try: calc.W_Dyson(obj("W0", w0), p, m, None); got = False
                    except calc.DenorminatorTouchZero: got = True
                    STAT["states"] += 1
                    if got != (x > 1): viol(P, "vanishing denominator", "%s: 1-JP=%g at momentum %s and frequency %d only is %s" % (TAG, 1 - x, CELLS[k], w, "refused" if got else "accepted"))
# ---- the response
if PART in ("all", "response"):
    for i in basis("C"):
        a = unit(shape("C"), i)
        for mod, name in ((calc, "Calculate_Chi"), (gamma3, "vertex Calculate_Chi")):
            r = attempt("%s: C%s" % (name, i), lambda: rt(mod.Calculate_Chi(obj("C", a), m)))
            if r is None: continue
            w = np.zeros((1, N, 1, N, V, NT), complex)
            for s, o, x in ((UU, UU, .25), (DD, DD, .25), (UU, DD, -.25), (DD, UU, -.25)): w[0, :, 0] += x * a[s, :, o]
            report("%s: C%s" % (name, i), r, w)
            STAT["states"] += 1
    B = basis("G", lambda i: i[4] < 2 and i[5] != 1 or NT < 4)
    c0 = dense("C")
    for i in B:
        for j in B:
            if j < i: continue
            a = unit(shape("G"), i)
            a[j] += 0.7
            x = before(a)[..., 0]
            w = np.array(c0)
            for s1, s2, s3, s4 in itertools.product(S2, repeat=4):
                for p in range(N):
                    for q in range(N): w[p2(s1, s2), p, p2(s3, s4), q] += x[s1, p, s2, p] * x[s3, q, s4, q]
            r = attempt("disconnected part: G%s G%s" % (i, j), lambda: rt(calc.Add_ChiTensor_ZerothOrder(obj("C", c0), obj("G", a), m)))
            if r is None: break
            report("disconnected part: G%s G%s" % (i, j), r, w)
            STAT["states"] += 1
# ---- vertex functions (one sublattice)
def mid(g, k, sign=-1):
    """between the two bins that meet at the integer time k"""
    def at(n):
        x = 1
        while n < 0: n += NT; x *= sign
        while n >= NT: n -= NT; x *= sign
        return x * g[..., n]
    return 0.5 * (at(k - 1) + at(k))
GGSH = (2, V, NT, NT)
def spec_gg(g):
    z = np.zeros(GGSH, complex)
    for t1 in range(NT):
        for t2 in range(NT): z[U, 0, t1, t2] = -g[U, 0, U, 0, 0, t1] * g[U, 0, U, 0, 0, NT - 1 - t2]
    return z
def spec_addw(x, w):
    z = np.zeros(GGSH, complex)
    for t1 in range(NT):
        for t2 in range(NT):
            y = mid(w[:, 0, :, 0, 0], (t1 - t2) % NT, 1)
            z[U, :, t1, t2] = -(x[U, :, t1, t2] * y[UU, UU] + x[D, :, t1, t2] * y[UD, DU])
            z[D, :, t1, t2] = -(x[U, :, t1, t2] * y[DU, UD] + x[D, :, t1, t2] * y[DD, DD])
    return z
def spec_twog(x, g):
    z = np.zeros(GGSH, complex)
    h = {k: mid(g[:, 0, :, 0, 0], k) for k in range(-NT, NT + 1)}
    for s in S2:
        A = np.array([[h[t - o][s, s] for o in range(NT)] for t in range(NT)])
        B = np.array([[h[i - t][s, s] for t in range(NT)] for i in range(NT)])
        z[s] = DT * DT * np.einsum("to,roi,iu->rtu", A, x[s], B)
    return z
def spec_gammaw(x, g):
    z = np.zeros((2, V, V, NT, NT), complex)
    for to in range(NT):
        for ti in range(NT):
            f, b = mid(g[:, 0, :, 0, 0], ti - to), mid(g[:, 0, :, 0, 0], to - ti)
            for r in range(V):
                z[0, r, r, to, ti] = -(f[U, U] * x[U, r, to, ti] + f[D, D] * x[D, r, to, ti] + b[U, U] * x[U, r, ti, to] + b[D, D] * x[D, r, ti, to])
                z[1, r, r, to, ti] = -(f[D, D] * x[U, r, to, ti] + b[U, U] * x[D, r, ti, to])
    return z
def spec_gammag(ww, g):
    z = np.zeros(GGSH, complex)
    for to in range(NT):
        for ti in range(NT):
            b = mid(g[:, 0, :, 0, 0], to - ti)
            for r in range(V):
                z[U, r, to, ti] = b[U, U] * ww[0, r, r, to, ti] + b[D, D] * ww[1, r, r, to, ti]
                z[D, r, to, ti] = -b[D, D] * np.conj(ww[0, r, r, to, ti]) - b[U, U] * np.conj(ww[1, r, r, to, ti])
    return z
def spec_twow(gw, w0, w):
    step = NT // TINY
    f = np.zeros((V, TINY), complex)
    for t in range(TINY): f[:, t] = mid(w[UU, 0, UU, 0], t * step, 1) * BETA / TINY
    f[:, 0] += w0[UU, 0, UU, 0]
    M = np.zeros((V, TINY, V, TINY), complex)
    for r in range(V):
        for s in range(V):
            for t in range(TINY):
                for u in range(TINY): M[r, t, s, u] = f[DIFF[r][s], (t - u) % TINY]
    z = np.einsum("atbu,sbcuv,dwcv->sadtw", M, gw, M)
    return -z * np.array([1.0, 4.0]).reshape(2, 1, 1, 1, 1)
def mixed(what, f, spec, xs, ys, tol=1e-10):
    for i, x in xs:
        for j, y in ys:
            a = attempt("%s: %s %s" % (what, i, j), lambda: f(x, y))
            if a is None: return
            report("%s: %s %s" % (what, i, j), a, spec(x, y), tol)
            STAT["states"] += 1
if N == 1 and PART in ("all", "vertex", "twow"):
    GX = [("vertex%s" % (i,), unit(GGSH, i)) for i in itertools.product(*[range(x) for x in GGSH])] + [("dense", RNG.rand(*GGSH) + 1j * RNG.rand(*GGSH))]
    near = lambda i: i[4] < 2
    GB = [("G%s" % (i,), unit(shape("G"), i)) for i in basis("G", near)] + [("dense", dense("G"))]
    WB = [("W%s" % (i,), unit(shape("W"), i)) for i in basis("W", near)] + [("dense", dense("W"))]
    if PART != "twow":
        diag = [i for i in basis("G", near) if i[0] == i[2]]
        GP = GB + [("G%s G%s" % (i, j), unit(shape("G"), i) + 0.6j * unit(shape("G"), j)) for i in diag for j in diag if i < j]
        mixed("two propagators", lambda x, g: gamma3.SimpleGG(obj("G", g), m), lambda x, g: spec_gg(g), [("", 0)], GP)
        mixed("interaction across the vertex", lambda x, w: gamma3.AddW_To_GGGammaG(x.copy(), obj("W", w), m), spec_addw, GX, WB)
        mixed("propagators at the vertex", lambda x, g: gamma3.AddTwoG_To_GammaG(x.copy(), obj("G", g), m), spec_twog, GX, GP)
        mixed("propagator over the vertex", lambda x, g: np.array(gamma3.AddG_To_GGGammaG(x.copy(), obj("G", g), m), dtype=complex), spec_gammaw, GX, GB, 1e-5)
        sh = (2, V, V, NT, NT)
        WX = [("table%s*%s" % (i, c), unit(sh, i, c)) for i in itertools.product(*[range(x) for x in sh]) if i[1] == i[2] or i[3] == 0 for c in (1.0, 1j)] + [("dense", RNG.rand(*sh) + 1j * RNG.rand(*sh))]
        mixed("propagator below the vertex", lambda x, g: gamma3.AddG_To_WWGammaW(x.copy(), obj("G", g), m), spec_gammag, WX, GB)
        # the response of a vertex function
        for i, x in GX:
            w0 = dense("W0", 0.1)
            q = np.zeros(shape("P"), complex)
            for t in range(NT):
                q[UU, 0, UU, 0, :, t] = q[DD, 0, DD, 0, :, t] = 0.2 * x[U, :, t, t]
                q[DD, 0, UU, 0, :, t] = q[UU, 0, DD, 0, :, t] = 0.2 * x[D, :, t, t]
            r = attempt("vertex response: " + i, lambda: gamma3.FullGGGammaG(0.2 * x, obj("W0", w0), m))
            if r is None: break
            c, j, p = big(rt(r[0]), 1), bigd(w0), big(q, 1)
            report("vertex response: " + i, c, -p + DT * j @ p @ c @ (0.5 * (np.eye(len(c)) + later(4, 1))), 1e-8)
            STAT["states"] += 1
    if len(L) == 2 and PART != "vertex":
        sh = (2, V, V, TINY, TINY)
        TX = [("table%s" % (i,), unit(sh, i)) for i in itertools.product(*[range(x) for x in sh])] + [("dense", RNG.rand(*sh) + 1j * RNG.rand(*sh))]
        def sw(i, w):
            w = np.array(w)
            for j in np.argwhere(w): w[j[2], j[3], j[0], j[1], MINUS[j[4]], NT - 1 - j[5]] += w[tuple(j)] if tuple(j) != (j[2], j[3], j[0], j[1], MINUS[j[4]], NT - 1 - j[5]) else 0
            return w
        SW = [("W%s" % (i,), sw(i, unit(shape("W"), i))) for i in basis("W", lambda i: i[0] == i[2] == UU or i[4] == 0 and i[5] == 0)]
        S0 = [("W0%s" % (i,), unit(shape("W0"), i) + (unit(shape("W0"), i[2:4] + i[0:2] + (MINUS[i[4]],)) if i != i[2:4] + i[0:2] + (MINUS[i[4]],) else 0)) for i in basis("W0", lambda i: i[0] == i[2] == UU or i[4] == 0)]
        zw, z0 = np.zeros(shape("W")), np.zeros(shape("W0"))
        pairs = [(a, (z0, b)) for a, b in SW] + [(a, (b, zw)) for a, b in S0] + [("all", (sum(b for _, b in S0) * 0.3, sum(b * (0.1 + 0.05 * k) for k, (_, b) in enumerate(SW))))]
        if PART == "twow": pairs += [(a + " " + c, (d, b)) for a, b in SW for c, d in S0 if "(3, 0, 3, 0" in a and "(3, 0, 3, 0" in c]
        mixed("interactions at the vertex", lambda x, w: np.array(gamma3.AddTwoW_To_GammaW(np.array(x, dtype=np.complex64), obj("W0", w[0]), obj("W", w[1]), m), dtype=complex), lambda x, w: spec_twow(x, *w), TX, pairs, 3e-5)
# ---- shared objects
if PART in ("all", "shared"):
    import copy
    g, w = dense("G", 0.3), dense("W", 0.3)
    base = {"G": ("G", g), "G0": ("G", dense("G", 0.3)), "S": ("S", dense("S", 0.2)), "SD": ("SD", dense("SD", 0.2)), "W": ("W", w), "W0": ("W0", dense("W0", 0.1)), "P": ("P", dense("P", 0.1)), "C": ("C", dense("C", 0.1))}
    GG, WW = RNG.rand(*GGSH) + 0j, RNG.rand(2, V, V, NT, NT) + 0j
    W5 = (RNG.rand(2, V, V, TINY, TINY) + 0j).astype(np.complex64)
    OPS = {"fock": lambda o: calc.SigmaSmoothT_FirstOrder(o["G"], o["W"], m), "hartree-fock": lambda o: calc.SigmaDeltaT_FirstOrder(o["G"], o["W0"], m), "polarisation": lambda o: calc.Polar_FirstOrder(o["G"], m),
           "dyson G": lambda o: calc.G_Dyson(o["G0"], o["SD"], o["S"], m), "dyson W": lambda o: calc.W_Dyson(o["W0"], o["P"], m, None)[0], "dyson chi": lambda o: calc.W_Dyson(o["W0"], o["P"], m, None)[1],
           "response": lambda o: calc.Calculate_Chi(o["C"], m), "disconnected": lambda o: calc.Add_ChiTensor_ZerothOrder(copy.deepcopy(o["C"]), o["G"], m),
           "to frequencies": lambda o: [x.FFT("K", "W") for x in o.values()] and None, "to momenta": lambda o: [x.FFT("K", "T") for x in o.values()] and None, "to space": lambda o: [x.FFT("R") for x in o.values()] and None}
    if N == 1:
        OPS.update({"SimpleGG": lambda o: gamma3.SimpleGG(o["G"], m), "AddW": lambda o: gamma3.AddW_To_GGGammaG(GG.copy(), o["W"], m), "AddTwoG": lambda o: gamma3.AddTwoG_To_GammaG(GG.copy(), o["G"], m),
                    "AddG": lambda o: gamma3.AddG_To_GGGammaG(GG.copy(), o["G"], m), "AddG2": lambda o: gamma3.AddG_To_WWGammaW(WW.copy(), o["G"], m), "full": lambda o: gamma3.FullGGGammaG(GG * 0.1, o["W0"], m)[0]})
        if len(L) == 2: OPS["AddTwoW"] = lambda o: gamma3.AddTwoW_To_GammaW(W5.copy(), o["W0"], o["W"], m)
    def fresh(dom=None):
        o = {k: obj(*v) for k, v in base.items()}
        if dom: [o[k].FFT(*d) for k, d in zip(o, dom)]
        return o
    def value(x): return None if x is None else rt(x) if hasattr(x, "FFT") else np.array(x, dtype=complex)
    def dom(o): return tuple((x.SpaceDomain, x.TimeDomain) for x in o.values())
    ref = {k: value(f(fresh())) for k, f in OPS.items()}
    start = [dom(fresh())]
    seen, todo = set(start), list(start)
    while todo:
        d = todo.pop()
        STAT["states"] += 1
        for k, f in OPS.items():
            STAT["transitions"] += 1
            o = fresh(d)
            r = attempt("%s: arguments in %s" % (k, d), lambda: (f(o),))
            if r is None: continue
            e = dom(o)
            if ref[k] is not None:
                report("%s, arguments in %s: result" % (k, d), value(r[0]), ref[k], 3e-5 if k in ("AddTwoW", "AddG") else 1e-9)
                # what comes out is no part of an argument
                if hasattr(r[0], "FFT"):
                    r[0].Data = r[0].Data * 0 + 5.0
                else: r[0][...] = 5.0
            for n, x in o.items():
                y = copy.deepcopy(x)
                report("%s changes its argument %s in %s" % (k, n, d), rt(y), base[n][1], 1e-9)
            if e not in seen: seen.add(e); todo.append(e)
    sample("%d representations of the %d shared objects reached by %d operations" % (len(seen), len(base), len(OPS)))
sample(TAG)
STAT["runs"] += 1
finish()
