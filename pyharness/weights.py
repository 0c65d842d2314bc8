"""C25: the real Weight class of the solver: transforms of every basis tensor along every path of domain changes, and
every sequence of merges, roll-backs and transforms up to a depth, against defining sums."""
from vsolver import *
P = "C25"
weight, = load(["weight"])
import numpy as np, itertools, copy, math
SHARD, SHARDS = argi("shard", 0), argi("shards", 1)
def amap(L, sub, nt, beta=0.7):
    return weight.IndexMap(Beta=beta, L=list(L), NSublat=sub, MaxTauBin=nt, MaxTauBinTiny=nt, BasisNum=nt, Symmetry=[])
NSPIN = {"NoSpin": 1, "TwoSpins": 2, "FourSpins": 4}
class Ref:
    """the transforms by their defining sums"""
    def __init__(self, L, nt, anti, hastau):
        self.hastau = hastau
        V = int(np.prod(L))
        co = [np.unravel_index(i, L) for i in range(V)]
        self.S = np.array([[np.exp(-2j * math.pi * sum(a * b / n for a, b, n in zip(k, r, L))) for r in co] for k in co])
        self.Si = np.conj(self.S).T / V
        if hastau:
            m, n = np.arange(nt)[:, None], np.arange(nt)[None, :]
            self.T = np.exp(-1j * math.pi * (2 * m + (1 if anti else 0)) * (n + 0.5) / nt)
            self.Ti = np.conj(self.T).T / nt
    def to(self, d, space, time):
        """d is in R,T"""
        if space == "K": d = np.einsum("kr,abcdr...->abcdk...", self.S, d)
        if time == "W" and self.hastau: d = np.einsum("wt,...t->...w", self.T, d)
        return d
def close(a, b):
    if np.shape(a) != np.shape(b): return False
    s = np.max(np.abs(b)) if np.size(b) else 0
    return bool(np.all(np.abs(np.asarray(a) - b) <= 1e-11 * max(s, 1e-3)))
REQ = [("R",), ("K",), ("T",), ("W",), ("R", "T"), ("K", "W"), ("K", "T"), ("R", "W")]
def after(dom, req):
    s, t = dom
    for r in req:
        if r in "RK": s = r
        else: t = r
    return s, t
def construct(name, m, spin, sym, dom):
    return weight.Weight(name, m, spin, sym, dom[0], dom[1])
def check(w, ref, rt, what, tag):
    STAT["states"] += 1
    e = ref.to(rt, w.SpaceDomain, w.TimeDomain)
    if not close(w.Data, e):
        viol(P, tag, what + ": the data in domain %s,%s is off by %.3g" % (w.SpaceDomain, w.TimeDomain, np.max(np.abs(np.asarray(w.Data) - e)) if np.shape(w.Data) == np.shape(e) else float("nan")))
        return False
    return True
def part_fft():
    depth = argi("depth", 3)
    case = 0
    for L, sub, nt, spin, sym, name in [((2, 2), 1, 3, "TwoSpins", "AntiSymmetric", "SmoothT"), ((3, 2), 1, 2, "TwoSpins", "Symmetric", "SmoothT"), ((2,), 2, 4, "TwoSpins", "AntiSymmetric", "SmoothT"), ((2, 3), 1, 2, "NoSpin", "Symmetric", "SmoothT"), ((4,), 1, 1, "NoSpin", "AntiSymmetric", "SmoothT"),
                                        ((1, 3), 1, 5, "NoSpin", "AntiSymmetric", "SmoothT"), ((2, 1, 2), 1, 3, "NoSpin", "AntiSymmetric", "SmoothT"), ((2, 1), 1, 2, "FourSpins", "Symmetric", "SmoothT"), ((3, 2), 2, 1, "TwoSpins", None, "DeltaT"), ((2, 2), 1, 3, "FourSpins", "Symmetric", "DeltaT"),
                                        ((4, 3), 1, 8, "NoSpin", "AntiSymmetric", "SmoothT"), ((5,), 1, 7, "NoSpin", "Symmetric", "SmoothT")]:
        m = amap(L, sub, nt)
        ns = NSPIN[spin]
        hastau = name == "SmoothT"
        ref = Ref(L, nt, sym == "AntiSymmetric", hastau)
        shape = [ns, sub, ns, sub, m.Vol] + ([nt] if hastau else [])
        if list(construct(name, m, spin, sym, "RT").Data.shape) != shape:
            viol(P, "shape", "a new weight has shape %s instead of %s" % (construct(name, m, spin, sym, "RT").Data.shape, shape)); continue
        n = int(np.prod(shape))
        deep = depth if n <= 24 else 2 if n <= 200 else 1
        for i in range(n):
            for unit in (1.0, 1j):
                case += 1
                if case % SHARDS != SHARD: continue
                for dom in itertools.product("RK", "TW"):
                    # the basis tensor lives in the starting domain
                    e = np.zeros(n, dtype=complex); e[i] = unit
                    e = e.reshape(shape)
                    rt = e
                    if dom[0] == "K": rt = np.einsum("rk,abcdk...->abcdr...", ref.Si, rt)
                    if dom[1] == "W" and hastau: rt = np.einsum("tw,...w->...t", ref.Ti, rt)
                    w0 = construct(name, m, spin, sym, dom)
                    w0.Data = e.copy()
                    def walk(w, cur, path):
                        for req in REQ:
                            x = copy.deepcopy(w)
                            x.FFT(*req)
                            STAT["transitions"] += 1; STAT["runs"] += 1
                            c = after(cur, req)
                            p = path + ["/".join(req)]
                            txt = "L=%s sublattices %d, %d times, %s %s %s, basis tensor %d in %s: transforms %s" % (L, sub, nt, spin, sym, name, i, ",".join(dom), " then ".join(p))
                            if (x.SpaceDomain, x.TimeDomain) != c:
                                viol(P, "domain", txt + " end in domain %s,%s" % (x.SpaceDomain, x.TimeDomain)); continue
                            if not check(x, ref, rt, txt, "transform"): continue
                            if len(p) < deep: walk(x, c, p)
                    walk(w0, dom, [])
    sample("every basis tensor of twelve shapes in each of four domains, all paths of up to %d transforms" % depth)
def part_history():
    depth = argi("depth", 5)
    nones = argi("none", 0)
    L, sub, nt, spin, sym, name = {0: ((2, 2), 1, 2, "TwoSpins", "AntiSymmetric", "SmoothT"), 1: ((2,), 2, 3, "TwoSpins", "Symmetric", "SmoothT"), 2: ((3, 2), 1, 2, "TwoSpins", None, "DeltaT"), 3: ((2, 1), 1, 3, "FourSpins", "Symmetric", "SmoothT")}[argi("case", 0)]
    m = amap(L, sub, nt)
    ref = Ref(L, nt, sym == "AntiSymmetric", name == "SmoothT")
    shape = [NSPIN[spin], sub, NSPIN[spin], sub, m.Vol] + ([nt] if name == "SmoothT" else [])
    rng = np.random.RandomState(7)
    fresh = [rng.rand(*shape) + 1j * rng.rand(*shape) for _ in range(3)]
    loaded = rng.rand(*shape) * 3 - 1j
    ratios = (None,) if nones else (1 / 11., 0.5, 2.0)
    ops = [("merge", r, k, d) for k, d in ((0, "RT"), (1, "KW"), (2, "KT")) for r in (ratios if k == 0 else ratios[-2:])] + [("rollback",), ("fft", "K", "W"), ("fft", "R", "T"), ("fft", "K"), ("fft", "W"), ("copy",), ("roundtrip",)]
    count = [0]
    def run(w, st, path):
        # st: data (in R,T), accumulated, norm, what a roll-back returns to
        for op in ops:
            if len(path) == 1:
                count[0] += 1
                if count[0] % SHARDS != SHARD: continue
            x = copy.deepcopy(w)
            data, acc, norm, back = st
            STAT["transitions"] += 1; STAT["runs"] += 1
            if op[0] == "merge":
                n = construct(name, m, spin, sym, op[3])
                n.Data = np.array(ref.to(fresh[op[2]], n.SpaceDomain, n.TimeDomain))
                x.Merge(op[1], n)
                p = path + ["merge weight %d given in %s with ratio %s" % (op[2], op[3], op[1])]
                back = (data, acc, norm)
                if op[1] is None: data = fresh[op[2]]
                else:
                    acc, norm = acc + op[1] * fresh[op[2]], norm + op[1]
                    data = acc / norm
                if not check(n, ref, fresh[op[2]], "; ".join(p) + ": the weight merged in", "argument"): continue
            elif op[0] == "rollback":
                x.RollBack()
                p = path + ["roll back"]
                if back is not None: data, acc, norm = back
                back = None
            elif op[0] == "fft":
                x.FFT(*op[1:])
                p = path + ["transform to " + "/".join(op[1:])]
            elif op[0] == "copy":
                y = x.Copy()
                x.FFT("K", "W"); x.Data = x.Data * 3
                if back is not None: x.RollBack()
                x = y
                p = path + ["continue with a copy"]
            else:
                if path and path[-1].startswith("saved"): continue
                d = copy.deepcopy(x.ToDict())
                x.Data = x.Data * 0
                x.FromDict(d)
                p = path + ["saved and loaded"]
            if not check(x, ref, data, "%s weight on %s: " % (spin, L) + "; ".join(p), "history"): continue
            if len(p) < depth: run(x, (data, acc, norm, back), p)
    for start in ("new", "loaded"):
        w = construct(name, m, spin, sym, "RT")
        z = np.zeros(shape, dtype=complex)
        data = z
        if start == "loaded":
            w.FromDict({name: loaded.copy()})
            data = loaded
        run(w, (data, z, 0.0, None), [start])
    sample("all sequences of %d of %d operations on a new and on a loaded weight" % (depth - 1, len(ops)))
def part_solve():
    """factorisation, solution and determinant for every small matrix over a value set"""
    vals = (0, 1, -1, 2j, 0.5 - 1j)
    m = amap((1, 1), 1, 1)
    def one(mats):
        n = len(mats)
        mp = amap((n, 1), 1, 1)
        N = mats[0].shape[0]
        spin, sub = {2: ("TwoSpins", 1), 4: ("FourSpins", 1), 1: ("NoSpin", 1), 3: ("NoSpin", 3)}[N]
        mp = amap((n, 1), sub, 1)
        sp = NSPIN[spin]
        a = np.zeros([sp, sub, sp, sub, n, 1], dtype=complex)
        for i, x in enumerate(mats): a[..., i, 0] = x.reshape([sp, sub, sp, sub])
        b = (np.arange(a.size).reshape(a.shape) % 7 - 3) + 1j * (np.arange(a.size).reshape(a.shape) % 5)
        STAT["runs"] += 3; STAT["states"] += n; STAT["transitions"] += n
        lu, det = weight.LUFactor(a.copy())
        x = weight.Weight("SmoothT", mp, spin, "Symmetric", "K", "W")
        bb = b.copy()
        x.LUSolve(lu, bb)
        if not np.array_equal(b, bb): viol(P, "solve", "the right hand side changes while solving")
        inv = weight.Weight("SmoothT", mp, spin, "Symmetric", "K", "W")
        inv.Data = a.copy()
        inv.Inverse()
        for i, M in enumerate(mats):
            d = np.linalg.det(M)
            X, B = x.Data[..., i, 0].reshape(N, N), b[..., i, 0].reshape(N, N)
            if abs(det[i, 0] - d) > 1e-9 * max(1, abs(d)): viol(P, "det", "the determinant of %s is %s instead of %s" % (M.tolist(), det[i, 0], d)); return
            if np.max(np.abs(M @ X - B)) > 1e-8 * max(1, np.max(np.abs(X))): viol(P, "solve", "the solution for %s is wrong" % M.tolist()); return
            if np.max(np.abs(M @ inv.Data[..., i, 0].reshape(N, N) - np.eye(N))) > 1e-8 * max(1, np.max(np.abs(inv.Data[..., i, 0]))): viol(P, "inverse", "the inverse of %s is wrong" % M.tolist()); return
    def batches(it, n):
        b = []
        for x in it:
            if abs(np.linalg.det(x)) > 1e-6: b.append(x)
            if len(b) == n: yield b; b = []
        if b: yield b
    for b in batches((np.array(v, dtype=complex).reshape(1, 1) for v in itertools.product(vals[1:], repeat=1)), 3): one(b)
    for b in batches((np.array(v, dtype=complex).reshape(2, 2) for v in itertools.product(vals, repeat=4)), 64): one(b)
    for b in batches((np.array(v, dtype=complex).reshape(3, 3) for v in itertools.product((0, 1, -1j), repeat=9)), 512): one(b)
    # four by four: every signed permutation-like matrix plus every placement of one more entry
    def four():
        for p in itertools.permutations(range(4)):
            base = np.zeros((4, 4), dtype=complex)
            for i, j in enumerate(p): base[i, j] = (1, 2, -1, 1j)[i]
            yield base
            for i in range(4):
                for j in range(4):
                    x = base.copy(); x[i, j] += 3 - 1j
                    yield x
                    for k in range(4):
                        y = x.copy(); y[k, (j + k) % 4] += 2j
                        yield y
    for b in batches(four(), 128): one(b)
    layouts(vals)
    sample("every matrix of size 1 and 2 over five values, of size 3 over three values, and a family of size 4")
LAYOUTS = {
    "C": lambda a: np.ascontiguousarray(a).copy(),
    "Fortran": lambda a: np.asfortranarray(a).copy(order="F"),
    "view of a larger array": lambda a: np.repeat(np.repeat(a, 2, axis=0), 3, axis=2)[::2, :, ::3],
    "reversed": lambda a: a[:, ::-1, ::-1].copy(order="C")[:, ::-1, ::-1],
    "transposed": lambda a: a.transpose(1, 0, 2).copy(order="C").transpose(1, 0, 2),
    "matrices first": lambda a: a.transpose(2, 0, 1).copy(order="C").transpose(1, 2, 0),
    "read only": lambda a: _frozen(a.copy())}
def _frozen(a):
    a.flags.writeable = False
    return a
def layouts(vals):
    """every memory layout of the factor and of the right hand side, sequences of solutions of solutions, and what is refused"""
    solver = weight.solver
    for N, M in [(1, 3), (2, 1), (2, 3), (3, 2), (4, 5), (6, 2)]:
        g = np.arange(N * N * M).reshape(N, N, M)
        a = ((g * 7 % 11 - 4.0) + 1j * (g * 5 % 13 - 6.0)) + 3 * np.eye(N)[:, :, None]
        b = (g * 3 % 7 - 2.0) + 1j * (g * 11 % 5)
        mul = lambda u, v: np.einsum("ijm,jkm->ikm", u, v)
        scale = lambda x: 1e-9 * max(1, np.max(np.abs(x)))
        for fa in LAYOUTS:
            for fb in LAYOUTS:
                if fa == "read only": continue # the factorisation may alter its argument
                what = "%d matrices of size %d laid out as: %s; right hand side: %s" % (M, N, fa, fb)
                STAT["runs"] += 1; STAT["states"] += M; STAT["transitions"] += 1
                lu, piv = solver.lu_factor(LAYOUTS[fa](a))
                det = solver.lu_det(lu, piv)
                for i in range(M):
                    d = np.linalg.det(a[:, :, i])
                    if abs(det[i] - d) > 1e-9 * max(1, abs(d)): viol(P, "det", what + ": the determinant is %s instead of %s" % (det[i], d)); return
                x0 = b
                keep = lu.copy(), piv.copy()
                for step in range(3): # the solution is the next right hand side, in whichever layout it came
                    arg = LAYOUTS[fb](b) if step == 0 else x
                    was = arg.copy()
                    x = solver.lu_solve(lu, piv, arg)
                    if not np.array_equal(was, arg): viol(P, "solve", what + ": the right hand side changes while solving"); return
                    if np.max(np.abs(mul(a, x) - was)) > scale(was) * max(1, np.max(np.abs(a))): viol(P, "solve", what + ": solution %d is wrong by %.3g" % (step + 1, np.max(np.abs(mul(a, x) - was)))); return
                    if not (np.array_equal(keep[0], lu) and np.array_equal(keep[1], piv)): viol(P, "solve", what + ": the factors change while solving"); return
    # the same through the weights: solutions of solutions, with transforms of the data between them
    for L, nt in [((2, 2), 3), ((3,), 2), ((1, 2), 1)]:
        for spin in ("TwoSpins", "FourSpins"):
            mp, sp = amap(L, 1, nt), NSPIN[spin]
            for path in itertools.product((None, ("R", "T"), ("K",)), repeat=2):
                x = weight.Weight("SmoothT", mp, spin, "AntiSymmetric", "K", "W")
                g = np.arange(x.Data.size).reshape(x.Data.shape)
                a = (g * 7 % 11 - 4.0) + 1j * (g * 5 % 13 - 6.0) + 5 * np.eye(sp).reshape([sp, 1, sp, 1, 1, 1])
                b = (g * 3 % 7 - 2.0) + 1j * (g * 11 % 5)
                lu, det = weight.LUFactor(a.copy())
                want, y = b, b
                for p in path + (None,):
                    STAT["runs"] += 1; STAT["transitions"] += 1
                    z = weight.Weight("SmoothT", mp, spin, "AntiSymmetric", "K", "W")
                    z.LUSolve(lu, y)
                    want = np.array([[np.linalg.solve(a[:, 0, :, 0, v, t], want[:, 0, :, 0, v, t]) for t in range(nt)] for v in range(mp.Vol)]).transpose(2, 3, 0, 1).reshape(b.shape)
                    if p: z.FFT(*p); z.FFT("K", "W")
                    if np.max(np.abs(z.Data - want)) > 1e-9 * max(1, np.max(np.abs(want))): viol(P, "solve", "%s cells, %d times, %s: the solution of a solution is wrong (transforms between: %s)" % (L, nt, spin, path)); return
                    y = z.Data
    # arguments that do not fit, and matrices without an inverse
    for f, args in [("lu_factor", (np.zeros((2, 3, 1), complex),)), ("lu_factor", (np.zeros((3, 2, 1), complex),)),
                    ("lu_det", (np.ones((2, 3, 1), complex), np.zeros((2, 1), np.intc))), ("lu_det", (np.ones((2, 2, 2), complex), np.zeros((2, 1), np.intc))), ("lu_det", (np.ones((2, 2, 1), complex), np.zeros((1, 1), np.intc))),
                    ("lu_solve", (np.ones((2, 2, 1), complex), np.zeros((2, 1), np.intc), np.ones((2, 2, 2), complex))), ("lu_solve", (np.ones((2, 2, 2), complex), np.zeros((2, 1), np.intc), np.ones((2, 2, 2), complex))),
                    ("lu_solve", (np.ones((2, 2, 1), complex), np.zeros((2, 1), np.intc), np.ones((3, 3, 1), complex))), ("lu_solve", (np.ones((2, 3, 1), complex), np.zeros((2, 1), np.intc), np.ones((2, 3, 1), complex)))]:
        STAT["runs"] += 1
        try: getattr(solver, f)(*args)
        except Exception: continue
        viol(P, "refuse", "%s accepts arguments of shapes %s" % (f, [x.shape for x in args]))
    for v in itertools.product((0, 1, 2j), repeat=4):
        M = np.array(v, dtype=complex).reshape(2, 2, 1)
        if abs(M[0, 0, 0] * M[1, 1, 0] - M[0, 1, 0] * M[1, 0, 0]) > 0: continue
        for n in (1, 3):
            A = np.repeat(np.eye(2, dtype=complex).reshape(2, 2, 1), n, axis=2)
            A[:, :, n - 1] = M[:, :, 0]
            STAT["runs"] += 1
            try: lu, piv = solver.lu_factor(A)
            except Exception: continue
            if np.all(lu[0, 0] * lu[1, 1] != 0): viol(P, "singular", "the matrix %s is factorised as if it had an inverse" % M[:, :, 0].tolist())
try:
    {"fft": part_fft, "history": part_history, "solve": part_solve}[ARGS.get("part", "fft")]()
except Exception as e:
    import traceback
    viol(P, "exception", "%r at %s" % (e, traceback.format_exc()[-700:]))
finish()
