"""C34: which orders the solver uses: every assignment of kinds of data to the orders of both quantities, every error
threshold that matters and every pair of orders used before."""
from vsolver import *
P = "C34"
weight, collect, IO = load(["weight", "collect", "IO"])
import numpy as np, itertools, copy
from scipy.interpolate import LSQUnivariateSpline
SHARD, SHARDS = argi("shard", 0), argi("shards", 1)
WS = os.path.join(WORK, "py")
NT, ORD, SUB, BOTH = argi("nt", 8), argi("ord", 3), argi("sub", 1), argi("both", 0)
M = weight.IndexMap(Beta=0.5, L=[2, 1], NSublat=SUB, MaxTauBin=NT, MaxTauBinTiny=NT, BasisNum=NT, Symmetry=[])
t = (np.arange(NT) + 0.5) / NT
SM = (1.0 + 0.5 * t) + 1j * (0.25 - 0.125 * t)          # no residual
NO = 0.25 * (-1.0) ** np.arange(NT) * (1 + 0.5j)         # nothing but residual
def fill(shape, big, small, o):
    """one cell of large values and all others of smaller ones, a different cell for each order"""
    w = np.zeros(shape, complex)
    cells = list(np.ndindex(*shape[:-1]))
    for i, ix in enumerate(cells): w[ix] = 0 if i % 3 == 2 else (0.25 + 0.03125 * (i % 5)) * small
    w[cells[(5 * o + 3) % len(cells)]] = big
    return w * float(ARGS.get("scale", 2.0)) ** o
KINDS = {"accurate": lambda s, o: fill(s, 4 * SM, SM, o), "noisy": lambda s, o: fill(s, 4 * SM + 2 * NO, SM, o), "accurate among noisy": lambda s, o: fill(s, 4 * SM, SM + 4 * NO, o),
         "empty": lambda s, o: np.zeros(s, complex), "slightly noisy": lambda s, o: fill(s, 4 * SM + 0.125 * NO, SM + NO, o)}
if argi("few", 0): KINDS = {k: KINDS[k] for k in ("accurate", "noisy", "empty")}
K = list(KINDS)
SHAPE = {0: (2, SUB, 2, SUB, M.Vol, NT), 1: (4, SUB, 4, SUB, M.Vol, NT)}
def error(w):
    best, err = 0.0, None
    for ix in np.ndindex(w.shape[:-1]):
        y = w[ix]
        if np.max(np.abs(y)) < 1e-7: continue
        knots, x = np.linspace(0, NT, 3)[1:-1], np.arange(NT)
        f = [LSQUnivariateSpline(x, part, knots) for part in (y.real, y.imag)]
        a = np.mean(np.abs(f[0](x) + 1j * f[1](x)))
        if a > best: best, err = a, abs((f[0].get_residual() / NT) ** 0.5 + 1j * (f[1].get_residual() / NT) ** 0.5)
    return err
NORM = [(3.0, 1.5), (5.0, 0.75)]  # accumulated, constant
TABLE, ERR = {}, {}
for q in (0, 1):
    for o in range(ORD):
        for k in K:
            TABLE[q, o, k] = KINDS[k](SHAPE[q], o)
            ERR[q, o, k] = error(TABLE[q, o, k] / NORM[q][0] * NORM[q][1])
NAMES = ("self energy", "polarization")
def collected(kinds):
    h = lambda q: {"SmoothT": {"WeightAccu": np.array([TABLE[q, o, kinds[q][o]] for o in range(ORD)]), "NormAccu": NORM[q][0], "Norm": NORM[q][1]}}
    IO.SaveBigDict(os.path.join(WS, "1_MC_statis"), {"Sigma": {"Histogram": h(0)}, "Polar": {"Histogram": h(1)}, "Estimators": {"x": 1.0}})
    return collect.CollectStatis(M, False)[:2]
def want(q, kinds, th, used):
    o = 0
    while o < ORD:
        e = ERR[q, o, kinds[o]]
        if e is None and o == 0: return None
        if not (o + 1 <= used or (e is not None and e < th)): break
        o += 1
    return o or None
def one(kinds, th, used, res):
    STAT["states"] += 1; STAT["transitions"] += 1; STAT["runs"] += 1
    exp = [want(q, kinds[q], th, used[q]) for q in (0, 1)]
    txt = "self energy of %s, polarization of %s orders, threshold %.4g, orders used before %d and %d" % (", ".join(kinds[0]), ", ".join(kinds[1]), th, used[0], used[1])
    old = {"Sigma": used[0], "Polar": used[1]}
    given = dict(old)
    try: S, Po, acc = collect.UpdateWeight(res, th, given)
    except collect.CollectStatisFailure as e:
        if None not in exp: viol(P, "refused", txt + ": the statistics are refused (%s)" % e)
        return
    if None in exp: viol(P, "accepted", txt + ": no order can be used, but %s are" % (acc,)); return
    if given != old: viol(P, "changed", txt + ": the orders given are changed to %s" % given)
    if acc != {"Sigma": exp[0], "Polar": exp[1]}: viol(P, "orders", txt + ": orders %s are used instead of %s" % (acc, exp)); return
    for w, q in ((S, 0), (Po, 1)):
        e = sum(TABLE[q, o, kinds[q][o]] for o in range(exp[q])) / NORM[q][0] * NORM[q][1]
        if np.shape(w.Data) != e.shape or np.max(np.abs(w.Data - e)) > 1e-12 * np.max(np.abs(e)): viol(P, "weights", txt + ": the %s is not the normalised sum of the orders used" % NAMES[q])
def run():
    rows = list(itertools.product(K, repeat=ORD))
    good = tuple([K[0]] * ORD)
    pairs = [(a, b) for a in rows for b in rows] if BOTH else [(a, good) for a in rows] + [(good, b) for b in rows if b != good]
    for n, kinds in enumerate(pairs):
        if n % SHARDS != SHARD: continue
        res = collected(kinds)
        errs = sorted(set(ERR[q, o, kinds[q][o]] for q in (0, 1) for o in range(ORD) if ERR[q, o, kinds[q][o]] is not None))
        errs = [e for i, e in enumerate(errs) if i == 0 or e > errs[i - 1] * 1.001 + 1e-12]
        # one threshold in every gap between errors
        ths = [errs[0] / 2 if errs and errs[0] > 1e-9 else 0.0] + [(a + b) / 2 for a, b in zip(errs, errs[1:])] + [1e9]
        for th in ths:
            for used in itertools.product(range(ORD + 1), repeat=2) if not BOTH else ((0, 0), (1, ORD), (ORD, 1)):
                one(kinds, th, used, copy.deepcopy(res))
    sample("every assignment of %s to %d orders%s, every threshold between two errors, every pair of orders used before" % (", ".join(K), ORD, " of both quantities" if BOTH else " of either quantity"))
def successive():
    """versions one after the other: an order that was used stays in use"""
    rows = list(itertools.product(K, repeat=ORD))
    good = tuple([K[0]] * ORD)
    th = sorted(e for e in ERR.values() if e is not None)[-1] * 0.3
    for n, (a, b) in enumerate(itertools.product(rows, repeat=2)):
        if n % SHARDS != SHARD: continue
        used = {"Sigma": 0, "Polar": 0}
        exp = 0
        for v, kinds in enumerate((a, b)):
            STAT["transitions"] += 1; STAT["runs"] += 1
            e = want(0, kinds, th, exp)
            try: S, Po, used = collect.UpdateWeight(collected((kinds, good)), th, used)
            except collect.CollectStatisFailure:
                if e is not None: viol(P, "refused", "version %d of %s: refused" % (v + 1, (a, b)))
                continue
            if e is None or used["Sigma"] != e: viol(P, "orders", "version %d of self energies of %s then %s orders: %s used instead of %s" % (v + 1, a, b, used["Sigma"], e)); break
            exp = e
        STAT["states"] += 1
    sample("every pair of successive versions")
try: {"orders": run, "versions": successive}[ARGS.get("part", "orders")]()
except Exception as e:
    import traceback
    viol(P, "exception", "%r at %s" % (e, traceback.format_exc()[-900:]))
finish()
