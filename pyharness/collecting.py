"""C26: the real collector on real files: every assignment of file conditions to a few workers, in every order in which
the directory can list them; the acceptance of orders; and files left by real workers."""
from vsolver import *
P = "C26"
weight, collect, IO = load(["weight", "collect", "IO"])
import numpy as np, itertools, shutil, subprocess, h5py, copy
SHARD, SHARDS = argi("shard", 0), argi("shards", 1)
GAMMA = bool(argi("gamma", 0))
WS = os.path.join(WORK, "py")
NT, ORD = argi("nt", 8), 2
L, SUB = [2, 1], 1
def amap(L=L, sub=SUB, nt=NT): return weight.IndexMap(Beta=0.5, L=list(L), NSublat=sub, MaxTauBin=nt, MaxTauBinTiny=nt, BasisNum=nt, Symmetry=[])
M = amap()
def arr(seed, shape):
    r = np.random.RandomState(seed)
    return (r.randint(-40, 41, shape) + 1j * r.randint(-40, 41, shape)) / 8.0
def content(i):
    v = M.Vol
    h = lambda k, spin: {"SmoothT": {"WeightAccu": arr(10 * i + k, (ORD, spin, SUB, spin, SUB, v, NT)), "NormAccu": 2.0 + 0.25 * i + k, "Norm": 1.5 * k}}
    d = {"Sigma": {"Histogram": h(1, 2)}, "Polar": {"Histogram": h(2, 4)}, "Estimators": {"x": 1.0}}
    if GAMMA:
        d["GammaGStatis"] = {"WeightAccu": arr(10 * i + 3, (2, v, 4, 4)), "NormAccu": 4.0 + i, "Norm": 2.5}
        d["GammaWStatis"] = {"WeightAccu": arr(10 * i + 4, (2, 3, 4)), "NormAccu": 8.0 - i, "Norm": 3.5}
    return d
PARTS = [("Sigma", "Histogram", "SmoothT"), ("Polar", "Histogram", "SmoothT")] + ([("GammaGStatis",), ("GammaWStatis",)] if GAMMA else [])
def at(d, path):
    for k in path: d = d[k]
    return d
BYTES = {}
def stored(i, cond):
    """bytes of the file of worker i in one condition"""
    if (i, cond) in BYTES: return BYTES[i, cond]
    good = content(i)
    if cond == "empty": b = b""
    elif cond == "truncated": b = stored(i, "good"); b = b[:len(b) // 2]
    elif cond == "cut": b = stored(i, "good")[:-1]
    elif cond == "garbage": b = b"\x89HDF\r\n\x1a\n" + bytes(range(256)) * 4
    else:
        k, _, what = cond.partition(":")
        if k == "lost":
            p = PARTS[int(what[0])]
            if what[1:] == "": del good[p[0]]
            else: del at(good, p)[what[1:]]
        elif k == "norm": at(good, PARTS[int(what)])["Norm"] *= 2
        elif k == "orders": x = at(good, PARTS[int(what)]); x["WeightAccu"] = x["WeightAccu"][:1].copy()
        elif k == "shape": x = at(good, PARTS[int(what)]); x["WeightAccu"] = x["WeightAccu"][..., :1].copy()
        elif k == "text": at(good, PARTS[int(what[0])])[what[1:]] = "damaged"
        n = os.path.join(WORK, "tmpfile.hkl")
        IO.SaveBigDict(n, good)
        b = open(n, "rb").read()
    BYTES[i, cond] = b
    return b
last = len(PARTS) - 1
BAD = ["vanished", "truncated", "empty", "garbage", "cut", "lost:0", "lost:1", "lost:0WeightAccu", "lost:1NormAccu", "lost:1Norm", "shape:0", "shape:1", "text:0NormAccu"] + (["lost:2", "lost:3", "lost:3NormAccu", "lost:2NormAccu"] if GAMMA else [])
ODD = ["norm:0", "norm:1", "orders:0", "orders:1"] + (["norm:2", "norm:3", "shape:3", "shape:2"] if GAMMA else [])
if argi("few", 0): BAD = ["vanished", "truncated", "lost:1", "lost:%d" % last, "shape:1"]; ODD = ["norm:1", "norm:%d" % last, "orders:1"]
# --- the world the collector sees
ORDER, VANISH = [], []
_listdir, _File = os.listdir, h5py.File
def listdir(p="."):
    r = _listdir(p)
    if os.path.realpath(p) == os.path.realpath(WS): r.sort(key=lambda f: ORDER.index(f) if f in ORDER else (-1 if f < "5" else 99))
    return r
os.listdir = listdir
def vanish(*a, **k):
    while VANISH:
        try: os.unlink(VANISH.pop())
        except OSError: pass
    return _File(*a, **k)
h5py.File = vanish
def name(i): return "%d_MC_statis.hkl" % i
def clean():
    for f in _listdir(WS):
        if "_statis" in f:
            p = os.path.join(WS, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
def place(conds):
    for i, c in conds:
        with open(os.path.join(WS, name(i)), "wb") as f: f.write(stored(i, "good") if c == "vanished" else stored(i, c))
        if c == "vanished": VANISH.append(os.path.join(WS, name(i)))
def total(ids):
    d = [content(i) for i in ids]
    return [(sum(at(x, p)["WeightAccu"] for x in d), sum(at(x, p)["NormAccu"] for x in d), at(d[0], p)["Norm"]) for p in PARTS]
def matches(res, ids, scale=lambda p, c: 1, orders=lambda p, c: 2):
    t = total(ids)
    for k, est in enumerate(res[:2]):
        d = est.ToDict()["SmoothT"]
        if not (np.shape(d["WeightAccu"]) == t[k][0].shape and np.array_equal(d["WeightAccu"], t[k][0]) and d["NormAccu"] == t[k][1] and d["Norm"] == t[k][2]): return False
    if GAMMA:
        for k in (2, 3):
            e = t[k][0] / t[k][1] * t[k][2]
            if np.shape(res[k]) != e.shape or np.max(np.abs(res[k] - e)) > 3e-7 * np.max(np.abs(e)): return False
    return True
def collected():
    STAT["runs"] += 1
    try: return collect.CollectStatis(M, GAMMA)
    except collect.CollectStatisFailure: return None
def describe(conds): return ", ".join("%d %s" % c for c in conds)
def case(conds):
    """conds in the order in which the directory lists them"""
    STAT["states"] += 1; STAT["transitions"] += len(conds)
    clean(); del VANISH[:]
    place(conds)
    # what a killed or foreign program leaves behind
    for junk in ("_1_MC_statis.hkl", "_7_MC_statis.hkl"):
        with open(os.path.join(WS, junk), "wb") as f: f.write(stored(1, "truncated"))
    os.makedirs(os.path.join(WS, "old_statis"))
    ORDER[:] = [name(i) for i, _ in conds]
    try: res = collected()
    except BaseException as e:
        viol(P, "unclean", "files in this order: %s: the collection ends with %r" % (describe(conds), e)); return
    n = len(conds)
    good = [i for i, c in conds if c == "good"]
    odd = [(i, c) for i, c in conds if c in ODD]
    if not odd:
        want = good if good and len(good) / float(n) >= 0.75 else None
        if want is None:
            if res is not None: viol(P, "accepted", "files in this order: %s: %d of %d are usable, no failure reported" % (describe(conds), len(good), n))
        elif res is None: viol(P, "refused", "files in this order: %s: %d of %d are usable, the collection fails" % (describe(conds), len(good), n))
        elif not matches(res, good): viol(P, "sum", "files in this order: %s: the result is not the sum of the usable ones" % describe(conds))
        return
    # a file that does not fit those before it is left out entirely; when it is listed first the others do not fit it
    first = next(((i, c) for i, c in conds if c == "good" or c in ODD), None)
    if res is None:
        if first[1] == "good" and len(good) / float(n) >= 0.75: viol(P, "refused", "files in this order: %s: %d of %d are usable, the collection fails" % (describe(conds), len(good), n))
    elif len(good) / float(n) >= 0.75:
        if not matches(res, good): viol(P, "sum", "files in this order: %s: the result is not the sum of the usable ones" % describe(conds))
    else: viol(P, "accepted", "files in this order: %s: %d of %d fit together, no failure reported" % (describe(conds), len(good), n))
def part_files():
    n = argi("n", 3)
    maxbad = argi("maxbad", n)
    k = 0
    for cs in itertools.product(["good"] + BAD + ODD, repeat=n):
        nb = sum(c != "good" for c in cs)
        if nb > maxbad: continue
        if n == 1 and cs[0] in ODD or sum(c in ODD for c in cs) > 1: continue
        for perm in itertools.permutations(range(1, n + 1)) if n <= argi("allorders", 3) else [tuple(range(1, n + 1)), tuple(range(n, 0, -1))]:
            k += 1
            if k % SHARDS == SHARD: case(list(zip(perm, cs)))
    if n == 1:
        clean(); del VANISH[:]
        try:
            if collected() is not None: viol(P, "accepted", "no files at all: no failure reported")
        except BaseException as e: viol(P, "unclean", "no files at all: the collection ends with %r" % e)
        # twice in a row: nothing of the first collection is left
        case([(1, "good"), (2, "good")])
        case([(2, "good"), (1, "good")])
    sample("every combination of up to %d conditions out of %d for %d workers in every listing order" % (maxbad, 1 + len(BAD) + len(ODD), n))
def part_orders():
    """which orders are accepted, and what the weights are then"""
    clean(); del VANISH[:]
    place([(1, "good"), (2, "good")])
    ORDER[:] = []
    t = total([1, 2])
    def smooth_err(w):
        best, err = 0.0, None
        for ix in np.ndindex(w.shape[:-1]):
            y = w[ix]
            if np.allclose(y, 0.0, 1e-5): continue
            s, sig = collect.Smooth(range(NT), y)
            if np.average(abs(s)) > best: best, err = np.average(abs(s)), abs(sig)
        return err
    norm = [x[0] / x[1] * x[2] for x in t[:2]]
    errs = [[smooth_err(w[o]) for o in range(ORD)] for w in norm]
    ths = sorted(set([0.0, 1e9] + [e * f for es in errs for e in es for f in (0.999, 1.001)]))
    for th in ths:
        for a in itertools.product(range(ORD + 1), repeat=2):
            STAT["states"] += 1; STAT["transitions"] += 1; STAT["runs"] += 1
            res = collect.CollectStatis(M, GAMMA)
            want = []
            for k in range(2):
                o = 0
                while o < ORD and (errs[k][o] < th or o + 1 <= a[k]): o += 1
                want.append(o)
            txt = "error threshold %g, accepted orders %d and %d" % (th, a[0], a[1])
            try: S, Po, acc = collect.UpdateWeight(res[:2], th, {"Sigma": a[0], "Polar": a[1]})
            except collect.CollectStatisFailure:
                if 0 not in want: viol(P, "orders", txt + ": the update fails")
                continue
            if 0 in want: viol(P, "orders", txt + ": no order is acceptable, no failure reported"); continue
            if acc != {"Sigma": want[0], "Polar": want[1]}: viol(P, "orders", txt + ": orders %s accepted instead of %s" % (acc, want)); continue
            for w, k in ((S, 0), (Po, 1)):
                e = norm[k][:want[k]].sum(axis=0)
                if np.shape(w.Data) != e.shape or np.max(np.abs(w.Data - e)) > 1e-12 * np.max(np.abs(e)): viol(P, "weights", txt + ": the %s is not the normalised sum of its accepted orders" % ("self energy" if k == 0 else "polarization"))
    # statistics that say nothing
    for what in ("norm0", "norm1", "data0", "data1"):
        d = content(1)
        x = at(d, PARTS[int(what[-1])])
        if what[:4] == "norm": x["NormAccu"] = 0.0
        else: x["WeightAccu"] = x["WeightAccu"] * 0
        clean()
        IO.SaveBigDict(os.path.join(WS, name(1)), d)
        STAT["states"] += 1; STAT["runs"] += 1
        try:
            collect.UpdateWeight(collect.CollectStatis(M, GAMMA)[:2], 1e9, {"Sigma": 0, "Polar": 0})
            viol(P, "nothing", "statistics without %s: no failure reported" % what)
        except collect.CollectStatisFailure: pass
        except BaseException as e: viol(P, "unclean", "statistics without %s: the collection ends with %r" % (what, e))
    sample("every error threshold that matters and every pair of previously accepted orders")
def part_workers():
    """files of real workers: the collection is the sum of what the files hold"""
    global M
    clean()
    exe = ARGS["exe"]
    d = os.path.join(WORK, "workers"); os.makedirs(d)
    n, nt, sub = argi("workers", 3), 6, argi("sub", 1)
    r = subprocess.run([exe, "workers=%d" % n, "Bins=%d" % nt, "Tiny=2", "Sub=%d" % sub, "Gamma=%d" % GAMMA, "steps=%d" % argi("steps", 4000)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    files = sorted(f for f in _listdir(d) if f.endswith("_MC_statis.hkl"))
    if r.returncode or len(files) != n:
        viol(P, "worker", "the workers leave %d statistics files (status %d) %s" % (len(files), r.returncode, r.stderr[-300:])); return
    M = amap([2, 2], sub, nt)
    data = [IO.LoadBigDict(os.path.join(d, f)) for f in files]
    for perm in itertools.permutations(range(n)):
        STAT["states"] += 1; STAT["transitions"] += n
        clean()
        for i in range(n): shutil.copy(os.path.join(d, files[i]), WS)
        ORDER[:] = [files[i] for i in perm]
        res = collected()
        if res is None: viol(P, "refused", "the files of real workers are not accepted"); return
        for k, est in enumerate(res[:2]):
            x = est.ToDict()["SmoothT"]
            parts = [at(q, PARTS[k]) for q in data]
            e = sum(np.asarray(p["WeightAccu"]) for p in parts)
            if not np.any(e): viol(P, "worker", "the workers measured nothing")
            if np.shape(x["WeightAccu"]) != e.shape or np.max(np.abs(x["WeightAccu"] - e)) > 1e-12 * np.max(np.abs(e)) or abs(x["NormAccu"] - sum(p["NormAccu"] for p in parts)) > 1e-9 or x["Norm"] != parts[0]["Norm"]:
                viol(P, "sum", "files of real workers: the result is not their sum")
        if GAMMA:
            for k in (2, 3):
                parts = [at(q, PARTS[k]) for q in data]
                e = sum(np.asarray(p["WeightAccu"]) for p in parts) / sum(p["NormAccu"] for p in parts) * parts[0]["Norm"]
                if np.shape(res[k]) != e.shape or np.max(np.abs(res[k] - e)) > 1e-6 * max(np.max(np.abs(e)), 1e-12): viol(P, "sum", "files of real workers: the vertex function is not their average")
    # the command that only collects
    if not GAMMA:
        clean()
        for f in files: shutil.copy(os.path.join(d, f), WS)
        IO.SaveDict(os.path.join(WORK, "in_dyson"), "w", {"Job": {"Type": "DYSON", "PID": 1, "WeightFile": "nothing", "MessageFile": "Message", "OutputFile": "Output", "DysonOnly": False, "SumRule": False},
            "Para": {"Model": {"Symmetry": []}, "Lattice": {"Name": "Checkerboard" if sub == 2 else "Square", "NSublat": sub, "L": [2, 2]}, "Tau": {"Beta": 0.5, "MaxTauBin": nt, "MaxTauBinTiny": nt, "BasisNum": 2}, "Dyson": {"ErrorThreshold": 1e9, "OrderAccepted": {"Sigma": 0, "Polar": 0}}}})
        r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "pyharness", "runmain.py"), os.path.join(WS, "dyson", "main.py"), "-f", os.path.join(WORK, "in_dyson.txt"), "-c"], cwd=WORK, env=dict(os.environ, PYTHONPATH=":".join(sys.path)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        STAT["runs"] += 1
        try: tot = IO.LoadBigDict(os.path.join(WS, "statis_total"))
        except BaseException as e: viol(P, "command", "collecting only leaves no total (%r): %s" % (e, r.stdout[-400:].decode(errors="replace"))); return
        for k in range(2):
            x = at(tot, PARTS[k]); parts = [at(q, PARTS[k]) for q in data]
            e = sum(np.asarray(p["WeightAccu"]) for p in parts)
            if np.shape(x["WeightAccu"]) != e.shape or np.max(np.abs(np.asarray(x["WeightAccu"]) - e)) > 1e-12 * np.max(np.abs(e)) or abs(x["NormAccu"] - sum(p["NormAccu"] for p in parts)) > 1e-9 or x["Norm"] != parts[0]["Norm"]:
                viol(P, "command", "collecting only: the saved total is not the sum of the files")
    sample("statistics files of %d real workers in every order" % n)
try:
    {"files": part_files, "orders": part_orders, "workers": part_workers}[ARGS.get("part", "files")]()
except Exception as e:
    import traceback
    viol(P, "exception", "%r at %s" % (e, traceback.format_exc()[-900:]))
finish()
