"""C18: every crash point, torn write and failing file operation while saving, on the real saving code; the file is
then loaded by the real loading code.  (harness/crashfs.c is preloaded.)"""
from vpy import *
import ctypes, itertools, errno, shutil, pickle
P = "C18"
preload("crashfs.c")
fs = ctypes.CDLL(None)
fs.crashfs_op.restype = ctypes.c_char_p
fs.crashfs_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
install(["IO.py", "hickle.py"])
import numpy as np, IO, h5py
DATA = os.path.join(WORK, "data")
fs.crashfs_root(DATA.encode())
NONE, CRASH, TORN, FAIL, SHORT, FAILALL = range(6)

def same(a, b):
    """equal as values of a checkpoint: dictionaries, arrays, lists, numbers, text"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return str(a) == str(b)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:
        return False
    if x.shape != y.shape or (x.size and x.dtype.kind != y.dtype.kind and not (x.dtype.kind in "iu" and y.dtype.kind in "iu")):
        return False
    return x.dtype.itemsize >= y.dtype.itemsize * (x.dtype.kind not in "iub") and bool(np.all((x == y) | ((x != x) & (y != y))))

def big(i, n=40):
    r = np.random.RandomState(i)
    return {"Sigma": {"Histogram": {"SmoothT": {"WeightAccu": r.rand(3, n) + 1j * r.rand(3, n), "NormAccu": 1.5 * i, "Norm": 2.0}}},
            "Estimators": {"History": r.rand(n), "Norm": 7.25 + i, "Accu": -3.5, "Estimation": {"Mean": 0.5, "Error": 0.125 * i}}, "Version": i, "Name": "state %d" % i, "List": [1, 2, i]}
def text(i, n=40):
    return {"Para": {"Beta": 0.1 + i, "Version": i, "L": [4, 4], "Flag": bool(i % 2), "RNG": "state '%d' \"x\"\n" % i + "123456 " * n}, "Config": {"Vertex": [{"Name": j, "Tau": j * 0.1 / 3} for j in range(n)]}, "PID": i}
FORMS = {"big": (big, lambda f, d: IO.SaveBigDict(f, d), IO.LoadBigDict, ".hkl"), "text": (text, lambda f, d: IO.SaveDict(f, "w", d), IO.LoadDict, ".txt")}

def child(save, name, d, fault):
    """one attempt to save in a process of its own; returns what it believes happened and the operations seen"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fs.crashfs_arm(*fault)
            try:
                save(name, d)
                res = "saved"
            except BaseException as e:
                res = "raised %s" % type(e).__name__
            n = fs.crashfs_disarm()
            os.write(w, pickle.dumps((res, [fs.crashfs_op(i).decode() for i in range(n)])))
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        b += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    STAT["runs"] += 1
    if os.WIFSIGNALED(st): return "killed by signal %d" % os.WTERMSIG(st), []
    if os.WEXITSTATUS(st) == 77: return "crashed", []
    return pickle.loads(b)
def faults(ops):
    """every way one save of these operations can go wrong"""
    for k, o in enumerate(ops):
        yield "crash before %s %d" % (o, k), (CRASH, k, 0, 0)
        for e in (errno.ENOSPC, errno.EIO):
            yield "%s %d fails (%s)" % (o, k, errno.errorcode[e]), (FAIL, k, 0, e)
        yield "%s %d and all later ones fail" % (o, k), (FAILALL, k, 0, errno.ENOSPC)
        if o == "write":
            for p in (1, 13, 1000000, -1):
                yield "crash inside write %d after part %d" % (k, p), (TORN, k, p, 0)
            for p in (0, 1, 1000000):
                yield "write %d writes part %d only" % (k, p), (SHORT, k, p, 0)
    yield "crash after the last operation", (CRASH, len(ops), 0, 0)
    yield "no fault", (NONE, 0, 0, 0)
def look(load, name, ext, old, new):
    """what a reader finds: 'old', 'new', 'none' or a description of what is broken"""
    STAT["states"] += 1
    if not os.path.exists(name + ext): return "none" if old is None else "the file is gone"
    try: d = load(name)
    except BaseException as e: return "the file cannot be loaded (%s)" % type(e).__name__
    if old is not None and same(d, old): return "old"
    if same(d, new): return "new"
    return "the file holds neither the old nor the new contents"
def history(form, depth, sizes, subdir):
    make, save, load, ext = FORMS[form]
    for hadold, n in itertools.product((True, False), sizes):
        base = os.path.join(DATA, subdir) if subdir is not None else "."
        name = os.path.join(base, "0_MC_statis") if subdir is not None else "0_MC_statis"
        def fresh():
            shutil.rmtree(DATA, ignore_errors=True)
            os.makedirs(base if subdir is not None else DATA)
            os.chdir(DATA)
            if hadold: save(name, make(1, n))
        def go(path, cur, version, left):
            new = make(version, n)
            keep = DATA + ".keep%d" % left
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(DATA, keep)
            res, ops = child(save, name, new, (NONE, 0, 0, 0))
            if res != "saved" or look(load, name, ext, cur, new) != "new":
                viol(P, "plain" + form, "%s: an undisturbed save %s, then %s" % ("; ".join(path), res, look(load, name, ext, cur, new)))
                return
            for i, (what, f) in enumerate(faults(ops)):
                if left == depth and i % SHARDS != SHARD: continue
                os.chdir("/")
                shutil.rmtree(DATA); shutil.copytree(keep, DATA); os.chdir(DATA)
                STAT["transitions"] += 1
                res, _ = child(save, name, new, f)
                got = look(load, name, ext, cur, new)
                p = path + ["save %d (%d entries): %s -> %s" % (version, n, what, res)]
                if got not in ("old", "new", "none"):
                    viol(P, "broken-" + form, "%s: %s afterwards %s" % (form, "; ".join(p), got)); continue
                if res == "saved" and got != "new":
                    viol(P, "silent-" + form, "%s: %s: reported as saved but a reader finds the %s contents" % (form, "; ".join(p), got)); continue
                if left > 1: go(p, new if got == "new" else cur, version + 1, left - 1)
            os.chdir("/")
            shutil.rmtree(keep, ignore_errors=True)
        fresh()
        go(["old file present" if hadold else "no file yet"], make(1, n) if hadold else None, 2, depth)
        sample("%s file, %s: every fault in %d successive saves" % (form, "old file present" if hadold else "no file yet", depth))
def roundtrip(levels):
    """everything a checkpoint may consist of comes back unchanged"""
    os.makedirs(DATA, exist_ok=True); os.chdir(DATA)
    arr = [np.array([1.5, -0.0, 1e300, 1e-300, 1 / 3.]), np.zeros((2, 3)), np.array([[1 + 2j, -1 / 3. - 1e-9j], [0j, 1e200j]]), np.arange(24.).reshape(1, 2, 3, 4), np.arange(3) * (1 + 1j), np.zeros((2, 0)), np.array([np.inf, -np.inf, np.nan])]
    num = [0, -1, 7, 2 ** 31, -2 ** 40, 0.0, -0.5, 1 / 3., 1e-300, 1.7976931348623157e308, 123456789.123456789, True, False, "", "text", "a 'quoted' \"one\"", "two\nlines"]
    lst = [[1, 2, 3], [0.1, 1 / 3., -2.5], [5]]
    leaves = {"big": num + lst + arr, "text": num + lst + [[[1, 2], [3]], [{"a": 1 / 3.}, {"b": [True, "x"]}], None, (1, 2), 1 + 2j, []]}
    for form, vals in leaves.items():
        make, save, load, ext = FORMS[form]
        def tries():
            for v in vals: yield {"k": v}
            for a, b in itertools.product(vals, repeat=2):
                yield {"a": a, "Nested": {"b": b}}
                if levels > 1: yield {"a": {"b": {"c": a}}, "d": b, "e": {}}
        for d in tries():
            STAT["states"] += 1; STAT["runs"] += 2; STAT["transitions"] += 1
            try:
                import copy
                save("rt", copy.deepcopy(d))
                e = load("rt")
                ok = same(e, d) if form == "big" else (same(e, d) or e == d)
                if not ok: viol(P, "roundtrip-" + form, "saved %r, loaded %r" % (d, e))
            except Exception as x:
                viol(P, "roundtrip-" + form, "%r: %s: %s" % (d, type(x).__name__, x))
    # large vertex-function data: kept in single precision, handed back in the precision the program works in
    r = np.random.RandomState(3)
    for key, field in (("GammaWStatis", "WeightAccu"), ("WWGammaW", "SmoothT")):
        a = r.rand(2, 3, 4) + 1j * r.rand(2, 3, 4)
        d = {key: {field: a.copy(), "Norm": 1.5}, "Other": {field: a.copy()}}
        IO.SaveBigDict("g", d)
        e = IO.LoadBigDict("g")
        STAT["runs"] += 2; STAT["states"] += 1
        v = e[key][field]
        if v.dtype != np.complex128: viol(P, "precision", "%s/%s comes back as %s" % (key, field, v.dtype))
        elif not np.allclose(v, a, rtol=3e-7, atol=0): viol(P, "precision", "%s/%s comes back changed" % (key, field))
        if not same(e["Other"][field], a) or e[key]["Norm"] != 1.5: viol(P, "precision", "other data next to %s comes back changed" % key)
    # something that cannot be stored is refused and leaves the old file alone
    for bad in (object(), 1 + 2j):
        IO.SaveBigDict("old", {"a": 1})
        try:
            IO.SaveBigDict("old", {"a": 2, "b": bad})
            if not same(IO.LoadBigDict("old"), {"a": 2, "b": bad}): viol(P, "refuse", "a value that cannot be stored was dropped silently: %r" % bad)
        except BaseException:
            if not same(IO.LoadBigDict("old"), {"a": 1}): viol(P, "refuse", "a refused save damaged the old file")
SHARD, SHARDS = argi("shard", 0), argi("shards", 1)
part = ARGS.get("part", "all")
if part in ("all", "crash"):
    h5py.PIECE[0] = argi("piece", 4096)
    history(ARGS.get("form", "big"), argi("depth", 2), [int(x) for x in ARGS.get("sizes", "3,40").split(",")], ARGS.get("sub") or None)
if part in ("all", "round"): roundtrip(argi("levels", 2))
os.chdir("/")
shutil.rmtree(DATA, ignore_errors=True)
finish()
