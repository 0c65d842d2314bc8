"""C28: the real solver program (dyson/main.py as the main program) on a small lattice: every sequence of outcomes of its
versions (success, a denominator that vanishes in any of the Dyson equations, statistics that can not be used, an unknown
error), with kills, failing file operations and signals at every change of the disk and restarts from what is left.
The program is stepped as it is; a process is forked at every choice, so every branch starts from the very same memory
and the very same files."""
from vsolver import *
P = "C28"
weight, logger, calc, collect, parameter, model, measure, gamma3, lattice, IO, plot = load(["weight", "logger", "calculator", "collect", "parameter", "model", "measure", "gamma3_calc", "lattice", "IO", "plot"])
import numpy as np, copy, errno, gc, mmap, signal, struct, subprocess, time, types
MODE, GAMMA, FIELD, DEPTH = ARGS.get("mode", "dyson"), bool(argi("gamma", 0)), bool(argi("field", 0)), argi("depth", 3)
KILLS, OSERRS, SIGS, UNKNOWN, LINES = argi("kills", 0), argi("oserrs", 0), argi("sigs", 0), argi("unknown", 0), argi("lines", 0)
FAILS, SUMRULE = argi("fails", DEPTH), bool(argi("sumrule", 0))
NT, TINY, LAT, SUBS = argi("nt", 8), argi("tiny", argi("nt", 8)), [int(x) for x in ARGS.get("L", "2x2").split("x")], argi("subs", 1)
LATNAME = ARGS.get("lattice", "Square")
SHARD, SHARDS = argi("shard", 0), argi("shards", 1)
BETA, PID = 0.5, 3
WS = os.path.join(WORK, "py")
os.chdir(WS)
CODE = compile(open(os.path.join(WS, "dyson", "main.py")).read(), os.path.join(WS, "dyson", "main.py"), "exec")
# ---- what is shared by the processes of the exploration
SH = mmap.mmap(-1, 64)
def count(i, n=1): struct.pack_into("q", SH, 8 * i, struct.unpack_from("q", SH, 8 * i)[0] + n)
def counted(i): return struct.unpack_from("q", SH, 8 * i)[0]
STATES, TRANS, RUNS, VIOLS, KEPT = range(5)
def bad(tag, text):
    count(VIOLS)
    if counted(VIOLS) <= 12: viol(P, tag, "%s: %s: %s" % (CONFIG, " ".join(S.log), text))
CONFIG = "mode=%s gamma3=%d field=%d sumrule=%d" % (MODE, GAMMA, FIELD, SUMRULE)
class State: pass
S = State()
S.log, S.active, S.path = [], False, ()
# ---- the disk
FILES = {"weight.hkl": "weight", "%d_DYSON_para.txt" % PID: "para", "message.txt": "message", "output.txt": "output", "Coordinates.txt": "coordinates"}
KEEP = os.path.join(WORK, "keep")
os.makedirs(KEEP, exist_ok=True)
def names(): return [f for f in os.listdir(".") if os.path.isfile(f) and (f.lstrip("_") in FILES or f.endswith("_statis.hkl"))]
def fds():
    """open data files and the places in them"""
    r = {}
    for n in os.listdir("/proc/self/fd"):
        try: p = os.readlink("/proc/self/fd/" + n)
        except OSError: continue
        if p.startswith(WS + "/") and p.split("/")[-1].split(" ")[0].lstrip("_") in FILES: r[int(n)] = os.lseek(int(n), 0, 1)
    return r
def disk():
    """all data files with what is in them; the files themselves are kept too, a process may hold them open"""
    count(KEPT)
    r = {}
    for f in names():
        k = os.path.join(KEEP, "%d.%s" % (counted(KEPT), f))
        os.link(f, k)
        with open(f, "rb") as h: r[f] = (h.read(), k)
    return r, fds()
def restore(d):
    for f in names(): os.unlink(f)
    for f, (b, k) in d[0].items():
        os.link(k, f)
        with open(f, "rb") as h: same = h.read() == b
        if not same:
            with open(f, "r+b") as h: h.write(b); h.truncate()
    for n, p in d[1].items(): os.lseek(n, p, 0)
    S.seen = {f: stamp(f) for f in FILES}
def forget(d):
    for b, k in d[0].values(): os.unlink(k)
# ---- forks
def died(st, what):
    sys.stderr.write("%s: status %x\n" % (what, st)); os._exit(3)
def choose(options, why):
    """the option this process continues with; the others are explored first by processes of their own"""
    if len(options) == 1: return options[0]
    look()
    count(TRANS, len(options) - 1)
    keep, before = S.active, None
    S.active = False
    old = disk()
    for k, o in list(enumerate(options))[1:]:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            S.path += (k,)
            S.active = keep
            return o
        _, st = os.waitpid(pid, 0)
        if st: died(st, "branch %s=%s after %s" % (why, o, " ".join(S.log)))
        restore(old)
    forget(old)
    S.path += (0,)
    S.active = keep
    return options[0]
def done():
    count(RUNS)
    os._exit(0)
class quiet:
    """the harness itself at work"""
    def __enter__(self): self.k = S.active; S.active = False
    def __exit__(self, *a): S.active = self.k
# ---- parameters
def infile():
    field = ([-0.4] * SUBS, [0.2] * SUBS) if FIELD else ([0.0] * SUBS, [0.0] * SUBS)
    if FIELD and SUBS > 1: field = ([-0.4, 0.4], [0.2, -0.2])
    return {"Job": {"Type": "DYSON", "PID": PID, "WeightFile": "weight", "MessageFile": "message", "OutputFile": "output", "DysonOnly": MODE == "dyson", "SumRule": SUMRULE},
            "Para": {"Gamma3": GAMMA, "Tau": {"MaxTauBin": NT, "Beta": BETA, "MaxTauBinTiny": TINY, "BasisNum": 4}, "Lattice": {"Name": LATNAME, "NSublat": SUBS, "L": LAT},
                     "Model": {"Name": "J1J2", "Interaction": [1.0, 0.25, 0.0, 0.0], "ExternalField": [0.0, 0.0, 0.0, 0.0], "Symmetry": ["SU2", "ParticleHole"], "Hopping": [0.0] * 4, "Phase": [0.0] * 4, "ChemicalPotential": [0.0] * 4},
                     "Dyson": {"SleepTime": 0, "Gamma3": GAMMA, "OrderAccepted": {"Sigma": 1, "Polar": 1}, "ErrorThreshold": 1e9, "Annealing": {"DeltaField": field[0], "Interval": field[1]}}}}
MAP = weight.IndexMap(Beta=BETA, L=list(LAT), NSublat=SUBS, MaxTauBin=NT, MaxTauBinTiny=TINY, BasisNum=4, Symmetry=["SU2", "ParticleHole", LATNAME])
LATT = lattice.Lattice(LATNAME, MAP)
# ---- statistics of the workers
ORD = 2
def arr(seed, shape, size=0.02):
    r = np.random.RandomState(seed % 2 ** 31)
    return (r.randint(-40, 41, shape) + 1j * r.randint(-40, 41, shape)) / 40.0 * size
def smooth(seed, shape):
    """the same number at all times up to a slow drift"""
    return arr(seed, shape[:-1] + (1,)) * (1 + 0.05 * np.arange(shape[-1]))
def statistics(v, kind):
    d = {"Sigma": {"Histogram": {"SmoothT": {"WeightAccu": smooth(7 * v + 1, (ORD, 2, SUBS, 2, SUBS, MAP.Vol, NT)), "NormAccu": 2.0, "Norm": 1.0}}},
         "Polar": {"Histogram": {"SmoothT": {"WeightAccu": smooth(7 * v + 2, (ORD, 4, SUBS, 4, SUBS, MAP.Vol, NT)), "NormAccu": 4.0, "Norm": 2.0}}}}
    if GAMMA:
        m = gamma3.SymmetryMapping(MAP)
        d["GammaGStatis"] = {"WeightAccu": arr(7 * v + 3, (2, MAP.Vol, NT, NT)), "NormAccu": 2.0, "Norm": 3.0}
        d["GammaWStatis"] = {"WeightAccu": arr(7 * v + 4, (2, len(m[5]), len(m[1]))), "NormAccu": 2.0, "Norm": 3.0}
    if kind == "sigma0": d["Sigma"]["Histogram"]["SmoothT"]["NormAccu"] = 0.0
    if kind == "polar0": d["Polar"]["Histogram"]["SmoothT"]["NormAccu"] = 0.0
    return d
def place(v, kind):
    with quiet():
        n = "8_MC_statis.hkl"
        if os.path.exists(n): os.unlink(n)
        if kind != "none": IO.SaveBigDict(n, statistics(v, kind))
# ---- the specification: what one version makes of the last successful one
def wt(name, spins, sym, data, dom=("R", "T")):
    w = weight.Weight(name, MAP, spins, sym, *dom)
    w.Data = np.array(data)
    return w
class Mean:
    def __init__(self, data): self.data, self.acc, self.norm = np.array(data), 0.0, 0.0
    def merged(self, r, new):
        new.FFT("R", "T")
        m = Mean(0)
        m.acc, m.norm = self.acc + r * new.Data, self.norm + r
        m.data = m.acc / m.norm
        return m
def Gw(d): return wt("SmoothT", "TwoSpins", "AntiSymmetric", d)
def Ww(d): return wt("SmoothT", "FourSpins", "Symmetric", d)
def Sw(d): return wt("SmoothT", "TwoSpins", "AntiSymmetric", d)
def Pw(d): return wt("SmoothT", "FourSpins", "Symmetric", d)
def Dw(d): return wt("DeltaT", "TwoSpins", "AntiSymmetric", d, ("R",))
def rt(w): w.FFT("R", "T"); return np.array(w.Data)
def bare(field):
    return model.BareFactory(MAP, LATT, copy.deepcopy(infile()["Para"]["Model"]), {"DeltaField": list(field)}).Build()
class Spec: pass
def fresh(field, step):
    s = Spec()
    G0, W0 = bare(field)
    s.G, s.W = rt(G0), np.zeros_like(Ww(0).Data if False else weight.Weight("SmoothT", MAP, "FourSpins", "Symmetric", "R", "T").Data)
    s.D = Mean(weight.Weight("DeltaT", MAP, "TwoSpins", "AntiSymmetric", "R").Data)
    s.S = Mean(weight.Weight("SmoothT", MAP, "TwoSpins", "AntiSymmetric", "R", "T").Data)
    s.P = Mean(np.zeros_like(s.W))
    s.GGG = gamma3.SimpleGG(Gw(s.G), MAP) if GAMMA else None
    s.field, s.step = list(field), list(step)
    return s
def loaded(d, field, step):
    s = Spec()
    s.G, s.W = d["G"]["SmoothT"], d["W"]["SmoothT"]
    s.D, s.S, s.P = Mean(d["SigmaDeltaT"]["DeltaT"]), Mean(d["Sigma"]["SmoothT"]), Mean(d["Polar"]["SmoothT"])
    s.GGG = (d["GGGammaG"]["SmoothT"] if "GGGammaG" in d else gamma3.SimpleGG(Gw(s.G), MAP)) if GAMMA else None
    s.field, s.step = list(field), list(step)
    return s
def version(o, v, mc):
    """specification of version v on top of the successful version o"""
    s, r = Spec(), v / (v + 10.0)
    s.field, s.step = o.field, o.step
    G0, W0 = bare(o.field)
    g0, w0 = rt(G0), np.array(W0.Data)
    W0c = lambda: wt("DeltaT", "FourSpins", "Symmetric", w0, ("R",))
    s.w0 = w0
    s.D = o.D.merged(r, calc.SigmaDeltaT_FirstOrder(Gw(o.G), W0c(), MAP))
    s.WW = None
    if not mc:
        g = rt(calc.G_Dyson(Gw(g0), Dw(s.D.data), Sw(o.S.data), MAP))
        s.S = o.S.merged(r, calc.SigmaSmoothT_FirstOrder(Gw(g), Ww(o.W), MAP))
        s.G = rt(calc.G_Dyson(Gw(g0), Dw(s.D.data), Sw(s.S.data), MAP))
        s.P = o.P.merged(r, calc.Polar_FirstOrder(Gw(s.G), MAP))
        if GAMMA:
            gg = gamma3.AddTwoG_To_GammaG(gamma3.AddW_To_GGGammaG(o.GGG.copy(), Ww(o.W), MAP), Gw(s.G), MAP)
            third = 0.0
            if NT == TINY:
                s.WW = gamma3.AddTwoW_To_GammaW(gamma3.AddG_To_GGGammaG(o.GGG.copy(), Gw(s.G), MAP), W0c(), Ww(o.W), MAP)
                third = gamma3.AddTwoG_To_GammaG(gamma3.AddG_To_WWGammaW(s.WW.copy(), Gw(s.G), MAP), Gw(s.G), MAP)
            s.GGG = gamma3.SimpleGG(Gw(s.G), MAP) + gg - third
    else:
        st = statistics(v, "good")
        h = lambda k: np.sum(st[k]["Histogram"]["SmoothT"]["WeightAccu"], axis=0) / st[k]["Histogram"]["SmoothT"]["NormAccu"] * st[k]["Histogram"]["SmoothT"]["Norm"]
        s.S = Mean(h("Sigma"))
        s.G = rt(calc.G_Dyson(Gw(g0), Dw(s.D.data), Sw(s.S.data), MAP))
        s.P = o.P.merged(r, Pw(h("Polar")))
        if GAMMA:
            g3 = lambda k: st[k]["WeightAccu"] / st[k]["NormAccu"] * st[k]["Norm"]
            s.WW = gamma3.AddTwoW_To_GammaW(np.array(g3("GammaWStatis"), dtype=np.complex64), W0c(), Ww(o.W), MAP)
            s.GGG = gamma3.SimpleGG(Gw(s.G), MAP) + gamma3.AddTwoG_To_GammaG(g3("GammaGStatis"), Gw(s.G), MAP)
    while True:
        w, chi, _ = calc.W_Dyson(W0c(), Pw(s.P.data), MAP, LATT)
        s.W = rt(w)
        s.Chi = rt(calc.Calculate_Chi(calc.Add_ChiTensor_ZerothOrder(chi, Gw(s.G), MAP), MAP))
        if not SUMRULE or abs(s.Chi[0, 0, 0, 0, 0, 0] - 0.75) <= 1e-3: break
        s.P.data = s.P.data * np.sqrt(0.75 / s.Chi[0, 0, 0, 0, 0, 0])
    return s
def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.max(np.abs(a - b)) <= tol * max(1e-6, np.max(np.abs(b))))
def differs(d, s):
    """parts of a weight file that are not those of the specification"""
    want = [("G", "SmoothT", s.G, 1e-8), ("W", "SmoothT", s.W, 1e-8), ("W", "DeltaT", s.w0, 1e-8), ("SigmaDeltaT", "DeltaT", s.D.data, 1e-8), ("Sigma", "SmoothT", s.S.data, 1e-8), ("Polar", "SmoothT", s.P.data, 1e-8), ("Chi", "SmoothT", s.Chi, 1e-8)]
    if GAMMA:
        want.append(("GGGammaG", "SmoothT", s.GGG, 1e-4))
        if s.WW is not None: want.append(("WWGammaW", "SmoothT", gamma3.CompressGammaW(s.WW, MAP), 1e-4))
    r = []
    for a, b, x, tol in want:
        if a not in d or b not in d[a]: r.append("%s missing" % a)
        elif not close(d[a][b], x, tol): r.append("%s off by %.2g of %.2g" % (a, np.max(np.abs(np.asarray(d[a][b]) - x)) if np.shape(d[a][b]) == x.shape else -1, np.max(np.abs(x))))
    return r
# ---- the versions as seen from outside
def stamp(f):
    try: s = os.stat(f); return (s.st_ino, s.st_mtime_ns, s.st_size)
    except OSError: return None
def look():
    """checks the disk; called at every point where the program could be killed"""
    with quiet():
        count(STATES)
        for f in FILES:
            st = stamp(f)
            if st == S.seen.get(f): continue
            S.seen[f] = st
            kind = FILES[f]
            if st is None: bad("lost", "%s disappears" % f); continue
            try: d = IO.LoadBigDict(f) if kind == "weight" else IO.LoadDict(f)
            except Exception as e: bad("unreadable", "%s can not be read: %r" % (f, e)); continue
            if kind == "weight":
                if S.failed: bad("failed saved", "version %d fails and its weights are saved" % S.v); continue
                if S.next is None:
                    try: S.next = version(S.spec, S.v, S.mc)
                    except calc.DenorminatorTouchZero: bad("harness", "the specification fails at version %d" % S.v); continue
                x = differs(d, S.next)
                if x: bad("weights", "the saved weights of version %d: %s" % (S.v, ", ".join(x)))
                S.wv = S.v
            elif kind == "para":
                if d["Para"].get("Version", 0) != S.v and S.v: bad("para", "version %s is saved during version %d" % (d["Para"].get("Version"), S.v))
                if S.failed: bad("failed saved", "version %d fails and its parameters are saved" % S.v)
                S.pv = d["Para"].get("Version", 0)
                a = d["Para"]["Dyson"]["Annealing"]
                if S.v and not np.allclose(a["DeltaField"], S.spec.field, atol=1e-12): bad("field", "version %d is saved with the field %s instead of %s" % (S.v, a["DeltaField"], S.spec.field))
            elif kind == "message":
                m = d.get("Version")
                if m != S.v or S.failed: bad("announced", "version %s is announced during version %d, which %s" % (m, S.v, "fails" if S.failed else "succeeds"))
                if S.announced and m <= S.announced[-1]: bad("again", "version %s is announced after %s" % (m, S.announced))
                if S.wv != m: bad("not saved", "version %s is announced, the saved weights are of version %s" % (m, S.wv))
                if S.pv != m: bad("not saved", "version %s is announced, the saved parameters are of version %s" % (m, S.pv))
                if d.get("Beta") != BETA or not d.get("SqueezeFactor", 0) >= 1: bad("message", "%s is announced" % d)
                S.announced.append(m)
                S.mv = m
def ended_version():
    """the version S.v is over"""
    look()
    if S.v == S.base: return
    if S.failed is None:
        if not S.faults:
            if S.wv != S.v or S.pv != S.v or S.mv != S.v: bad("silent", "version %d succeeds, saved and announced are the weights of %s, the parameters of %s and the message of %s" % (S.v, S.wv, S.pv, S.mv))
        with quiet():
            if S.next is None: S.next = version(S.spec, S.v, S.mc)
            s = S.next
            if abs(s.field[0]) > 1e-5: s.field = [a + b for a, b in zip(s.field, s.step)]
            S.spec = s
    elif S.failed == "touch":
        S.spec.step = [x / 2.0 for x in S.spec.step]
        S.spec.field = [a - b for a, b in zip(S.spec.field, S.spec.step)]
    S.log.append("|")
real_build = model.BareFactory.Build
def build(self):
    if S.active and not S.in_build:
        S.builds += 1
        if S.builds >= 2: new_version()
    S.in_build = S.active
    try: return real_build(self)
    finally: S.in_build = False
def new_version():
    S.in_build = True   # the harness is at work
    ended_version()
    if S.signaled: bad("signal lost", "a further version starts after a signal")
    if S.unknown: bad("unknown", "a further version starts after an unknown error")
    if S.done >= DEPTH or S.signaled: S.active = False; done()
    if S.done == 1 and SHARDS > 1 and not S.sharded and not LINES and not ARGS.get("startup"):
        S.sharded = True
        import zlib
        if zlib.crc32(repr((S.path, S.log)).encode()) % SHARDS != SHARD: S.active = False; os._exit(0)
    S.v += 1; S.done += 1
    S.failed, S.next, S.faults = None, None, False
    S.log.append("v%d" % S.v)
    if S.mc:
        kind = choose(["good"] + (["none", "sigma0", "polar0"] if S.fails < FAILS else []), "statistics")
        place(S.v, kind)
        if kind != "good": S.failed = "statis"; S.fails += 1; S.log.append(kind)
    if LINES and S.done == LINES: start_lines()
model.BareFactory.Build = build
real_check = calc.Check_Denorminator
def check(Denorm, Determ, map):
    if not S.active: return real_check(Denorm, Determ, map)
    try: real_check(Denorm, Determ, map)
    except calc.DenorminatorTouchZero: S.failed = "touch"; S.log.append("touch"); raise
    if S.failed == "statis": bad("goes on", "version %d goes on with statistics that can not be used" % S.v)
    if LINES: return
    o = choose(["pass"] + (["touch"] if S.fails < FAILS else []) + (["unknown"] if S.unknowns else []), "check")
    if o == "touch":
        S.failed = "touch"; S.fails += 1; S.log.append("touch")
        raise calc.DenorminatorTouchZero(-0.1, (0, 0), 0)
    if o == "unknown":
        S.failed, S.unknown = "unknown", True; S.unknowns -= 1; S.log.append("unknown")
        raise ValueError("unknown")
calc.Check_Denorminator = check
# ---- what can happen at a change of the disk
def protected(): return signal.getsignal(signal.SIGTERM) not in (signal.SIG_DFL, None)
def event(what, f):
    look()
    S.active = False
    opts = ["go"]
    if S.kills: opts.append("kill")
    if S.oserrs: opts.append("oserr")
    if S.sigs: opts += ["INT", "TERM"]
    S.active = True
    o = choose(opts, "at %s %s" % (what, f))
    if o == "kill":
        S.kills -= 1; S.log.append("kill@%s %s" % (what, f))
        restart()
    if o == "oserr":
        S.oserrs -= 1; S.faults = True; S.log.append("fail@%s %s" % (what, f))
        raise OSError(errno.ENOSPC, "No space left on device", f)
    if o in ("INT", "TERM"):
        S.sigs -= 1; S.faults = S.signaled = True; S.log.append("SIG%s@%s %s" % (o, what, f))
        send(o)
def send(o):
    """the signal; if it ends the process at once another one continues with a restart"""
    S.torn = (S.wv, S.pv) if protected() else None
    a = S.active
    S.active = False
    pid = os.fork()
    if pid:
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGTERM: S.active = a; restart()
        if st: died(st, "signal")
        os._exit(0)
    S.active = a
    os.kill(os.getpid(), getattr(signal, "SIG" + o))
def audit(name, args):
    if not S.active: return
    if name == "open":
        f = os.path.basename(args[0]) if isinstance(args[0], str) else ""
        if f.lstrip("_") in FILES and isinstance(args[1], str) and ("w" in args[1] or "a" in args[1] or "+" in args[1]): event("open", f)
    elif name == "os.rename":
        f = os.path.basename(args[1])
        if f in FILES: event("rename", f)
    elif name == "os.remove":
        f = os.path.basename(args[0])
        if f.lstrip("_") in FILES: event("remove", f)
sys.addaudithook(audit)
# ---- signals at every line
def start_lines():
    roots = (os.path.join(WS, "dyson"), os.path.join(WS, "IO.py"), os.path.join(WS, "hickle.py"))
    S.budget, S.visits = 1, {}
    def local(frame, ev, arg):
        if ev == "line" and S.active and S.budget and S.done == LINES:
            fire(frame)
        return local if S.budget else None
    def glob(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(roots): return None
        return local
    f = sys._getframe()
    while f:
        if f.f_code.co_filename.startswith(roots): f.f_trace = local
        f = f.f_back
    sys.settrace(glob)
def fire(frame):
    k = (frame.f_code, frame.f_lineno, signal.getsignal(signal.SIGINT) == signal.default_int_handler)
    S.visits[k] = S.visits.get(k, 0) + 1
    if S.visits[k] > argi("visits", 1 << 30): return
    S.lines += 1
    if S.lines % SHARDS != SHARD: return
    where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
    look()
    with quiet():
        pid_old = disk()
        count(TRANS)
        pid = os.fork()
        if pid:
            _, st = os.waitpid(pid, 0)
            if st: died(st, "signal at %s" % where)
            restore(pid_old)
            forget(pid_old)
            return
    S.budget = 0
    sys.settrace(None)
    look()
    S.signaled = S.faults = True
    S.log.append("SIGINT@%s" % where)
    S.torn = (S.wv, S.pv) if protected() else None
    os.kill(os.getpid(), signal.SIGINT)
# ---- the program
def restart():
    with quiet(): look()
    if S.restarts <= 0: done()
    S.restarts -= 1
    S.log.append("restart")
    run()
def run():
    """one process; never returns"""
    S.active = False
    sys.settrace(None)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    inf = infile()
    S.builds, S.signaled, S.unknown, S.torn, S.in_build, S.faults, S.failed, S.next = 0, False, False, None, False, False, None, None
    S.seen = {f: stamp(f) for f in FILES}
    S.mc = False
    a = inf["Para"]["Dyson"]["Annealing"]
    S.v = S.pv = 0
    if os.path.exists("weight.hkl"):
        S.mc = MODE == "mc"
        try:
            p = IO.LoadDict("%d_DYSON_para" % PID)["Para"]
            S.v = S.pv = p.get("Version", 0)
            a = p["Dyson"]["Annealing"]
        except Exception: pass
        S.spec = loaded(IO.LoadBigDict("weight"), a["DeltaField"], a["Interval"])
    else: S.spec = fresh(a["DeltaField"], a["Interval"])
    S.base = S.v
    S.wv = S.mv = None
    if os.path.exists("message.txt"): S.mv = IO.LoadDict("message").get("Version")
    IO.SaveDict("_in_DYSON_%d" % PID, "w", inf)
    sys.argv = ["main.py", "-f", "_in_DYSON_%d.txt" % PID]
    ns = {"__name__": "__main__", "__file__": os.path.join(WS, "dyson", "main.py"), "__builtins__": __builtins__}
    why = None
    S.active = True
    if ARGS.get("startup") and S.lines == 0: start_lines()
    try: exec(CODE, ns)
    except BaseException as e: why = e
    S.active = False
    sys.settrace(None)
    look()
    S.log.append("ended:%s" % type(why).__name__)
    if S.failed is None and not S.faults: bad("ended", "the program ends by itself: %r" % why)
    if S.failed in ("touch", "statis") and not S.faults: bad("ended", "the program ends because version %d fails: %r" % (S.v, why))
    if S.torn is not None and (S.wv == S.v) != (S.pv == S.v): bad("torn", "the signal came while the state was being saved; left are the weights of version %s and the parameters of %s" % (S.wv, S.pv))
    if S.restarts <= 0: done()
    S.restarts -= 1
    S.log.append("restart")
    run()
time.sleep = lambda t: None
logger.memory_usage = lambda: 0.0
for n in dir(plot):
    if n.startswith("Plot"): setattr(plot, n, lambda *a, **k: None)
def main():
    for f in names(): os.unlink(f)
    for f in os.listdir("."):
        if f.endswith("_statis.hkl"): os.unlink(f)
    S.announced, S.done, S.fails, S.lines, S.sharded = [], 0, 0, 0, False
    S.kills, S.oserrs, S.sigs, S.unknowns, S.restarts = KILLS, OSERRS, SIGS, UNKNOWN, argi("restarts", 1 if KILLS + OSERRS + SIGS + UNKNOWN else 0)
    if MODE == "mc":
        # an earlier run of the solver alone left its weights
        inf = infile()
        a = inf["Para"]["Dyson"]["Annealing"]
        s = fresh(a["DeltaField"], a["Interval"])
        n = version(s, 1, False)
        d = {"G": {"SmoothT": n.G}, "W": {"SmoothT": n.W, "DeltaT": n.w0}, "SigmaDeltaT": {"DeltaT": n.D.data}, "Sigma": {"SmoothT": n.S.data}, "Polar": {"SmoothT": n.P.data}}
        if GAMMA: d["GGGammaG"] = {"SmoothT": n.GGG}
        IO.SaveBigDict("weight", d)
        p = inf["Para"]; p["Version"] = 1
        IO.SaveDict("%d_DYSON_para" % PID, "w", {"Para": p})
    run()
pid = os.fork()
if pid == 0:
    try: main()
    except BaseException:
        import traceback; traceback.print_exc()
    os._exit(3)
_, st = os.waitpid(pid, 0)
if st:
    sys.stderr.write("the exploration ended with status %x\n" % st); os._exit(2)
STAT["states"], STAT["transitions"], STAT["runs"] = counted(STATES), counted(TRANS), counted(RUNS)
NV[0] = counted(VIOLS)
sample("%s depth=%d: every sequence of outcomes with %d kills, %d failing file operations, %d signals at every change of the disk%s" % (CONFIG, DEPTH, KILLS, OSERRS, SIGS, ", a signal at every line of version %d" % LINES if LINES else ""))
finish()
