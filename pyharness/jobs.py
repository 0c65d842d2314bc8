"""C27: the real job manager as the main program, with the real job classes, over fake processes: every completion order,
the request to stop at every line and every call, jobs that end between two looks at them, and every set of files found
at a restart.  A few runs with real processes check the stand-ins."""
from vpy import *
import types, itertools, shlex, shutil, errno, copy, random
P = "C27"
WS = os.path.join(WORK, "run"); os.makedirs(WS)
PYD = install(["IO.py", "hickle.py", "job_class.py", "job_manager.py"])
import logging; logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter("ignore")
import time, signal, subprocess, traceback
os.chdir(WS)
import IO, job_class
# IO imports time before the stand-ins below are put in place; nothing of it is used by the manager
CODE = compile(open(os.path.join(PYD, "job_manager.py")).read(), os.path.join(PYD, "job_manager.py"), "exec")
real_system, real_sleep = os.system, time.sleep
class Killed(BaseException): pass
class Stuck(BaseException): pass
# ---- choices: depth first over all answers
class Chooser:
    def __init__(self): self.stack, self.pos = [], 0
    def __call__(self, n):
        if n <= 1: return 0
        if self.pos == len(self.stack): self.stack.append([0, n])
        c, m = self.stack[self.pos]
        if m != n: raise RuntimeError("the run is not a function of the choices: %d answers instead of %d" % (n, m))
        self.pos += 1
        STAT["transitions"] += 1
        return c
    def next(self):
        del self.stack[self.pos:]
        self.pos = 0
        while self.stack and self.stack[-1][0] + 1 >= self.stack[-1][1]: self.stack.pop()
        if not self.stack: return False
        self.stack[-1][0] += 1
        return True
choose = Chooser()
class World: pass
W = World()
def log(t): W.log.append(t)
def bad(tag, text): viol(P, tag, "%s; history: %s: %s" % (W.config, " ".join(W.log[-60:]), text))
class Proc:
    """one process as the manager sees it (Python 2: terminating a process already waited for fails)"""
    count = 0
    def __init__(self, args, shell=False, **k):
        if W.dead: raise Killed()
        tick("before start")
        W.procs.append(self)
        self.pid, self.running, self.returncode, self.asked = 1000 + len(W.procs), True, None, False
        self.words = shlex.split(args) if isinstance(args, str) else list(args)
        if self.words[:1] == ["exec"]: self.words = self.words[1:]
        if self.words[:1] == ["qsub"]: self.running, self.returncode = False, 0; W.procs.remove(self); queue_file(self.words[1]); return
        self.late = W.stops > 0
        self.job = started(self.words)
        log("start:%s" % (self.job,))
        n = [p for p in W.procs if p.running and p.job and p.job[0] == "MC"]
        if len(n) > W.cpu: bad("limit", "%d jobs that keep a CPU busy run at the same time, the limit is %d" % (len(n), W.cpu))
        tick("after start")
    def end(self, why):
        self.running = False
        log("end:%s%s" % (self.job, why))
    def poll(self):
        if W.dead: raise Killed()
        if self.running and W.early and choose(2):
            W.early -= 1
            self.end("(between)")
        tick("poll")
        if not self.running: self.returncode = 0
        tick("polled")
        return self.returncode
    def terminate(self):
        if W.dead: raise Killed()
        tick("terminate")
        if self.returncode is not None: raise OSError(errno.ESRCH, "No such process")
        self.asked = True
        log("terminate:%s" % (self.job,))
        tick("terminated")
    def send_signal(self, s): self.terminate()
    def kill(self): self.terminate()
    def wait(self, timeout=None):
        if W.dead: raise Killed()
        tick("wait")
        if self.running and not self.asked: bad("waits", "the manager waits for %s, which it never asked to end" % (self.job,)); raise Stuck()
        if self.running: self.end("(asked)")
        tick("waited")
        self.returncode = 0
        return 0
    def communicate(self, *a): self.wait(); return None, None
def tick(where):
    """the request to stop may come here"""
    if W.dead or not W.stopbudget: return
    if choose(2):
        W.stopbudget -= 1
        W.stops += 1
        h = W.handlers.get(W.signum)
        log("STOP(%s)" % where)
        if callable(h): h(W.signum, None)
        elif h == signal.SIG_IGN: pass
        else:
            left = [p.job for p in W.procs if p.running]
            if left: bad("orphans", "the request to stop ends the manager and leaves %s running" % left)
            W.dead = True
            raise Killed()
def fake_signal(n, h):
    old = W.handlers.get(n, signal.SIG_DFL)
    W.handlers[n] = h
    return old
def fake_system(cmd):
    if W.dead: raise Killed()
    tick("system")
    w = shlex.split(cmd)
    if w[0] == "mkdir":
        for d in w[1:]:
            if not d.startswith("-"): os.makedirs(d, exist_ok=True)
    elif w[0] == "rm":
        for f in w[1:]:
            if not f.startswith("-") and os.path.realpath(f).startswith(os.path.realpath(WS)): os.unlink(f)
    elif w[0] == "qsub": queue_file(w[1])
    else: return real_system(cmd)
    return 0
def queue_file(f):
    text = open(f).read().split("\n")
    log("queue:%s" % os.path.basename(f))
    if not text[0].startswith("#!"): bad("script", "the script handed to the cluster starts with '%s'" % text[0])
    cds = [l for l in text if l.startswith("cd ")]
    if not cds or os.path.realpath(cds[-1][3:].strip()) != os.path.realpath(WS): bad("script", "the script handed to the cluster does not enter the working directory: %r" % text)
    runs = [l for l in text if " -f " in l]
    if len(runs) != 1: bad("script", "the script handed to the cluster runs %d programs: %r" % (len(runs), text)); return
    W.queued.append(started(shlex.split(runs[0])))
def started(words):
    """checks what one started program was given; returns (type, pid)"""
    try: infile = words[words.index("-f") + 1]
    except Exception: bad("command", "the command %r names no input file" % words); return None
    try:
        d = eval(open(infile if infile.endswith(".txt") else infile + ".txt").read(), {})
        job, para = d["Job"], d["Para"]
        key = (job["Type"], job["PID"])
    except Exception as e: bad("infile", "the input file of %r can not be read when the program starts: %r" % (words, e)); return None
    prog = words[:words.index("-f")]
    want = [os.path.join(WS, "simulator.exe")] if key[0] == "MC" else ["python", os.path.join(WS, "main.py")]
    if [os.path.realpath(x) if "/" in x else x for x in prog] != [os.path.realpath(x) if "/" in x else x for x in want]: bad("command", "%s is started as %r" % (key, prog))
    if not (key[0] in os.path.basename(infile) and str(key[1]) in os.path.basename(infile)): bad("infile", "%s is given the input file %s" % (key, infile))
    if infile in W.infiles: bad("infile", "the input file %s is given to two jobs" % infile)
    W.infiles.add(infile)
    if key in W.started: bad("twice", "%s is started twice" % (key,))
    elif key not in W.want: bad("unknown", "%s is started, requested were %s" % (key, W.want))
    W.started.append(key)
    base = copy.deepcopy(W.para[key[0]])
    if key[0] == "MC" and "Markov" in para:
        m = para["Markov"]
        seed = m.pop("Seed", None)
        if not isinstance(seed, int) or seed < 0 or seed >= 2 ** 31: bad("seed", "%s gets the seed %r" % (key, seed))
        elif seed in W.seeds: bad("seed", "%s gets the seed %d of another job" % (key, seed))
        W.seeds.add(seed)
        t, t0 = m.pop("Timer", {}), base["Markov"].pop("Timer")
        if sorted(t) != sorted(t0) or any(not int(t0[k] * .8) <= t[k] <= t0[k] * 1.2 for k in t0): bad("timer", "%s gets the timers %s, configured are %s" % (key, t, t0))
        if job.get("DoesLoad") is not W.load: bad("load", "%s: DoesLoad is %r, files of earlier jobs present: %s" % (key, job.get("DoesLoad"), W.load))
    if para != base: bad("para", "%s is given the parameters %s, configured are %s" % (key, para, base))
    for k, v in W.job[key[0]].items():
        if job.get(k) != v: bad("para", "%s is given %s=%r, configured is %r" % (key, k, job.get(k), v))
    names = (job.get("WeightFile"), job.get("MessageFile"), job.get("OutputFile"))
    if W.names is None: W.names = names
    if names != W.names or None in names: bad("para", "%s uses the files %s, the others %s" % (key, names, W.names))
    return key
def fake_sleep(t):
    if W.dead: raise Killed()
    tick("before sleep")
    run = [p for p in W.procs if p.running]
    if W.stops:
        left = [p.job for p in run if not p.asked]
        if left: bad("survivor", "after the request to stop %s is neither ended nor asked to end" % left); raise Stuck()
    busy = [p for p in run if p.job and p.job[0] == "MC"]
    todo = [k for k in W.want if k not in W.started]
    if todo and not W.stops and len(busy) < W.cpu: W.lazy += 1
    else: W.lazy = 0
    if W.lazy > 4: bad("idle", "%s wait while only %d of %d CPUs are busy" % (todo, len(busy), W.cpu)); raise Stuck()
    if not run:
        W.idle += 1
        if W.idle > len(W.want) + 4: bad("endless", "all started jobs have ended, the manager goes on"); raise Stuck()
        log("sleep")
        return
    W.idle = 0
    subsets = [tuple(run)] if W.stops or W.sync else [s for r in range(1, len(run) + 1) for s in itertools.combinations(run, r)]
    c = choose(len(subsets) + (1 if W.pause else 0))
    if c == len(subsets): W.pause -= 1; log("sleep"); return
    log("sleep")
    for p in subsets[c]: p.end("")
    tick("after sleep")
FILE = CODE.co_filename
def tracer(frame, event, arg):
    if frame.f_code.co_filename != FILE: return None
    return local
def local(frame, event, arg):
    if event == "line" and not W.dead: tick("line %d" % frame.f_lineno)
    return local
def fresh(cfg):
    W.config = "jobs MC=%(mc)d DYSON=%(dyson)d CPU=%(cpu)d cluster=%(cluster)s auto=%(auto)s files=%(files)s" % cfg
    W.procs, W.log, W.started, W.queued, W.infiles, W.seeds, W.names, W.handlers = [], [], [], [], set(), set(), None, {}
    W.dead, W.stops, W.lazy, W.idle = False, 0, 0, 0
    W.stopbudget, W.early, W.pause, W.cpu = cfg.get("stops", 0), cfg.get("early", 0), cfg.get("pause", 1), cfg["cpu"]
    W.sync = cfg.get("sync", 0)
    W.signum = cfg.get("signum", signal.SIGTERM)
    for f in os.listdir(WS):
        p = os.path.join(WS, f)
        if os.path.isdir(p):
            for g in os.listdir(p): os.unlink(os.path.join(p, g))
            if not cfg.get("keepdirs"): os.rmdir(p)
        else: os.unlink(p)
    for f in ["simulator.exe", "main.py"] + list(cfg["files"]): open(os.path.join(WS, f), "w").close()
    com = {"Tau": {"Beta": 0.5, "MaxTauBin": 16}, "Lattice": {"L": [4, 4]}}
    W.para = {"MC": dict(com, Markov={"Order": 2, "OrderReWeight": [1.0, 0.3, 1.0], "Sweep": 10, "Timer": {"PrinterTimer": 30, "DiskWriterTimer": 300, "MessageTimer": 7, "ReweightTimer": 1000}}),
              "DYSON": dict(com, Dyson={"SleepTime": 60, "OrderAccepted": {"Sigma": 1, "Polar": 1}})}
    W.job = {"MC": {"Sample": 1000}, "DYSON": {"DysonOnly": cfg["mc"] == 0, "SumRule": False}}
    ids = sorted({int(f.split("_")[0]) for f in cfg["files"] if "statis" in f and f.split("_")[0].isdigit()})
    W.load = bool(ids)
    W.want = [("MC", i) for i in (ids[:cfg["mc"]] if ids else range(cfg["mc"]))] + [("DYSON", 0)] * cfg["dyson"]
    ctl = lambda e, n: {"__Execute": e, "__Duplicate": n, "__IsCluster": cfg["cluster"], "__AutoRun": cfg["auto"]}
    inlist = types.ModuleType("inlist")
    mc = dict(copy.deepcopy(W.para["MC"]), Control=ctl("./simulator.exe", cfg["mc"]), Job=dict(W.job["MC"]))
    dy = dict(copy.deepcopy(W.para["DYSON"]), Control=dict(ctl(["python", "./main.py"], cfg["dyson"]), __PBSCommand="#PBS -l mem=5gb"), Job=dict(W.job["DYSON"]))
    inlist.TO_DO = [job_class.JobMonteCarlo(mc), job_class.JobDyson(dy)]
    if cfg.get("swap"): inlist.TO_DO.reverse()
    inlist.CPU, inlist.SLEEP = cfg["cpu"], 1
    sys.modules["inlist"] = inlist
def one(cfg):
    try: fresh(cfg)
    except BaseException as e: W.log = []; bad("queue", "the jobs can not be made: %r" % e); return
    os.system, time.sleep, signal.signal, subprocess.Popen = fake_system, fake_sleep, fake_signal, Proc
    random.seed(len(choose.stack))
    if cfg.get("lines"): sys.settrace(tracer)
    end = None
    try: exec(CODE, {"__name__": "__main__", "__file__": FILE, "__builtins__": __builtins__})
    except SystemExit: end = "exit"
    except Stuck: end = "stuck"
    except Killed: end = "killed"
    except BaseException as e: end = "error"; bad("error", "the manager ends with %r" % e)
    finally:
        sys.settrace(None)
        os.system, time.sleep, signal.signal, subprocess.Popen = real_system, real_sleep, REAL_SIGNAL, REAL_POPEN
    STAT["runs"] += 1
    if W.dead or end in ("stuck", "error"): return
    left = [p.job for p in W.procs if p.running and not p.asked]
    if left: bad("orphans", "the manager ends and %s still runs" % left)
    missing = [k for k in W.want if k not in W.started]
    if cfg["auto"] and not W.stops and missing: bad("missing", "the manager ends and %s were never started" % missing)
    if not cfg["auto"]:
        if W.started: bad("auto", "%s were started although the user wants to start them" % W.started)
        for t, i in W.want:
            f = [x for x in os.listdir("infile") if t in x and x.endswith("_%d.txt" % i)] if os.path.isdir("infile") else []
            if not f and W.stops: continue
            if len(f) != 1: bad("infile", "%s, which the user starts, has no input file" % ((t, i),))
            else:
                d = eval(open(os.path.join("infile", f[0])).read(), {})
                if d["Job"].get("PID") != i or d["Job"].get("Type") != t: bad("infile", "the input file of %s is one of %s %s" % ((t, i), d["Job"].get("Type"), d["Job"].get("PID")))
    if cfg["cluster"] and W.procs: bad("cluster", "%s run here instead of on the cluster" % [p.job for p in W.procs])
    if len([p for p in W.procs if p.late]) > W.stops: bad("afterstop", "%d jobs were started after the request to stop" % len([p for p in W.procs if p.late]))
    W.final = (tuple(W.log))
REAL_SIGNAL, REAL_POPEN = signal.signal, subprocess.Popen
def explore(**cfg):
    c = dict(mc=2, dyson=1, cpu=1, cluster=False, auto=True, files=())
    c.update(cfg)
    choose.stack, choose.pos = [], 0
    seen = set()
    while True:
        W.final = None
        one(c)
        if W.final: seen.add(W.final)
        if NV[0] > 20: break
        if not choose.next(): break
    STAT["states"] += len(seen)
    if W.final: sample("%s: %s" % (W.config, " ".join(W.final)[:400]))
def smoke():
    """the same manager over real processes"""
    d = os.path.join(WORK, "real"); os.makedirs(d)
    for f in os.listdir(PYD):
        if f.endswith(".py"): shutil.copy(os.path.join(PYD, f), d)
    with open(d + "/inlist.py", "w") as f:
        f.write("import job_class as job\nCPU, SLEEP = 2, 0.05\nK={'__IsCluster':False,'__AutoRun':True}\nTau={'Beta':1}\n"
                "MC={'Control':dict(K,__Execute='./worker.sh',__Duplicate=5),'Job':{'Sample':1},'Tau':Tau,'Markov':{'Order':1,'OrderReWeight':[1,1],'Timer':{'a':30}}}\n"
                "DY={'Control':dict(K,__Execute=['sh','./worker.sh'],__Duplicate=1),'Job':{'DysonOnly':False},'Tau':Tau,'Dyson':{}}\n"
                "TO_DO=[job.JobMonteCarlo(MC), job.JobDyson(DY)]\n")
    with open(d + "/worker.sh", "w") as f:
        f.write("#!/bin/sh\nn=$(basename $2)\necho start $n >>log\ntrap 'echo asked $n >>log; echo end $n >>log; exit 0' TERM\ni=0\nwhile [ $i -lt $(cat length) ]; do sleep 0.1; i=$((i+1)); done\necho end $n >>log\n")
    os.chmod(d + "/worker.sh", 0o755)
    for length, stop in ((3, False), (600, True)):
        for f in ("log",):
            if os.path.exists(d + "/" + f): os.unlink(d + "/" + f)
        open(d + "/length", "w").write(str(length))
        p = subprocess.Popen([sys.executable, "job_manager.py"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        W.config, W.log = "real processes, stop=%s" % stop, []
        try:
            if stop:
                t = time.time()
                while time.time() - t < 60 and len([l for l in open(d + "/log") if l.startswith("start")] if os.path.exists(d + "/log") else []) < 3: time.sleep(.1)
                p.send_signal(signal.SIGTERM)
            p.wait(120)
        except subprocess.TimeoutExpired: bad("real", "the manager does not end")
        finally:
            try: os.killpg(p.pid, 9)
            except OSError: pass
        l = [x.split() for x in open(d + "/log")] if os.path.exists(d + "/log") else []
        s, e = [x[1] for x in l if x[0] == "start"], [x[1] for x in l if x[0] == "end"]
        STAT["runs"] += 1
        if sorted(s) != sorted(e) or len(set(s)) != len(s): bad("real", "started %s, ended %s" % (s, e))
        n = 0
        for x in l:
            if "MC" in x[1]: n += {"start": 1, "end": -1, "asked": 0}[x[0]]
            if n > 2: bad("real", "more than 2 jobs at once: %s" % l); break
        if not stop and len(s) != 6: bad("real", "started %s" % s)
        if stop and (len(s) > 3 or len([x for x in l if x[0] == "asked"]) != len(s)): bad("real", "after the request to stop: %s" % l)
part = ARGS.get("part", "orders")
if part == "orders":
    for mc in range(argi("mc", 5)):
        for dyson in (0, 1):
            for cpu in ([argi("cpu", 0)] if argi("cpu", 0) else [1, 2, 3]):
                for swap in (0, 1): explore(mc=mc, dyson=dyson, cpu=cpu, swap=swap, pause=argi("pause", 2), early=argi("early", 0), keepdirs=swap)
elif part == "big": explore(mc=argi("mc", 6), dyson=argi("dyson", 0), cpu=argi("cpu", 3), pause=argi("pause", 1), early=argi("early", 0))
elif part == "stop": explore(mc=argi("mc", 3), dyson=argi("dyson", 1), cpu=argi("cpu", 2), stops=argi("stops", 1), early=argi("early", 0), pause=argi("pause", 0), lines=argi("lines", 1), signum=[signal.SIGTERM, signal.SIGINT][argi("int", 0)])
elif part == "files":
    sets = [s for r in range(5) for s in itertools.combinations([0, 1, 2, 3, 5, 11], r)]
    junk = [(), ("statis_total.hkl",), ("_1_MC_statis.hkl", "_7_MC_statis.hkl"), ("1_MC_para.txt", "2_MC_config.txt", "Weight.hkl")]
    for s in sets:
        for j in junk:
            for mc in (0, 1, 2, 4): explore(mc=mc, dyson=1, cpu=4, pause=0, sync=1, files=tuple("%d_MC_statis.hkl" % i for i in s) + j)
elif part == "ids":
    # identifiers of two and three digits, some of which end alike
    for s, mc, cpu in (((), 110, 200), ((), 12, 3), (tuple(range(120)), 110, 40), ((2, 12, 112, 1012), 4, 2), (tuple(range(5, 225, 10)), 20, 20)):
        explore(mc=mc, dyson=1, cpu=cpu, pause=0, sync=1, files=tuple("%d_MC_statis.hkl" % i for i in s))
elif part == "other":
    for mc in range(4):
        for dyson in (0, 1):
            for cluster, auto in ((True, True), (True, False), (False, False)):
                for files in ((), ("3_MC_statis.hkl", "7_MC_statis.hkl")): explore(mc=mc, dyson=dyson, cluster=cluster, auto=auto, files=files, stops=argi("stops", 0), lines=1)
    smoke()
finish()
