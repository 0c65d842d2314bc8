"""Output protocol and helpers of the Python-side harnesses."""
import os, sys, io
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK") or os.getcwd()
sys.path.insert(0, os.path.join(VERIF, "lib", "py2"))
_out = os.fdopen(os.dup(1), "w", buffering=1)
if not os.environ.get("VERIF_STDERR"):
    _n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(_n, 1)
sys.dont_write_bytecode = True
ARGS = dict(a.split("=", 1) for a in sys.argv[1:] if "=" in a)
def argi(k, d): return int(ARGS.get(k, d))
def line(*f):
    _out.write("\t".join(str(x).replace("\n", "|").replace("\t", " ") for x in f) + "\n")
    _out.flush()
STAT = {"states": 0, "transitions": 0, "runs": 0}
_seen, NV = {}, [0]
def viol(prop, tag, text):
    NV[0] += 1
    _seen[tag] = _seen.get(tag, 0) + 1
    if _seen[tag] <= 2: line("VIOL", prop, tag, text)
def sample(t): line("SAMPLE", t)
def note(t): line("NOTE", t)
def finish(complete=1):
    for k, v in STAT.items(): line("STAT", k, v)
    line("STAT", "complete", complete)
    line("END", 1 if NV[0] else 0)
    _out.flush()
    os._exit(1 if NV[0] else 0)
def install(files, sub="py"):
    """translated modules of /repo in WORK/sub, put on the import path"""
    import translate
    d = os.path.join(WORK, sub)
    translate.install(d, files, REPO)
    sys.path.insert(0, d)
    return d
def preload(source):
    """restarts this program with a shared library made from a file of the harness folder"""
    import subprocess
    lib = os.path.join(WORK, source + ".so")
    if lib in os.environ.get("LD_PRELOAD", ""): return
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", lib, os.path.join(VERIF, "harness", source), "-ldl"])
    os.environ["LD_PRELOAD"] = lib
    os.dup2(_out.fileno(), 1)
    os.execv(sys.executable, [sys.executable] + sys.argv)
