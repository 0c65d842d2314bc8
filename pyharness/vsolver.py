"""The translated solver modules of the repository, with stand-ins for what is not installed (matplotlib)."""
from vpy import *
import types
DYSON = ["weight", "logger", "color", "calculator", "collect", "parameter", "model", "lattice", "measure", "main", "plot", "gamma3_calc", "r_index", "solver/lu_slow"]
class _Anything:
    """accepts every use"""
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return self
    def __call__(self, *a, **k): return self
    def __iter__(self): return iter(())
    def __getitem__(self, k): return self
    def __setitem__(self, k, v): pass
def load(names, extra=()):
    """translated modules; workspace is WORK/py"""
    d = install(["IO.py", "hickle.py", "basis.py"] + ["dyson/%s.py" % n for n in DYSON if os.path.exists(os.path.join(REPO, "dyson", n + ".py"))] + list(extra))
    for p in ("dyson/__init__.py", "dyson/solver/__init__.py"):
        open(os.path.join(d, p), "a").close()
    sys.path.insert(0, os.path.join(d, "dyson"))
    if ARGS.get("solver") == "fast": compiled(os.path.join(d, "dyson", "solver"))
    fake = _Anything()
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.cm", "mpl_toolkits", "mpl_toolkits.mplot3d", "pylab"):
        m = types.ModuleType(n)
        m.__getattr__ = lambda k, f=fake: (_ for _ in ()).throw(AttributeError(k)) if k.startswith("__") else f
        sys.modules[n] = m
    sys.modules["matplotlib"].pyplot = fake
    sys.modules["matplotlib.pyplot"] = fake
    import numpy
    for n, t in (("complex", complex), ("float", float), ("int", int), ("bool", bool)): # names numpy had at the time
        if n not in numpy.__dict__: setattr(numpy, n, t)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import importlib
    return [importlib.import_module(n) for n in names]
def compiled(d):
    """the compiled linear solver, from its Cython source; where it does not compile the solver falls back on the other"""
    import subprocess, sysconfig, numpy, re
    t = open(os.path.join(REPO, "dyson", "solver", "lu_fast.pyx")).read()
    t = re.sub(r"order\s*=\s*\[\s*(['\"][A-Z]['\"])\s*\]", r"order=\1", t) # as numpy and Cython of the time read them
    t = re.sub(r"\bis not 0\b", "!= 0", re.sub(r"\bis 0\b", "== 0", t))
    b = os.path.join(WORK, "lu_fast")
    os.makedirs(b, exist_ok=True)
    open(os.path.join(b, "lu_fast.pyx"), "w").write(t)
    lib = [x for x in ("/usr/lib/x86_64-linux-gnu/lapack", "/usr/lib64/lapack") if os.path.isdir(x)]
    try:
        with open(os.path.join(b, "log"), "w") as log:
            subprocess.check_call(["cython", "-2", "lu_fast.pyx"], cwd=b, stdout=log, stderr=log)
            subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", sysconfig.get_paths()["include"], "-I", numpy.get_include(), "lu_fast.c", "-o", os.path.join(d, "lu_fast.so")] + ["-L" + x for x in lib] + ["-llapack"], cwd=b, stdout=log, stderr=log)
    except (OSError, subprocess.CalledProcessError) as e:
        note("the compiled linear solver could not be built (%s); the program then uses the other" % e)
