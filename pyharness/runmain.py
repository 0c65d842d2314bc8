"""runmain.py PROGRAM ARGS...   runs a translated solver program as __main__, with stand-ins for matplotlib"""
import sys, types, runpy, os
class _A:
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return self
    def __call__(self, *a, **k): return self
    def __iter__(self): return iter(())
    def __getitem__(self, k): return self
f = _A()
for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.cm", "mpl_toolkits", "mpl_toolkits.mplot3d", "pylab"):
    m = types.ModuleType(n)
    m.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) if k.startswith("__") else f
    sys.modules[n] = m
sys.modules["matplotlib"].pyplot = f
sys.modules["matplotlib.pyplot"] = f
sys.argv = sys.argv[1:]
sys.path.insert(0, os.path.dirname(sys.argv[0]))
runpy.run_path(sys.argv[0], run_name="__main__")
