"""What Python-2 code of /repo needs when it runs under Python 3 (see translate.py)."""
import builtins as _b, functools as _f, io as _io, math as _math
__all__ = ["py2_div", "py2_list", "py2_has", "py2_floordiv_assign", "xrange", "unicode", "long", "basestring", "raw_input", "reduce", "file", "range", "map", "filter", "zip", "py2_print"]
xrange = _b.range
unicode = type("unicode", (str,), {})
long = type("long", (int,), {})
basestring = str
raw_input = _b.input
reduce = _f.reduce
file = _io.TextIOWrapper
def range(*a): return list(_b.range(*a))
def map(*a): return list(_b.map(*a))
def filter(f, x):
    r = list(_b.filter(f, x))
    return tuple(r) if isinstance(x, tuple) else "".join(r) if isinstance(x, str) else r
def zip(*a): return list(_b.zip(*a))
_views = tuple(type(x) for x in ({}.keys(), {}.values(), {}.items()))
def py2_list(x): return list(x) if isinstance(x, _views) else x
def py2_has(d, k):
    f = getattr(d, "has_key", None)
    return f(k) if f else k in d
def _isint(x):
    if isinstance(x, int): return True
    k = getattr(getattr(x, "dtype", None), "kind", "")
    return k in "iub" and k != ""
def py2_div(a, b):
    if _isint(a) and _isint(b): return a // b
    return a / b
def py2_floordiv_assign(a, b):
    if _isint(a) and _isint(b): a //= b
    else: a /= b
    return a
PRINTED = []
def py2_print(*a, **k): pass
