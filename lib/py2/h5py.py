"""Stand-in for h5py: the calls hickle.py makes, kept in a plain file.  A file opened for writing is emptied at
once and filled in several pieces when it is closed, like the real library; a file that is not complete cannot
be opened for reading."""
import pickle, types, zlib, os
import numpy as _np
_open = open
MAGIC = b"\x89HDF-standin\n"
PIECE = [4096]
class Dataset(object):
    def __init__(self, data): self.data = data
    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None) and self.data.ndim == 0:
            raise ValueError("scalar dataset")
        v = self.data[k]
        return str(v) if isinstance(v, _np.str_) else v
    def __setitem__(self, k, v): self.data[k] = v
    @property
    def value(self): return self.data[()]
    @property
    def shape(self): return self.data.shape
    @property
    def dtype(self): return self.data.dtype
    def __len__(self): return len(self.data)
class Group(object):
    def __init__(self): self._items = {}
    def _put(self, name, x):
        if name in self._items:
            raise RuntimeError("Unable to create link (name already exists)")
        self._items[name] = x
        return x
    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, **k):
        if data is None:
            a = _np.zeros(shape, dtype=dtype)
        else:
            a = _np.array(data, dtype=dtype)
            if a.dtype.kind == "O":
                raise TypeError("Object dtype has no native HDF5 equivalent")
        if compression is not None and a.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        return self._put(name, Dataset(a))
    def create_group(self, name): return self._put(name, Group())
    def keys(self): return [str(k) for k in sorted(self._items)]
    def __iter__(self): return iter(self.keys())
    def __contains__(self, k): return k in self._items
    def __getitem__(self, k):
        if k not in self._items:
            raise KeyError("Unable to open object %r" % k)
        return self._items[k]
    def _dump(self): return {k: (v._dump() if isinstance(v, Group) else v.data) for k, v in self._items.items()}
    def _fill(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                g = Group(); g._fill(v); self._items[k] = g
            else:
                self._items[k] = Dataset(v)
class File(Group):
    def __init__(self, filename, mode="r"):
        Group.__init__(self)
        self.filename, self.mode, self._f = filename, mode, None
        if mode == "r":
            try:
                with _open(filename, "rb") as f:
                    b = f.read()
            except IOError as e:
                raise IOError("Unable to open file (%s)" % e)
            n = len(MAGIC)
            if b[:n] != MAGIC or len(b) < n + 12 or int(b[n:n + 12]) != len(b) - n - 12:
                raise IOError("Unable to open file (truncated file)")
            self._fill(pickle.loads(zlib.decompress(b[n + 12:])))
        elif mode == "w":
            self._f = _open(filename, "wb", 0)
        else:
            raise ValueError("mode")
    def close(self):
        if self._f is None:
            return
        b = zlib.compress(pickle.dumps(self._dump()), 1)
        b = MAGIC + b"%012d" % len(b) + b
        n = max(1, min(PIECE[0], len(b) // 4))
        try:
            for i in range(0, len(b), n):
                m = memoryview(b)[i:i + n]
                while len(m):
                    m = m[self._f.write(m):]
        finally:
            f, self._f = self._f, None
            f.close()
    def __repr__(self): return "<file %s>" % self.filename
def special_dtype(vlen=None): return "U64"
_hl = types.SimpleNamespace(files=types.SimpleNamespace(File=File), group=types.SimpleNamespace(Group=Group))
