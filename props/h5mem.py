"""
A solution file.

Symbolic runs: HDF5 storage is modelled in memory (groups, datasets,
attributes with h5py's conversions); the real h5preserve code, dumpers and
loaders run on top of it.  Concrete replays: real h5py (core driver, nothing
on disk).
"""
import contextlib
import pathlib
import tempfile

import h5py
import h5preserve
import numpy as np

from symx.core import Sym, SymBool


def stored(v):
    """What h5py gives back for a dataset's content"""
    if isinstance(v, str):
        return v.encode("utf8")
    if isinstance(v, (Sym, SymBool, bytes)):
        return v
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for i in v.flat:
                if not isinstance(i, (Sym, int, float, np.number)):
                    raise TypeError("Object dtype has no native HDF5 "
                                    "equivalent")
        elif v.dtype.kind == "U":
            raise TypeError("No conversion path for dtype " + str(v.dtype))
        return v.copy()
    if isinstance(v, (bool, np.bool_)):
        return np.bool_(v)
    if isinstance(v, (int, np.integer)):
        return np.int64(v)
    if isinstance(v, (float, np.floating)):
        return np.float64(v)
    if isinstance(v, (list, tuple)):
        return stored(np.asarray(v))
    raise TypeError(f"cannot be stored: {type(v)}")


class MemAttrs(dict):
    def __setitem__(self, k, v):
        v = stored(v)
        dict.__setitem__(
            self, k, v.decode("utf8") if isinstance(v, bytes) else v
        )

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


class MemDataset:
    fillvalue = 0

    def __init__(self, data=None, dtype=None, **kw):
        assert not kw, kw
        self.attrs = MemAttrs()
        self.empty = data is None
        self.value = None if self.empty else stored(data)
        self.dtype = dtype
        self.shape = getattr(self.value, "shape", ())

    def __getitem__(self, key):
        assert key == ()
        if isinstance(self.value, np.ndarray):
            return self.value.copy()
        return self.value


class MemGroup:
    def __init__(self):
        self.attrs = MemAttrs()
        self._items = {}

    def _add(self, key, obj):
        if "/" in key:
            raise ValueError("nested path " + key)
        if key in self._items:
            raise ValueError(f"name already exists: {key}")
        self._items[key] = obj
        return obj

    def create_group(self, key):
        return self._add(key, MemGroup())

    def create_dataset(self, key, **kw):
        return self._add(key, MemDataset(**kw))

    def __setitem__(self, key, val):
        self._add(key, MemDataset(data=val))

    def __getitem__(self, key):
        if key == "/":
            return self
        return self._items[key]

    def __contains__(self, key):
        return key in self._items

    def __iter__(self):
        return iter(sorted(self._items))

    def __len__(self):
        return len(self._items)

    def items(self):
        return [(k, self._items[k]) for k in self]

    def close(self):
        pass


class H5:
    Group = MemGroup
    Dataset = MemDataset
    SoftLink = h5py.SoftLink
    ExternalLink = h5py.ExternalLink
    File = None
    h5f = h5py.h5f
    Empty = h5py.Empty


def external(obj):
    """A symbolic real stands for a numpy number"""
    return isinstance(obj, (np.ndarray, np.number)) or (
        isinstance(obj, Sym) and not obj.e.is_int()
    )


@contextlib.contextmanager
def storage(env):
    """Yields a function: open a new empty file"""
    if not env.sym:
        files = []

        def new():
            f = h5py.File(f"mem{len(files)}", "w", driver="core",
                          backing_store=False)
            files.append(f)
            return f
        try:
            yield new
        finally:
            for f in files:
                f.close()
        return
    real_attr = h5preserve._is_attr_writeable
    real_dump = h5preserve.RegistryContainer._obj_to_h5preserve

    def obj_to(self, obj):
        if isinstance(obj, Sym):      # an integer
            out = h5preserve.DatasetContainer(data=obj)
            out._namespace = "Python: builtin numbers"
            out._label, out._version = "int", None
            return out
        return real_dump(self, obj)

    with env.patch(
        h5preserve, h5py=H5, _is_externally_dumped=external,
        _is_attr_writeable=lambda o: isinstance(
            o, (Sym, SymBool)) or real_attr(o),
        _is_h5py_writable=external,
    ), env.patch(h5preserve.RegistryContainer, _obj_to_h5preserve=obj_to):
        yield MemGroup


@contextlib.contextmanager
def container(handle, registries):
    """h5preserve's view of an open file"""
    f = object.__new__(h5preserve.H5PreserveFile)
    f._h5py_file = handle
    h5preserve.H5PreserveGroup.__init__(f, handle["/"], registries)
    yield f


class Handle:
    """An open file of the model"""
    def __init__(self, root, mode, closed):
        self.root, self.mode, self.closed = root, mode, closed

    def __getitem__(self, key):
        return self.root[key]

    def close(self):
        self.closed()


class Files:
    """Solution files in a scratch folder (model: kept in memory)"""
    def __init__(self, folder):
        self.folder = pathlib.Path(folder)
        self.roots = {}
        self.opened = 0

    def File(self, name, mode="r", **kw):
        p = pathlib.Path(name)
        assert self.folder in p.parents, p
        p = str(p)
        if mode in ("x", "w-"):
            if p in self.roots:
                raise FileExistsError(p)
            self.roots[p] = MemGroup()
        elif mode == "w":
            self.roots[p] = MemGroup()
        elif p not in self.roots:
            if mode != "a":
                raise FileNotFoundError(p)
            self.roots[p] = MemGroup()
        self.opened += 1

        def closed():
            self.opened -= 1
        return Handle(self.roots[p], mode, closed)

    def names(self):
        return sorted(str(pathlib.Path(n).relative_to(self.folder))
                      for n in self.roots)


class RealFiles(Files):
    def names(self):
        return sorted(str(p.relative_to(self.folder))
                      for p in self.folder.rglob("*.hdf5"))


@contextlib.contextmanager
def files(env):
    """Yields Files; h5preserve.open works on them"""
    with tempfile.TemporaryDirectory() as folder:
        folder = str(pathlib.Path(folder).resolve())
        with storage(env):
            if not env.sym:
                yield RealFiles(folder)
                return
            fs = Files(folder)
            with env.patch(h5preserve.h5py, File=fs.File):
                yield fs
