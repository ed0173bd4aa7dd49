"""In-memory files for the repository's input and output code: h5py, numpy and text files.

Used in place of the real file layer while data loaders run on symbolic tables (and, with
numbers, in the replays): nothing touches the disk."""
import contextlib
import io
import os
import types

import numpy as np


class Dataset:
    def __init__(self, data, attrs=None):
        self.data = data
        self.attrs = dict(attrs or {})

    shape = property(lambda s: np.shape(s.data))
    size = property(lambda s: int(np.prod(np.shape(s.data))))
    ndim = property(lambda s: np.ndim(s.data))
    dtype = property(lambda s: getattr(s.data, "dtype", None))

    def __len__(self):
        return np.shape(self.data)[0]

    def __getitem__(self, k):
        r = self.data[k]
        return r.copy() if hasattr(r, "copy") else r

    def __setitem__(self, k, v):
        self.data[k] = v

    def __iter__(self):
        return iter(self.data)

    def __array__(self, *a, **k):
        return np.asarray(self.data)


class Group(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attrs = {}

    def __getitem__(self, k):
        o = self
        for p in str(k).strip("/").split("/"):
            o = dict.__getitem__(o, p)
        return o

    def __setitem__(self, k, v):
        *path, last = str(k).strip("/").split("/")
        o = self
        for p in path:
            o = o.setdefault(p, Group())
        dict.__setitem__(o, last, v if isinstance(v, (Dataset, Group)) else Dataset(v))

    def create_dataset(self, name, data=None, **k):
        self[name] = data
        return self[name]

    def create_group(self, name):
        self[name] = Group()
        return self[name]

    require_group = create_group


class FS:
    """files by path; h5 files are Groups, .npy files arrays, text files strings"""

    def __init__(self):
        self.files = {}
        self.removed = []
        self.bad = []

    def key(self, fn):
        return os.path.normpath(str(fn))

    # h5py
    def h5(self):
        fs = self

        class File:
            def __init__(self, fn, mode="r", *a, **k):
                fn = fs.key(fn)
                if mode in ("w", "w-", "x"):
                    fs.files[fn] = Group()
                elif mode == "a":
                    fs.files.setdefault(fn, Group())
                elif not isinstance(fs.files.get(fn), Group):
                    raise FileNotFoundError(fn)
                self.g = fs.files[fn]

            def __enter__(self):
                return self.g

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def __getattr__(self, n):
                return getattr(self.g, n)

            def __getitem__(self, k):
                return self.g[k]

            def __setitem__(self, k, v):
                self.g[k] = v

            def __contains__(self, k):
                return k in self.g

        return types.SimpleNamespace(File=File, Dataset=Dataset, Group=Group)

    # numpy files
    def load(self, fn, *a, **k):
        fn = self.key(fn)
        if fn not in self.files:
            raise FileNotFoundError(fn)
        return self.files[fn]

    def save(self, fn, arr, *a, **k):
        fn = self.key(fn)
        self.files[fn if fn.endswith(".npy") else fn + ".npy"] = arr

    # text
    def open(self, fn, mode="r", *a, **k):
        fn = self.key(fn)
        fs = self
        if "r" in mode and fn not in self.files:
            raise FileNotFoundError(fn)

        class T(io.StringIO):
            def close(self):
                if not self.closed and "r" not in mode:
                    fs.files[fn] = self.getvalue()
                super().close()

            def __exit__(self, *a):
                self.close()

        t = T("" if "w" in mode else self.files.get(fn, ""))
        if "a" in mode:
            t.seek(0, 2)
        return t

    def isfile(self, fn):
        return self.key(fn) in self.files
