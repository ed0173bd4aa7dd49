"""Run an MPI script of the repository with all its ranks inside one process.

The script's source is executed once per rank with its imports replaced: mpi4py by a
communicator whose barriers are real (ranks are threads handing a single token around, so
exactly one runs at a time and the order is fixed), files by an in-memory layer that logs
every access with the rank's barrier epoch, and the shell by a stand-in that understands
`rm`.  Two accesses of different ranks to one file in the same epoch, one of them a write
or removal, can happen in either order: that is a race, whatever order was run."""
import builtins
import fnmatch
import glob as _glob
import os
import pathlib
import shlex
import subprocess
import sys
import threading
import types

from .pysym import Ctx, Infeasible


class Abort(BaseException):
    pass


class World:
    def __init__(self, fs, n):
        self.fs, self.n = fs, n
        self.epoch = [0] * n
        self.log = []  # (rank, epoch, "r"/"w"/"d", path)
        self.state = ["ready"] * n
        self.slot = [None] * n
        self.err = None
        self.deadlock = False
        self.cv = threading.Condition()
        self.turn = -1
        self.rank = 0
        self.commands = []

    def access(self, op, fn):
        self.log.append((self.rank, self.epoch[self.rank], op, self.fs.key(fn)))

    # ---------------------------------------------------------------- scheduling
    def _next(self):
        """called with the lock held by the running rank when it stops at a barrier or ends"""
        if self.err is not None:
            self.turn = -2
            self.cv.notify_all()
            return
        ready = [r for r in range(self.n) if self.state[r] == "ready"]
        if not ready:
            waiting = [r for r in range(self.n) if self.state[r] == "waiting"]
            if not waiting:
                self.turn = -3
                self.cv.notify_all()
                return
            if len(waiting) < self.n:
                self.deadlock = True
                self.turn = -2
                self.cv.notify_all()
                return
            for r in waiting:
                self.state[r] = "ready"
            ready = waiting
        self.turn = ready[0]
        self.cv.notify_all()

    def sync(self, counts=True):
        r = self.rank
        with self.cv:
            self.state[r] = "waiting"
            if counts:
                self.epoch[r] += 1
            self._next()
            while self.turn != r and self.turn != -2:
                self.cv.wait()
            if self.turn == -2:
                raise Abort()
            self.rank = r

    def run(self, body):
        def main(r):
            try:
                with self.cv:
                    while self.turn != r and self.turn != -2:
                        self.cv.wait()
                    if self.turn == -2:
                        return
                    self.rank = r
                body(r)
            except Abort:
                pass
            except BaseException as e:  # handed to the caller's thread
                self.err = e
            finally:
                with self.cv:
                    self.state[r] = "done"
                    if self.turn == r:
                        self._next()

        ts = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.n)]
        for t in ts:
            t.start()
        with self.cv:
            self._next()
        for t in ts:
            t.join()
        if self.err is not None:
            raise self.err

    def races(self):
        """pairs of conflicting accesses that no barrier orders"""
        bad = []
        for i, (r, e, op, fn) in enumerate(self.log):
            for r2, e2, op2, fn2 in self.log[i + 1:]:
                if r != r2 and fn == fn2 and e == e2 and (op != "r" or op2 != "r"):
                    bad.append((fn, r, op, r2, op2))
        return bad


class Comm:
    def __init__(self, world):
        self.w = world

    def Get_rank(self):
        return self.w.rank

    def Get_size(self):
        return self.w.n

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        self.w.sync()

    barrier = Barrier

    def _all(self, x):
        r = self.w.rank
        self.w.slot[r] = x
        self.w.sync(False)
        v = list(self.w.slot)
        self.w.sync(False)
        return v

    def reduce(self, x, op=None, root=0):
        v = self._all(x)
        return _fold(v, op) if self.w.rank == root else None

    def allreduce(self, x, op=None):
        return _fold(self._all(x), op)

    def gather(self, x, root=0):
        v = self._all(x)
        return v if self.w.rank == root else None

    def allgather(self, x):
        return self._all(x)

    def scatter(self, x, root=0):
        return self._all(x)[root][self.w.rank]

    def bcast(self, x, root=0):
        return self._all(x)[root]


def _fold(v, op):
    r = v[0]
    for x in v[1:]:
        r = max(r, x) if op == "MAX" else min(r, x) if op == "MIN" else r + x
    return r


class _Proxy:
    def __init__(self, m, **over):
        self.__dict__.update(over)
        self._m = m

    def __getattr__(self, n):
        return getattr(self._m, n)


def run_script(path, argv, world, modules=None, builtins_over=None, after=None):
    """execute the script once per rank; modules: replacements by import name; returns the
    globals of each rank"""
    fs = world.fs
    src = open(path).read()
    code = compile(src, path, "exec")
    comm = Comm(world)
    mpi = types.ModuleType("mpi4py")
    mpi.MPI = types.SimpleNamespace(COMM_WORLD=comm, SUM="SUM", MAX="MAX", MIN="MIN")

    def opener(fn, mode="r", *a, **k):
        world.access("r" if "r" in mode and "+" not in mode else "w", fn)
        return fs.open(fn, mode, *a, **k)

    def isfile(fn):
        world.access("r", fn)
        return fs.isfile(fn)

    def remove(fn):
        world.access("d", fn)
        if fs.key(fn) not in fs.files:
            raise FileNotFoundError(fn)
        del fs.files[fs.key(fn)]

    def globber(pat, *a, **k):
        pat = fs.key(pat)
        return sorted(f for f in fs.files if fnmatch.fnmatch(f, pat))

    def shell(cmd, *a, **k):
        world.commands.append(cmd)
        args = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
        if not args or args[0] != "rm":
            raise NotImplementedError(f"shell command {cmd!r}")
        for pat in args[1:]:
            if pat.startswith("-"):
                continue
            for f in globber(pat):
                remove(f)
        return 0

    def rmtree(*a, **k):
        raise NotImplementedError("rmtree")

    def listdir(drn="."):
        d = fs.key(drn)
        return sorted({os.path.relpath(f, d).split(os.sep)[0] for f in fs.files if f.startswith(d + os.sep) or (d == "." and not f.startswith("/"))})

    def rename(a, b):
        world.access("d", a)
        world.access("w", b)
        fs.files[fs.key(b)] = fs.files.pop(fs.key(a))

    class FPath(pathlib.PurePosixPath):
        def exists(self):
            return isfile(self)

        is_file = exists

        def unlink(self, missing_ok=False):
            if not missing_ok or fs.isfile(self):
                remove(self)

        def open(self, mode="r", *a, **k):
            return opener(self, mode)

        def glob(self, pat):
            return [FPath(f) for f in globber(os.path.join(str(self), pat))]

        def iterdir(self):
            return [self / f for f in listdir(self)]

        def mkdir(self, *a, **k):
            pass

        def read_text(self, *a, **k):
            with opener(self) as f:
                return f.read()

        def write_text(self, x, *a, **k):
            with opener(self, "w") as f:
                f.write(x)

        def resolve(self):
            return FPath(os.path.abspath(str(self)))

        absolute = resolve

    h5 = fs.h5()
    real_File = h5.File

    class File(real_File):
        def __init__(self, fn, mode="r", *a, **k):
            world.access("r" if mode == "r" else "w", fn)
            super().__init__(fn, mode, *a, **k)

    h5.File = File
    fpath = _Proxy(os.path, isfile=isfile, exists=isfile)
    fos = _Proxy(os, path=fpath, makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None, remove=remove, unlink=remove, system=shell, listdir=listdir, rename=rename, replace=rename)
    mods = {"mpi4py": mpi, "os": fos, "subprocess": _Proxy(subprocess, os=fos, call=shell, run=shell, check_call=shell), "glob": _Proxy(_glob, glob=globber, iglob=globber), "pathlib": _Proxy(pathlib, Path=FPath, PosixPath=FPath), "h5py": h5,
            "shutil": types.SimpleNamespace(rmtree=rmtree), **(modules or {})}
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name in mods and level == 0:
            return mods[name]
        if name == "os.path":
            return fpath if fromlist else fos
        return real_import(name, globals, locals, fromlist, level)

    b = dict(vars(builtins), __import__=imp, open=opener, print=lambda *a, **k: print(*a, **k) if k.get("file") is not None else None, **(builtins_over or {}))
    spaces = [None] * world.n
    old = sys.argv
    sys.argv = [path] + list(argv)
    sys.path.insert(0, os.path.dirname(path))
    try:
        def body(r):
            g = {"__name__": "__main__", "__file__": path, "__builtins__": b}
            spaces[r] = g
            exec(code, g)

        world.run(body)
    finally:
        sys.argv = old
        sys.path.remove(os.path.dirname(path))
    return spaces, h5
