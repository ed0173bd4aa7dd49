"""numpy look-alike over jax tracers, so that plain-numpy code of the repository can be
traced into a jaxpr (and from there executed symbolically).  Only the value semantics
of the operations used by the repository is provided, arrays are mutable as in numpy.

Used by replacing the module global `np` while the harness is traced; replays run the
untouched module with the real numpy."""
import builtins
import contextlib

import numpy as np


def _u(x):
    if isinstance(x, MArr):
        return x.a
    if isinstance(x, (list, tuple)):
        import jax.numpy as jnp

        if any(isinstance(v, (MArr, list, tuple)) or hasattr(v, "aval") for v in x):
            return jnp.stack([jnp.asarray(_u(v)) for v in x]) if len(x) else jnp.zeros(0)
    return x


def _w(x):
    import jax

    if isinstance(x, (tuple, list)) and not hasattr(x, "_fields"):
        return type(x)(_w(v) for v in x)
    if isinstance(x, jax.Array) or hasattr(x, "aval"):
        return MArr(x)
    return x


class MArr:
    __array_priority__ = 1000

    def __init__(self, a, base=None, key=None):
        import jax.numpy as jnp

        # a basic slice shares its data with the array it was taken from
        self.base, self.key = base, key
        if base is None:
            self._a = jnp.asarray(_u(a))

    @property
    def a(self):
        return self._a if self.base is None else self.base.a[self.key]

    @a.setter
    def a(self, v):
        if self.base is None:
            self._a = v
        else:
            self.base.a = self.base.a.at[self.key].set(v)

    def __jax_array__(self):
        return self.a

    shape = property(lambda s: s.a.shape)
    size = property(lambda s: s.a.size)
    ndim = property(lambda s: s.a.ndim)
    dtype = property(lambda s: s.a.dtype)
    T = property(lambda s: MArr(s.a.T))

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(self.a.shape[0])])

    def __getitem__(self, k):
        k = tuple(_u(i) for i in k) if isinstance(k, tuple) else _u(k)
        parts = k if isinstance(k, tuple) else (k,)
        if all(i is None or i is Ellipsis or isinstance(i, (slice, int, np.integer)) for i in parts):
            v = MArr(None, self, k)
            return v if v.a.ndim else MArr(v.a)
        return MArr(self.a[k])

    def sort(self, axis=-1, **k):
        import jax.numpy as jnp

        self.a = jnp.sort(self.a, axis=axis)

    def fill(self, v):
        import jax.numpy as jnp

        self.a = jnp.full_like(self.a, _u(v))

    def __setitem__(self, k, v):
        import jax.numpy as jnp

        k = tuple(_u(i) for i in k) if isinstance(k, tuple) else _u(k)
        v = _u(v)
        if not isinstance(k, tuple) and hasattr(k, "dtype") and k.dtype == bool:
            vv = jnp.asarray(v)
            if vv.ndim:
                raise NotImplementedError("masked assignment of an array")
            self.a = jnp.where(k, vv.astype(self.a.dtype), self.a)
        else:
            self.a = self.a.at[k].set(v)

    def astype(self, t):
        return MArr(self.a.astype(getattr(t, "_dtype", t)))

    def copy(self):
        return MArr(self.a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self.a, n)
        if callable(f):
            return lambda *a, **k: _w(f(*[_u(x) for x in a], **k))
        return _w(f)

    def __bool__(self):
        return bool(self.a)

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    def __index__(self):
        return self.a.__index__()


def _op(name, rev):
    def f(self, o):
        import jax.numpy as jnp

        a, b = self.a, _u(o)
        if rev:
            a, b = jnp.asarray(b), a
        return MArr(getattr(__import__("operator"), name)(a, b))

    return f


def _iop(name):
    def f(self, o):
        self.a = getattr(__import__("operator"), name)(self.a, _u(o)).astype(self.a.dtype)
        return self

    return f


for _n, _d in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"), ("pow", "pow"), ("floordiv", "floordiv"),
               ("mod", "mod"), ("and_", "and"), ("or_", "or"), ("xor", "xor"), ("matmul", "matmul")]:
    setattr(MArr, f"__{_d}__", _op(_n, False))
    setattr(MArr, f"__r{_d}__", _op(_n, True))
    setattr(MArr, f"__i{_d}__", _iop(_n))
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(MArr, f"__{_n}__", _op(_n, False))
MArr.__hash__ = object.__hash__
MArr.__neg__ = lambda s: MArr(-s.a)
MArr.__pos__ = lambda s: s
MArr.__abs__ = lambda s: MArr(abs(s.a))
MArr.__invert__ = lambda s: MArr(~s.a)


class _Ufunc:
    """binary ufunc with accumulate"""

    def __init__(self, f):
        self.f = f

    def __call__(self, a, b):
        return MArr(self.f(_u(a), _u(b)))

    def accumulate(self, x, axis=0, **k):
        import jax.numpy as jnp

        x = jnp.moveaxis(_u(x), axis, 0)
        rows = [x[0]]
        for i in range(1, x.shape[0]):
            rows.append(self.f(rows[-1], x[i]))
        return MArr(jnp.moveaxis(jnp.stack(rows), 0, axis))

    def reduce(self, x, axis=0, **k):
        import jax.numpy as jnp

        x = jnp.moveaxis(_u(x), axis, 0)
        r = x[0]
        for i in range(1, x.shape[0]):
            r = self.f(r, x[i])
        return MArr(r)


class NP:
    """module proxy"""

    def __init__(self, **over):
        self._over = over

    def __getattr__(self, n):
        import jax.numpy as jnp

        if n in self._over:
            return self._over[n]
        if n in ("maximum", "minimum"):
            return _Ufunc(getattr(jnp, n))
        if n in ("array", "asarray"):
            def arr(x, dtype=None, **k):
                if n == "asarray" and isinstance(x, MArr) and dtype is None:
                    return x
                r = MArr(x)
                return r.astype(dtype) if dtype is not None else r
            return arr
        if n in ("concatenate", "hstack", "vstack", "stack", "append", "column_stack"):
            def cat(*a, **k):
                if n == "append":
                    return MArr(jnp.append(jnp.asarray(_u(a[0])), jnp.asarray(_u(a[1])), **k))
                return MArr(getattr(jnp, n)([jnp.asarray(_u(v)) for v in a[0]], *a[1:], **k))
            return cat
        if n in ("zeros_like", "ones_like", "empty_like"):
            g = {"empty_like": "zeros_like"}.get(n, n)
            return lambda x, **k: MArr(getattr(jnp, g)(_u(x), **k))
        if n in ("empty", "zeros", "ones", "full", "eye", "arange", "linspace", "logspace"):
            g = {"empty": "zeros"}.get(n, n)
            return lambda *a, **k: MArr(getattr(jnp, g)(*[_u(x) for x in a], **k))
        if hasattr(jnp, n):
            f = getattr(jnp, n)
            if not callable(f) or isinstance(f, type):
                return getattr(np, n)


            def fun(*a, out=None, **k):
                r = _w(f(*[_u(x) for x in a], **{p: _u(q) for p, q in k.items()}))
                if out is not None:
                    out.a = _u(r)
                    return out
                return r

            return fun
        return getattr(np, n)


def _isconc(x):
    return not hasattr(_u(x), "aval") or isinstance(x, np.ndarray)


@contextlib.contextmanager
def shimmed(*modules, **over):
    """replace `np` (and further globals given by keyword) in the modules"""
    saved = []
    proxy = NP()
    for m in modules:
        for k, v in dict(np=proxy, **over).items():
            if hasattr(m, k):
                saved.append((m, k, getattr(m, k)))
                setattr(m, k, v)
    try:
        yield MArr
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


# ---------------------------------------------- mixed numpy / jax modules
from .pysym import patched  # noqa: E402


def _un(x):
    if isinstance(x, tuple):
        v = [_un(i) for i in x]
        return type(x)(*v) if hasattr(x, "_fields") else tuple(v)
    return _u(x)


_INSIDE = [0]


def _unwrapped(f, wrap=False):
    """f on plain traced arrays; the result is a mutable stand-in array again when `wrap`"""

    def g(*a, **k):
        if not wrap:
            _INSIDE[0] += 1
        try:
            r = f(*[_un(x) for x in a], **{n: _un(x) for n, x in k.items()})
        finally:
            if not wrap:
                _INSIDE[0] -= 1
        return _w(r) if wrap and not _INSIDE[0] else r

    g._orig = f
    return g


class _Mod:
    """an imported module whose functions get plain traced arrays"""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, n):
        f = getattr(self._m, n)
        return _unwrapped(f) if type(f).__name__ in ("function", "PjitFunction") else f


class _JNP:
    """jax.numpy accepting and returning the mutable stand-in arrays (outside compiled functions)"""

    def __getattr__(self, n):
        import jax.numpy as jnp

        f = getattr(jnp, n)
        return _unwrapped(f, True) if callable(f) and not isinstance(f, type) else f


def _pymin(*a, **k):
    import jax.numpy as jnp

    if any(hasattr(_u(x), "aval") for x in a):
        r = _u(a[0])
        for x in a[1:]:
            r = jnp.minimum(r, _u(x))
        return MArr(r)
    return builtins.min(*a, **k)


def _pyfloat(x):
    return _u(x) if hasattr(_u(x), "aval") else builtins.float(x)


_pyfloat._dtype = float


def _pymax(*a, **k):
    import jax.numpy as jnp

    if any(hasattr(_u(x), "aval") for x in a):
        r = _u(a[0])
        for x in a[1:]:
            r = jnp.maximum(r, _u(x))
        return MArr(r)
    return builtins.max(*a, **k)


@contextlib.contextmanager
def symbolic(mod, **over):
    """run numpy code of `mod` on traced arrays: numpy is the shim, imported functions get plain traced arrays"""
    import jax.numpy as jnp

    names = {}
    for k, v in list(mod.__dict__.items()):
        own = getattr(v, "__module__", None) == mod.__name__ and type(v).__name__ == "function"
        if callable(v) and not isinstance(v, type) and not k.startswith("__") and not own:
            names[k] = _unwrapped(v)
        elif v is jnp:
            names[k] = _JNP()
        elif type(v).__name__ == "module" and v.__name__.split(".")[0] in ("diffmah", "dsps", "diffsky", "diffstar"):
            names[k] = _Mod(v)
    names.update(over)
    with shimmed(mod), patched(mod, **{**dict(min=_pymin, max=_pymax, float=_pyfloat), **names}):
        yield


def run_np(h, mod, f, args, kw=None, **over):
    """f(*args) on symbolic arrays or on real numpy ones; returns jnp arrays"""
    kw = kw or {}
    if h.concrete:
        cv = lambda x: np.array(x) if hasattr(x, "shape") else x
        given = [cv(x) for x in args]
        with patched(mod, **over):
            r = f(*given, **{k: cv(v) for k, v in kw.items()})
    else:
        given = [MArr(x) if hasattr(x, "shape") and getattr(x, "ndim", 0) else x for x in args]
        with symbolic(mod, **over):
            r = f(*given, **kw)
    for x, y in zip(args, given):
        if hasattr(x, "shape") and getattr(x, "ndim", 0):
            h.eq(J(y), J(x), "the caller's arrays are left as they were")
    return r


def J(x):
    import jax.numpy as jnp

    return jnp.asarray(_u(x))
