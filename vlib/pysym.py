"""Path-forking symbolic execution of ordinary Python code of the repository.

The real function object runs; values handed to it by nondeterministic environments
(optimiser results, gradients, random draws, table bounds) are symbolic.  A branch on a
symbolic boolean asks z3 which sides are feasible under the path condition and explores
every feasible side by re-execution (depth first).  At the end of each path the property
is a z3 formula over the path's symbols: `path condition and not property` must be
unsatisfiable.  A model becomes a concrete scenario that is replayed on the real code with
real numpy."""
import builtins
import contextlib
import functools
import inspect
import json
import os
import time
import traceback
import types

import numpy as np
import z3

from . import harness as HN


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


def _vars(e):
    """names of the uninterpreted constants of a term"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(k)
        else:
            todo.extend(x.children())
    return out


class Ctx:
    cur = None

    def __init__(self, prefix, stat):
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # (value, alternatives left)
        self.s = z3.Solver()
        self.s.set("timeout", 20000)
        self.pc = []
        self.stat = stat
        self.n = 0
        self.fresh = set()
        self.known = {}
        self.tokens = []
        self.pvars = {}

    def assume(self, c):
        c = _b(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.s.add(c)

    def check(self, *c):
        t = time.time()
        r = self.s.check(*c)
        self.stat["queries"] += 1
        self.stat["time"] += time.time() - t
        self.stat[str(r)] = self.stat.get(str(r), 0) + 1
        return r

    def refute(self, c):
        """is c impossible here?  With very many assumptions, those about the variables of c alone are
        tried first (unsat from fewer assumptions is unsat)."""
        if len(self.pc) > 400:
            vs = _vars(c)
            few = [p for p in self.pc if self._pv(p) <= vs]
            if len(few) < len(self.pc) // 2:
                t = time.time()
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(*few)
                r = s.check(c)
                self.stat["queries"] += 1
                self.stat["time"] += time.time() - t
                self.stat[str(r)] = self.stat.get(str(r), 0) + 1
                if r == z3.unsat:
                    return r
        return self.check(c)

    def _pv(self, p):
        k = p.get_id()
        if k not in self.pvars:
            self.pvars[k] = _vars(p)
        return self.pvars[k]

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][0]
        if self.pos < len(self.prefix):
            v, alts = self.prefix[self.pos]
            self.trail.append((v, alts))
        else:
            f = []
            rt = self.check(c)
            if rt != z3.unsat:
                f.append(True)
            rf = self.check(z3.Not(c))
            if rf != z3.unsat:
                f.append(False)
            if not f:
                raise Infeasible()
            v, alts = f[0], f[1:]
            self.trail.append((v, alts))
        self.pos += 1
        q = c if v else z3.Not(c)
        self.pc.append(q)
        self.s.add(q)
        self.known[k] = (v, c)
        return v

    def choose_int(self, e):
        """concretise a symbolic integer by forking over its feasible values"""
        while True:
            if self.pos < len(self.prefix):
                pass
            if self.check() == z3.unsat:
                raise Infeasible()
            e2 = z3.simplify(e)
            if z3.is_int_value(e2):
                return e2.as_long()
            if self.pos < len(self.prefix):
                # replayed decisions carry the value asked about
                v = self.prefix[self.pos][0]
                val = v[1]
            else:
                val = self.s.model().eval(e, model_completion=True).as_long()
            c = e == val
            if self.pos < len(self.prefix):
                v, alts = self.prefix[self.pos]
                self.trail.append((v, alts))
                take = v[0]
            else:
                alts = [("no", val)] if self.check(e != val) != z3.unsat else []
                self.trail.append((("yes", val), alts))
                take = "yes"
            self.pos += 1
            q = c if take == "yes" else e != val
            self.pc.append(q)
            self.s.add(q)
            if take == "yes":
                return val

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def boolean(self, name):
        return z3.Bool(name)


def _b(c):
    if isinstance(c, SB):
        return c.e
    if isinstance(c, (bool, np.bool_)):
        return z3.BoolVal(bool(c))
    return c


class SB:
    """symbolic boolean (behaves like numpy.bool_: ~, &, | are logical)"""

    def __init__(self, e):
        self.e = _b(e)

    def __bool__(self):
        return Ctx.cur.decide(self.e)

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __and__(self, o):
        return SB(z3.And(self.e, _tob(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, _tob(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SB(z3.Xor(self.e, _tob(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        return SB(self.e == _tob(o))

    def __ne__(self, o):
        return SB(self.e != _tob(o))

    __hash__ = object.__hash__

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))


def _tob(o):
    if isinstance(o, SB):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, (int, np.integer)):
        return z3.BoolVal(bool(o))
    if z3.is_expr(o):
        return o
    raise Unsupported(f"bool of {type(o)}")


F_, T_ = z3.BoolVal(False), z3.BoolVal(True)


class SV:
    """symbolic float: a real, or NaN, or +inf"""

    def __init__(self, v, nan=F_, inf=F_):
        self.v = v
        self.nan = nan
        self.inf = inf

    shape = ()
    ndim = 0
    size = 1

    def astype(self, dtype=float, *a, **k):
        return cast1(self, dtype)

    def item(self):
        return self

    def copy(self):
        return self

    def __str__(self):
        return token(self, "")

    def __format__(self, spec):
        return token(self, spec)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def _c(self, o, f, strict):
        o = tosv(o)
        # ordering with NaN always false and +inf above every real
        ok = z3.And(z3.Not(self.nan), z3.Not(o.nan))
        return ok, o

    def __lt__(self, o):
        ok, o = self._c(o, None, True)
        return SB(z3.And(ok, z3.Not(self.inf), z3.Or(o.inf, self.v < o.v)))

    def __gt__(self, o):
        return tosv(o) < self

    def __le__(self, o):
        ok, o = self._c(o, None, False)
        return SB(z3.And(ok, z3.Or(o.inf, z3.And(z3.Not(self.inf), self.v <= o.v))))

    def __ge__(self, o):
        return tosv(o) <= self

    def __eq__(self, o):
        try:
            o = tosv(o)
        except Unsupported:
            return False
        return SB(z3.And(z3.Not(self.nan), z3.Not(o.nan), self.inf == o.inf, z3.Or(self.inf, self.v == o.v)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SB) else True

    def __hash__(self):  # dictionary look-ups fork on equality
        return 0

    def same(self, o):
        o = tosv(o)
        return z3.And(self.nan == o.nan, z3.Or(self.nan, z3.And(self.inf == o.inf, z3.Or(self.inf, self.v == o.v))))

    def _ar(self, o, f):
        o = tosv(o)
        return SV(f(self.v, o.v), z3.simplify(z3.Or(self.nan, o.nan)), z3.simplify(z3.Or(self.inf, o.inf)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        o = tosv(o)
        if not z3.is_false(o.inf):
            raise Unsupported("inf - inf")
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return tosv(o) - self

    def __mul__(self, o):
        if not z3.is_false(self.inf) or not z3.is_false(tosv(o).inf):
            raise Unsupported("inf in a product")
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o != 0:
            return self * (1.0 / o)
        # a vanishing divisor is its own path: 0/0 is NaN, as in numpy
        o = tosv(o)
        if not z3.is_false(z3.simplify(o.inf)) or not z3.is_false(z3.simplify(self.inf)):
            raise Unsupported("inf in a division")
        if bool(SB(z3.And(z3.Not(o.nan), o.v == 0))):
            if bool(SB(z3.Or(self.nan, self.v == 0))):
                return SV(z3.RealVal(0), T_)
            if bool(SB(self.v < 0)):
                raise Unsupported("-inf")
            return SV(z3.RealVal(0), F_, T_)
        return self._ar(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return tosv(o) / self

    def __neg__(self):
        return SV(-self.v, self.nan, self.inf)


def tosv(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
        if isinstance(x, SV):
            return x
    if isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool):
        x = float(x)
        if np.isnan(x):
            return SV(z3.RealVal(0), T_, F_)
        if np.isposinf(x):
            return SV(z3.RealVal(0), F_, T_)
        if np.isneginf(x):
            raise Unsupported("-inf")
        from fractions import Fraction

        f = Fraction(x)
        return SV(z3.Q(f.numerator, f.denominator))
    raise Unsupported(f"symbolic value from {type(x)}")


def isnan1(x):
    if isinstance(x, SV):
        return SB(x.nan)
    return SB(z3.BoolVal(bool(np.isnan(x))))


def isfin1(x):
    if isinstance(x, SV):
        return SB(z3.Not(z3.Or(x.nan, x.inf)))
    return SB(z3.BoolVal(bool(np.isfinite(x))))


class SI:
    """symbolic integer; concretised by forking where Python needs a number"""

    def __init__(self, e):
        self.e = e if z3.is_expr(e) else z3.IntVal(int(e))

    def __index__(self):
        return Ctx.cur.choose_int(self.e)

    __int__ = __index__

    def __str__(self):
        return token(self, "")

    def __format__(self, spec):
        return token(self, spec) if spec in ("", "d") or spec[-1:] in "eEfFgG" else format(int(self), spec)

    def __bool__(self):
        return Ctx.cur.decide(self.e != 0)

    def __hash__(self):
        return 0


def _ie(o):
    return o.e if isinstance(o, SI) else z3.IntVal(int(o))


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b).items():
    setattr(SI, f"__{_n}__", (lambda f: lambda s, o: SI(f(s.e, _ie(o))) if isinstance(o, (SI, int, np.integer)) else NotImplemented)(_f))
    setattr(SI, f"__r{_n}__", (lambda f: lambda s, o: SI(f(_ie(o), s.e)) if isinstance(o, (SI, int, np.integer)) else NotImplemented)(_f))
for _n, _f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
    setattr(SI, f"__{_n}__", (lambda f: lambda s, o: SB(f(s.e, _ie(o))) if isinstance(o, (SI, int, np.integer)) else NotImplemented)(_f))
SI.__neg__ = lambda s: SI(-s.e)
# Python's floor division / modulo by a positive divisor agree with z3's Euclidean ones
SI.__floordiv__ = lambda s, o: SI(s.e / _ie(o))
SI.__mod__ = lambda s, o: SI(s.e % _ie(o))


# ------------------------------------------------------------------ text and casts
# A symbolic value written as text becomes a token; reading the token back gives the
# value up to the rounding of the format it was written with.
def token(x, spec):
    t = Ctx.cur.tokens
    t.append((x, spec, {}))
    return f"\u27e8{len(t) - 1}\u27e9"


def fresh_real(tag):
    Ctx.cur.n += 1
    return z3.Real(f"{tag}!{Ctx.cur.n}")


def near(v, rel=0.0, abso=0.0, tag="rounded"):
    """a real within rel*|v| + abso of v"""
    from fractions import Fraction

    q = lambda x: z3.Q(Fraction(x).numerator, Fraction(x).denominator)
    r = fresh_real(tag)
    m = z3.If(v >= 0, v, -v) * q(rel) + q(abso)
    Ctx.cur.assume(z3.And(r - v <= m, v - r <= m))
    return r


def _untoken(s, dtype):
    """numeric value of a text, as numpy's string cast reads it"""
    import re

    s = s.strip()
    kind = np.dtype(dtype).kind
    m = re.fullmatch("\u27e8(\\d+)\u27e9", s)
    if not m:
        return int(s) if kind in "iu" else builtins.float(s)
    x, spec, memo = Ctx.cur.tokens[int(m.group(1))]
    if isinstance(x, SI):
        if re.fullmatch(r"[-+ ]?[<>=^]?\d*d?", spec):
            return narrow(x, np.dtype(dtype))
        x = SV(z3.ToReal(x.e))
    if kind in "iu":
        raise ValueError(f"invalid literal for int(): text of a number written with {spec or 'str'}")
    if "v" not in memo:
        f = re.fullmatch(r"[-+ ]?[<>=^]?\d*(?:\.(\d+))?([eEfFgG]?)", spec)
        if not f:
            raise Unsupported(f"number format {spec!r}")
        p, c = f.group(1), f.group(2).lower()
        if not c and p is None:
            memo["v"] = x
        else:
            p = 6 if p is None else int(p)
            if c == "f":
                memo["v"] = SV(near(x.v, abso=0.5 * 10.0**-p), x.nan, x.inf)
            else:
                memo["v"] = SV(near(x.v, rel=0.5 * 10.0 ** -(p if c == "e" else max(p, 1) - 1)), x.nan, x.inf)
    return memo["v"]


def narrow(x, d):
    """an integer stored with dtype d: wrapped to its width, or rounded to single precision"""
    if d.kind in "iu" and d.itemsize < 8:
        n = 2 ** (8 * d.itemsize)
        lo = n // 2 if d.kind == "i" else 0
        return SI((x.e + lo) % n - lo)
    if d.kind in "iuOb":
        return x
    if d.kind == "f" and d.itemsize < 8:
        # exact below 2^24 (2^11 for half precision)
        p = 24 if d.itemsize == 4 else 11
        v = z3.ToReal(x.e)
        r = near(v, rel=2.0**-p)
        Ctx.cur.assume(z3.Implies(z3.And(x.e <= 2**p, x.e >= -(2**p)), r == v))
        return SV(r)
    return SV(z3.ToReal(x.e))


def cast1(x, dtype):
    """one value cast to a numpy dtype (float casts of at least 32 bit are exact-real no-ops)"""
    d = np.dtype(builtins.float if dtype is sym_float else dtype)
    if isinstance(x, str):
        return _untoken(x, d) if d.kind in "iuf" else x
    if isinstance(x, SB):
        return x if d.kind in "bO" else SV(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, SI):
        return narrow(x, d)
    if isinstance(x, SV):
        if d.kind in "iu":
            if not (z3.is_false(x.nan) and z3.is_false(x.inf)):
                raise Unsupported("int cast of a possibly non-finite value")
            return SV(z3.ToReal(narrow(SI(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v))), d).e))
        if d.kind == "b":
            return SB(z3.Or(x.nan, x.inf, x.v != 0))
        if d.kind == "f" and d.itemsize < 4:
            return SV(near(x.v, rel=2.0**-11), x.nan, x.inf)
        return x
    if d.kind in "iub" and isinstance(x, (int, float, np.number, bool, np.bool_)):
        return np.asarray(x).astype(d)[()]
    return x


def genfromtxt(fs):
    """numpy.genfromtxt(fn, dtype=str) on in-memory text holding tokens"""

    def f(fn, dtype=float, comments="#", **k):
        lines = [ln.split(comments)[0].split() for ln in fs.open(fn).read().split("\n")]
        rows = [ln for ln in lines if ln]
        if np.dtype(dtype).kind not in "SU" or k:
            raise Unsupported("genfromtxt options")
        if not rows:
            return np.empty(0, dtype=object).view(OA)
        if len({len(r) for r in rows}) != 1:
            raise ValueError("Some errors were detected ! lines with different numbers of columns")
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            a[i, :] = r
        # numpy drops axes of length one
        return np.squeeze(a).view(OA)

    return f


def _ints(s):
    return tuple(int(i) for i in s) if isinstance(s, (tuple, list)) else int(s)


class OA(np.ndarray):
    """object array standing for a float array (dtype casts are exact-real no-ops)"""

    def astype(self, dtype=float, *a, **k):
        out = self.copy()
        f = np.ndarray.reshape(out, -1) if out.flags["C_CONTIGUOUS"] else None
        if f is None:
            out = np.ascontiguousarray(out).view(OA)
            f = np.ndarray.reshape(out, -1)
        for i in range(f.shape[0]):
            np.ndarray.__setitem__(f, i, cast1(np.ndarray.__getitem__(f, i), dtype))
        return out

    def tobytes(self, *a, **k):
        """equal for equal values: usable as a dictionary key"""
        return (self.shape,) + tuple(flat(self))

    tostring = tobytes

    def all(self, *a, **k):
        return np_all(self)

    def any(self, *a, **k):
        return np_any(self)

    def min(self, *a, **k):
        return np_min(self)

    def max(self, *a, **k):
        return np_max(self)


def oa(x):
    if isinstance(x, OA):
        return x
    if isinstance(x, (SV, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(OA)
    x = list(x) if not isinstance(x, np.ndarray) else x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(OA)
    n = len(x)
    sub = [np.asarray(oa(v), dtype=object) if isinstance(v, (list, tuple, np.ndarray)) else v for v in x]
    sh = sub[0].shape if n and isinstance(sub[0], np.ndarray) else ()
    a = np.empty((n,) + sh, dtype=object)
    for i, v in enumerate(sub):
        a[i] = v if not isinstance(v, np.ndarray) or v.shape else v[()]
    return a.view(OA)


def flat(x):
    if isinstance(x, (SV, SB, float, int, bool, np.floating, np.bool_, np.integer)):
        return [x]
    return list(np.asarray(oa(x), dtype=object).reshape(-1))


def hassym(x):
    if isinstance(x, (SV, SB)):
        return True
    if isinstance(x, OA):
        return True
    if isinstance(x, (list, tuple)):
        return any(hassym(v) for v in x)
    return isinstance(x, np.ndarray) and x.dtype == object


def emap(f, x):
    if isinstance(x, (SV, SB)) or np.isscalar(x):
        return f(x)
    a = oa(x)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out.view(OA) if a.shape else out[()]


def np_all(x, *a, **k):
    fs = flat(x)
    return SB(z3.And([_tob(v) for v in fs]))


def np_any(x, *a, **k):
    fs = flat(x)
    return SB(z3.Or([_tob(v) for v in fs]))


def _red(x, better, skipnan):
    vs = [tosv(v) for v in flat(x)]
    if not vs:
        raise ValueError("zero-size array to reduction operation")
    r = vs[0]
    for v in vs[1:]:
        lt = _b(better(v, r))
        if skipnan:
            take = z3.Or(lt, z3.And(r.nan, z3.Not(v.nan)))
        else:
            take = z3.And(z3.Not(r.nan), z3.Or(v.nan, lt))
        r = SV(z3.If(take, v.v, r.v), z3.simplify(z3.If(take, v.nan, r.nan)), z3.simplify(z3.If(take, v.inf, r.inf)))
    return r


def np_min(x, *a, **k):
    return _red(x, lambda v, r: v < r, False)


def np_max(x, *a, **k):
    return _red(x, lambda v, r: v > r, False)


def np_nanmin(x, *a, **k):
    return _red(x, lambda v, r: v < r, True)


def np_nanmax(x, *a, **k):
    return _red(x, lambda v, r: v > r, True)


def _arg(x, better, skipnan):
    vs = [tosv(v) for v in flat(x)]
    if not vs:
        raise ValueError("attempt to get argmin of an empty sequence")
    if skipnan:
        if bool(SB(z3.And([v.nan for v in vs]))):
            raise ValueError("All-NaN slice encountered")
        best = None
        for i, v in enumerate(vs):
            if bool(SB(v.nan)):
                continue
            if best is None or bool(better(v, vs[best])):
                best = i
        return best
    best = 0
    for i, v in enumerate(vs):
        if bool(SB(v.nan)):
            return i
        if i and bool(better(v, vs[best])):
            best = i
    return best


def _auto(sym, real):
    return staticmethod(lambda x, *a, **k: sym(x, *a, **k) if hassym(x) else real(x, *a, **k))


def _objs(x):
    if isinstance(x, (list, tuple)) and hassym(x):
        return type(x)(np.asarray(oa(v), dtype=object) if not isinstance(v, (int, float)) else v for v in x) if not hasattr(x, "_fields") else [np.asarray(oa(v), dtype=object) for v in x]
    return x


class NP:
    """numpy look-alike for symbolic scalars and small object arrays"""

    inf, nan, pi = np.inf, np.nan, np.pi
    float64, float32, int64, int32, bool_, ndarray = np.float64, np.float32, np.int64, np.int32, np.bool_, np.ndarray

    def __init__(self, **over):
        self.__dict__.update(over)

    def isnan(self, x):
        return emap(isnan1, x) if hassym(x) else np.isnan(x)

    def isfinite(self, x):
        return emap(isfin1, x) if hassym(x) else np.isfinite(x)

    def isinf(self, x):
        return emap(lambda v: SB(tosv(v).inf), x)

    all = _auto(np_all, np.all)
    any = _auto(np_any, np.any)
    min = amin = _auto(np_min, np.min)
    max = amax = _auto(np_max, np.max)
    nanmin = _auto(np_nanmin, np.nanmin)
    nanmax = _auto(np_nanmax, np.nanmax)

    def nanargmin(self, x, *a, **k):
        return _arg(x, lambda a, b: a < b, True)

    def argmin(self, x, *a, **k):
        return _arg(x, lambda a, b: a < b, False)

    def nanargmax(self, x, *a, **k):
        return _arg(x, lambda a, b: a > b, True)

    def argmax(self, x, *a, **k):
        return _arg(x, lambda a, b: a > b, False)

    def logical_not(self, x):
        return emap(lambda v: ~v if isinstance(v, SB) else (not v), x)

    def logical_and(self, a, b):
        return a & b

    def logical_or(self, a, b):
        return a | b

    def array(self, x, dtype=None, copy=True):
        return oa(x).copy() if hassym(x) else np.array(x)

    asarray = atleast_1d = array

    def copy(self, x):
        return oa(x).copy() if hassym(x) else np.copy(x)

    def zeros(self, shape, *a, **k):
        return np.zeros(_ints(shape)).astype(object).view(OA)

    def ones(self, shape, *a, **k):
        return np.ones(_ints(shape)).astype(object).view(OA)

    def empty(self, shape, *a, **k):
        return np.zeros(_ints(shape)).astype(object).view(OA)

    def full(self, s, v, **k):
        a = np.empty(s, dtype=object)
        a[...] = v
        return a.view(OA)

    def zeros_like(self, x, **k):
        return self.zeros(np.shape(x))

    def ones_like(self, x, **k):
        return self.ones(np.shape(x))

    def where(self, c, a=None, b=None):
        if isinstance(c, SB):
            return a if bool(c) else b
        raise Unsupported("np.where")

    def __getattr__(self, n):
        f = getattr(np, n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if hassym(a) or hassym(list(k.values())):
                if n in ("sum", "concatenate", "stack", "diff", "cumsum", "vstack", "hstack", "transpose", "reshape", "ravel", "take", "repeat", "append", "shape", "size", "squeeze", "cumsum", "mean", "broadcast_to", "column_stack", "atleast_2d", "split", "array_split", "flip", "moveaxis", "swapaxes", "expand_dims"):
                    k.pop("dtype", None)
                    r = f(*[_objs(x) for x in a], **k)
                    return r.view(OA) if isinstance(r, np.ndarray) and r.dtype == object else r
                raise Unsupported(f"np.{n} on symbolic values")
            return f(*a, **k)

        return g


def sym_float(x):
    if isinstance(x, OA) and x.shape == ():
        x = x[()]
    return x if isinstance(x, SV) else builtins.float(x)


def standin(real, f):
    """f in place of the function `real`: arguments given by the real function's keywords reach f by position"""
    if not isinstance(f, (types.FunctionType, types.MethodType)) or not callable(real) or isinstance(real, type):
        return f
    try:
        rs, fs = inspect.signature(real), inspect.signature(f)
    except (TypeError, ValueError):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        try:
            fs.bind(*a, **k)
        except TypeError:
            b = rs.bind(*a, **k).arguments
            pos, rest = [], dict(b)
            for n, q in rs.parameters.items():
                if n not in rest or q.kind not in (q.POSITIONAL_ONLY, q.POSITIONAL_OR_KEYWORD):
                    break
                pos.append(rest.pop(n))
            return f(*pos, **rest)
        return f(*a, **k)

    return g


@contextlib.contextmanager
def patched(module, **names):
    """replace module globals (including shadowed builtins) for the duration"""
    saved, missing = {}, []
    for k, v in names.items():
        if k in module.__dict__:
            saved[k] = module.__dict__[k]
        else:
            missing.append(k)
        setattr(module, k, standin(module.__dict__.get(k), v))
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(module, k, v)
        for k in missing:
            delattr(module, k)


class Harness:
    """scenario(ctx) runs the real code on symbolic values and returns [(label, formula)];
    replay(get) runs the real code on the concrete scenario of a model and returns
    [(label, observed, expected)] for the violated labels.  `get(expr)` evaluates a z3
    expression or symbolic value in the model."""

    def __init__(self, name, scenario, replay, functions=(), bounds="", max_paths=20000, deadline=300.0):
        self.name, self.scenario, self.replay = name, scenario, replay
        self.functions, self.bounds = list(functions), bounds
        self.max_paths, self.deadline = max_paths, deadline


def model_getter(m):
    def val(e):
        v = m.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
        return v

    def get(x):
        if isinstance(x, SV):
            if val(x.nan):
                return float("nan")
            if val(x.inf):
                return float("inf")
            return float(val(x.v))
        if isinstance(x, (SB, SI)):
            return val(x.e)
        if z3.is_expr(x):
            return val(x)
        return x

    return get


def run_harness(pid, H, out, seed=1, verbose=True):
    t0 = time.time()
    stat = {"queries": 0, "time": 0.0, "sat": 0, "unsat": 0, "unknown": 0}
    prefix = []
    paths = infeas = nob = nd = 0
    labels = {}
    violated = set()
    truncated = False
    try:
        while True:
            ctx = Ctx(prefix, stat)
            Ctx.cur = ctx
            obs = None
            try:
                obs = H.scenario(ctx)
            except Infeasible:
                infeas += 1
            except Unsupported:
                raise
            except Exception as e:
                if not HN.from_repo(e):
                    raise
                obs = [(f"raises {type(e).__name__}", z3.BoolVal(False))]
            if obs is not None:
                paths += 1
                for label, f in obs:
                    nob += 1
                    labels[label] = labels.get(label, 0) + 1
                    if label in violated:
                        continue
                    r = ctx.refute(z3.Not(_tob(f)))
                    if r == z3.unsat:
                        nd += 1
                        continue
                    if r != z3.sat:
                        out.inconclusive.append(f"{H.name}/{label}: solver {r} on path {paths}")
                        continue
                    get = model_getter(ctx.s.model())
                    got = None
                    try:
                        got = H.replay(get)
                    except Exception as e:
                        if HN.from_repo(e):
                            got = ([("raises", f"{type(e).__name__}: {e}"[:300], "no exception")], {})
                        else:
                            raise
                    bad, scen = got
                    bad = [b for b in bad if b[0] == label or b[0] == "raises"] or bad
                    if not bad:
                        out.inconclusive.append(f"{H.name}/{label}: solver model did not reproduce on the real code: {scen}")
                        continue
                    violated.add(label)
                    os.makedirs(HN.REPLAYS, exist_ok=True)
                    path = os.path.join(HN.REPLAYS, f"{pid}_{len(out.violations)}.json")
                    with open(path, "w") as fh:
                        json.dump({"property": pid, "harness": H.name, "obligation": label, "kind": "scenario", "tier": getattr(out, "tier", "quick"), "violated": bad, "scenario": scen,
                                   "replay": f"/verif/check.sh {pid} --replay {path}"}, fh, indent=1, default=str)
                    out.violations.append({"label": label, "harness": H.name, "path": path, "observed": bad[0][1], "bound": bad[0][2]})
            # next path
            trail = ctx.trail
            while trail and not trail[-1][1]:
                trail.pop()
            if not trail:
                break
            v, alts = trail[-1]
            prefix = trail[:-1] + [(alts[0], alts[1:])]
            if paths + infeas >= H.max_paths or time.time() - t0 > H.deadline:
                truncated = True
                break
            if len(violated) >= 3:
                truncated = True
                break
    except Exception:
        out.errors.append(f"{H.name}: {traceback.format_exc()}")
    finally:
        Ctx.cur = None
    if truncated and not violated:
        out.reduced.append(f"{H.name}: path exploration stopped after {paths} paths")
    out.obligations += nob
    out.discharged += nd
    from . import solve

    for k in ("queries", "sat", "unsat", "unknown"):
        solve.STAT[k] = solve.STAT.get(k, 0) + stat.get(k, 0)
    solve.STAT["time"] += stat["time"]
    rec = {"harness": H.name, "functions_encoded": H.functions, "bounds": H.bounds, "paths": paths, "infeasible_paths": infeas, "obligations": nob,
           "discharged": nd, "obligation_labels": labels, "solver": {k: round(v, 3) if isinstance(v, float) else v for k, v in stat.items()},
           "exhaustive_within_bounds": not truncated, "wall_s": round(time.time() - t0, 2)}
    out.harnesses.append(rec)
    if verbose:
        print(f"  [{pid}] {H.name}: {paths} paths, {nd}/{nob} obligations, {stat['queries']} queries, {rec['wall_s']}s", flush=True)


# ------------------------------------------------------------------ one body for both runs
class Vals:
    """source of nondeterministic values: symbolic in the exploration, concrete in the replay"""

    def __init__(self, ctx=None, get=None, store=None):
        self.ctx, self.get, self.store = ctx, get, store if store is not None else {}
        self.symbolic = ctx is not None
        self.made = {}

    def _make(self, name, sym, conc):
        if name not in self.made:
            if self.symbolic:
                self.made[name] = sym()
            else:
                if name not in self.store:
                    self.store[name] = conc()
                self.made[name] = self.store[name]
        return self.made[name]

    def real(self, name, lo=None, hi=None, nan=False, inf=False):
        def sym():
            v = SV(self.ctx.real(name, lo, hi), z3.Bool(name + "!nan") if nan else F_, z3.Bool(name + "!inf") if inf else F_)
            if nan and inf:
                self.ctx.assume(z3.Not(z3.And(v.nan, v.inf)))
            return v

        def conc():
            if self.get is None:
                return 0.0 if lo is None else float(lo)
            if nan and self.get(z3.Bool(name + "!nan")):
                return float("nan")
            if inf and self.get(z3.Bool(name + "!inf")):
                return float("inf")
            return float(self.get(z3.Real(name)))

        return self._make(name, sym, conc)

    def int(self, name, lo, hi):
        def sym():
            e = z3.Int(name)
            self.ctx.assume(z3.And(e >= lo, e <= hi))
            return SI(e)

        return self._make(name, sym, lambda: int(self.get(z3.Int(name))) if self.get else lo)

    def bool(self, name):
        """decided at once (forks)"""
        return self._make(name, lambda: self.ctx.decide(z3.Bool(name)), lambda: bool(self.get(z3.Bool(name))) if self.get else False)

    def choice(self, name, options):
        """one of the options (forks)"""
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def reals(self, name, shape, lo=None, hi=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return a.view(OA) if self.symbolic else a.astype(float)

    def assume(self, c):
        if self.symbolic:
            self.ctx.assume(c)


def same(a, b, rtol=1e-9):
    """formula: equal shapes and equal values"""
    fa, fb = flat(a), flat(b)
    sa = np.shape(a) if not isinstance(a, (SV, SB)) else ()
    sb = np.shape(b) if not isinstance(b, (SV, SB)) else ()
    if tuple(sa) != tuple(sb):
        return F_
    out = [T_]
    for x, y in zip(fa, fb):
        if isinstance(x, (SB, bool, np.bool_)) or isinstance(y, (SB, bool, np.bool_)):
            out.append(_tob(x) == _tob(y))
        elif isinstance(x, SV) or isinstance(y, SV):
            out.append(tosv(x).same(tosv(y)))
        else:
            out.append(z3.BoolVal(bool(np.isclose(float(x), float(y), rtol=rtol, atol=1e-300, equal_nan=True))))
    return z3.And(out)


def holds(c):
    return _tob(c)


def dual(name, fn, functions=(), bounds="", deadline=300.0, max_paths=20000):
    """fn(vals) -> [(label, formula)], run symbolically and, for a replay, on concrete values"""

    def scenario(ctx):
        return fn(Vals(ctx=ctx))

    def conc(vals):
        return [(l, "violated on the real code with these values", "see label") for l, f in fn(vals) if not z3.is_true(z3.simplify(_tob(f)))]

    def replay(get):
        v = Vals(get=get)
        try:
            return conc(v), {"values": v.store}
        except Exception as e:
            if not HN.from_repo(e):
                raise
            return [("raises", f"{type(e).__name__}: {e}"[:300], "no exception")], {"values": v.store}

    H = Harness(name, scenario, replay, functions, bounds, max_paths, deadline)

    def again(scen):
        try:
            return conc(Vals(store=dict(scen["values"])))
        except Exception as e:
            if not HN.from_repo(e):
                raise
            return [("raises", f"{type(e).__name__}: {e}"[:300], "no exception")]

    H.again = again
    return H


def replay_with(hs, d):
    for H in hs:
        if H.name == d["harness"]:
            bad = H.again(d["scenario"])
            print(bad)
            if bad:
                print(f"VIOLATION property={d['property']} replay")
                return 1
            return 0
    return 2
