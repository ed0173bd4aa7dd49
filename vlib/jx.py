"""Symbolic interpreter for jaxprs (JAX's compiler intermediate representation).

A jaxpr is obtained by tracing the real function from /repo; every primitive of
that program is executed here over exact symbolic reals.  Values are either
concrete numpy arrays or `Sym` arrays (object arrays of expression nodes with a
parallel array of definedness conditions: division by zero, log of a
non-positive number, out-of-range gathers, ...).
"""
import itertools
from fractions import Fraction

import numpy as np

from . import expr as X


class Unsupported(Exception):
    pass


DOM = {}  # variable name -> (lo, hi) floats, from sampling primitives
EXP_MAX = [None]  # if set: raw exponentials with arguments above are 'undefined'
STATS = {"eqns": 0, "prims": {}}


class Sym:
    __slots__ = ("val", "ok", "dtype")

    def __init__(self, val, ok=None, dtype=np.dtype("float64")):
        self.val = val
        self.ok = ok
        self.dtype = dtype

    @property
    def shape(self):
        return self.val.shape


def is_sym(x):
    return isinstance(x, Sym)


def _dt(aval):
    return aval.dtype


def _isbool(dtype):
    return dtype == np.bool_


def _isint(dtype):
    try:
        return np.issubdtype(dtype, np.integer)
    except TypeError:
        return False


def to_obj(x):
    """concrete array -> object array of nodes"""
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    if x.dtype == np.bool_:
        for i in np.ndindex(x.shape):
            out[i] = X.TRUE if x[i] else X.FALSE
    elif np.issubdtype(x.dtype, np.integer):
        for i in np.ndindex(x.shape):
            out[i] = X.C(int(x[i]))
    else:
        for i in np.ndindex(x.shape):
            out[i] = X.C(float(x[i]))
    return out


def lift(x):
    if is_sym(x):
        return x
    x = np.asarray(x)
    return Sym(to_obj(x), None, x.dtype)


def okarr(s):
    if s.ok is not None:
        return s.ok
    o = np.empty(s.val.shape, dtype=object)
    o.fill(X.TRUE)
    return o


def norm(val, ok, dtype):
    """demote to concrete if every element is constant"""
    flat = val.reshape(-1)
    if ok is not None and all(o is X.TRUE for o in ok.reshape(-1)):
        ok = None
    if ok is None and flat.size and not str(dtype).startswith("key"):
        if _isbool(dtype) and all(n is X.TRUE or n is X.FALSE for n in flat):
            return np.array([n is X.TRUE for n in flat], dtype=bool).reshape(val.shape)
        if _isint(dtype) and all(n.op == "c" for n in flat):
            return np.array([int(n.data) for n in flat], dtype=dtype).reshape(val.shape)
    return Sym(val, ok, dtype)


# ------------------------------------------------------------- ITE-lifted ints
def leaves(n, guard=X.TRUE, out=None):
    if out is None:
        out = []
    if n.op == "ite":
        leaves(n.args[1], X.and_(guard, n.args[0]), out)
        leaves(n.args[2], X.and_(guard, X.not_(n.args[0])), out)
    else:
        out.append((guard, n))
    return out


def lift_const(fn, *ns):
    """apply fn(int, ...) through ITE trees whose leaves are constants; None if impossible"""
    for i, n in enumerate(ns):
        if n.op == "ite":
            a = lift_const(fn, *ns[:i], n.args[1], *ns[i + 1 :])
            b = lift_const(fn, *ns[:i], n.args[2], *ns[i + 1 :])
            if a is None or b is None:
                return None
            return X.ite(n.args[0], a, b)
        if n.op != "c":
            return None
    return fn(*[n.data for n in ns])


def num(s):
    """a boolean array as the integers 0 and 1"""
    if not _isbool(s.dtype):
        return s
    return norm(_map(lambda n: X.ite(n, X.ONE, X.ZERO), s.val), s.ok, np.dtype("int32"))


# ------------------------------------------------------------------ elementwise
def _and(*oks):
    return X.and_(*oks)


def ew_div(a, b):
    return X.div(a, b), X.not_(X.eq0(b)) if not X.is_special(b) else X.TRUE


def ew_exp(a):
    ok = X.TRUE
    if EXP_MAX[0] is not None:
        ok = X.le(a, X.C(EXP_MAX[0]))
    return X.exp(a), ok


def ew_log(a):
    return X.log(a), X.lt0(X.neg(a)) if not X.is_special(a) else (X.TRUE if a is X.INF else X.FALSE)


def ew_pow(a, b):
    if b.op == "c" and b.data.denominator == 1 and abs(b.data) < 64:
        return X.powi(a, int(b.data)), (X.TRUE if b.data >= 0 else X.not_(X.eq0(a)))
    if b.op == "c" and b.data.denominator == 2 and abs(b.data) < 64:
        r = X.powi(X.sqrt(a), int(b.data * 2))
        return r, (X.not_(X.lt0(a)) if b.data > 0 else X.lt0(X.neg(a)))
    if a.op == "c":
        if a.data == 10:
            la = X.C(X.LN10)
        elif a.data > 0:
            la = X.log(a)
        else:
            raise Unsupported("pow of non-positive constant")
        r, ok = ew_exp(X.mul(b, la))
        return r, ok
    la = X.log(a)
    r, ok = ew_exp(X.mul(b, la))
    return r, _and(ok, X.lt0(X.neg(a)))


def ew_logistic(a):
    if X.is_special(a):
        return {"inf": X.ONE, "ninf": X.ZERO, "nan": X.NAN}[a.op], X.TRUE
    return X.powi(X.add(X.ONE, X.exp(X.neg(a))), -1), X.TRUE


def ew_tanh(a):
    # 1 - 2/(1+exp(2a))
    return (
        X.sub(X.ONE, X.scale(X.powi(X.add(X.ONE, X.exp(X.scale(a, 2))), -1), 2)),
        X.TRUE,
    )


def ew_sqrt(a):
    return X.sqrt(a), X.not_(X.lt0(a))


def _t(f):
    return lambda *a: (f(*a), X.TRUE)


def ew_sign(a):
    return X.ite(X.lt0(a), X.C(-1), X.ite(X.eq0(a), X.ZERO, X.ONE)), X.TRUE


def plain_int(n):
    """an integer input, or one with known integers added"""
    return n.op == "v" and n.integer or n.op == "add" and all(c.denominator == 1 for c in (n.data[0], *n.data[1])) and all(plain_int(a) for a in n.args)


def narrowing(old, new):
    """conversion of an integer to a type that cannot hold every value of the old one, or None.

    Four-byte targets are modelled for integer inputs only: jax itself converts indices to int32."""
    if new.kind in "iu" and new.itemsize < old.itemsize:
        m = 2 ** (8 * new.itemsize)
        lo = m // 2 if new.kind == "i" else 0

        def wrap(n):
            if n.op == "c":
                q = int(n.data)
                return X.C((q + lo) % m - lo)
            if n.isbool or (new.itemsize > 2 and not plain_int(n)):
                return n
            return X.sub(n, X.scale(ew_floor(X.scale(X.add(n, X.C(lo)), Fraction(1, m)))[0], m))

        return wrap
    if new.kind == "f" and new.itemsize <= 4 < old.itemsize:
        p = 2 ** (24 if new.itemsize == 4 else 11)

        def rounded(n):
            if n.op == "c" or not plain_int(n):
                return n
            big = X.scale(ew_floor(X.scale(X.add(n, X.C(1)), Fraction(1, 2)))[0], 2)
            return X.ite(X.and_(X.le(n, X.C(p)), X.le(X.C(-p), n)), n, big)

        return rounded
    return None


def ew_floor(a):
    if a.op == "c":
        return X.C(a.data.__floor__()), X.TRUE
    r = lift_const(lambda q: X.C(q.__floor__()), a)
    if r is not None:
        return r, X.TRUE
    if a.integer:
        return a, X.TRUE
    return X.uf("floor", [a], integer=True), X.TRUE


def ew_round(a):
    if a.op == "c":
        return X.C(round(a.data)), X.TRUE
    return X.uf("round", [a], integer=True), X.TRUE


def ew_clamp(lo, x, hi):
    return X.minimum(X.maximum(x, lo), hi), X.TRUE


EW = {
    "add": _t(X.add),
    "add_any": _t(X.add),
    "sub": _t(X.sub),
    "mul": _t(X.mul),
    "neg": _t(X.neg),
    "div": ew_div,
    "exp": ew_exp,
    "exp2": lambda a: ew_exp(X.scale(a, X.LN2F)),
    "expm1": lambda a: (X.sub(X.exp(a), X.ONE), ew_exp(a)[1]),
    "log": ew_log,
    "log2": lambda a: (X.scale(X.log(a), 1 / X.LN2F), ew_log(a)[1]),
    "log1p": lambda a: ew_log(X.add(X.ONE, a)),
    "pow": ew_pow,
    "square": _t(lambda a: X.powi(a, 2)),
    "logistic": ew_logistic,
    "tanh": ew_tanh,
    "sqrt": ew_sqrt,
    "rsqrt": lambda a: (X.powi(X.sqrt(a), -1), X.lt0(X.neg(a))),
    "cbrt": _t(lambda a: X.uf("cbrt", [a])),
    "abs": _t(X.absv),
    "sign": ew_sign,
    "floor": ew_floor,
    "ceil": lambda a: (X.neg(ew_floor(X.neg(a))[0]), X.TRUE),
    "round": ew_round,
    "max": _t(X.maximum),
    "min": _t(X.minimum),
    "clamp": ew_clamp,
    "erf_inv": lambda a: (
        X.uf("erf_inv", [a]),
        _and(X.lt(a, X.ONE), X.lt(X.neg(a), X.ONE)),
    ),
    "erf": _t(lambda a: X.uf("erf", [a])),
    "sin": _t(lambda a: X.uf("sin", [a])),
    "cos": _t(lambda a: X.uf("cos", [a])),
    "atan": _t(lambda a: X.uf("atan", [a])),
    "stop_gradient": _t(lambda a: a),
    "copy": _t(lambda a: a),
    "copy_p": _t(lambda a: a),
    "real": _t(lambda a: a),
    "optimization_barrier": _t(lambda a: a),
    "reduce_precision": _t(lambda a: a),
}


def _cmp(f):
    return lambda a, b: (f(a, b), X.TRUE)


def _ge(a, b):
    return X.le(b, a)


CMP = {
    "lt": _cmp(X.lt),
    "le": _cmp(X.le),
    "gt": _cmp(lambda a, b: X.lt(b, a)),
    "ge": _cmp(_ge),
    "eq": _cmp(X.eq),
    "ne": _cmp(lambda a, b: X.not_(X.eq(a, b))),
    "lt_to": _cmp(X.lt),
    "le_to": _cmp(X.le),
    "is_finite": lambda a: (
        X.FALSE if X.is_special(a) else X.TRUE,
        X.TRUE,
    ),
}


def bcast(args):
    shape = np.broadcast_shapes(*[a.shape for a in args])
    return shape, [np.broadcast_to(a.val, shape) for a in args], [
        None if a.ok is None else np.broadcast_to(a.ok, shape) for a in args
    ]


def elementwise(fn, args, out_aval):
    args = [lift(a) for a in args]
    shape, vals, oks = bcast(args)
    out = np.empty(shape, dtype=object)
    ok = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        v, o = fn(*[x[i] for x in vals])
        out[i] = v
        ok[i] = X.and_(o, *[x[i] for x in oks if x is not None])
    return norm(out, ok, out_aval.dtype)


NPY = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "neg": np.negative,
    "max": np.maximum, "min": np.minimum, "lt": np.less, "le": np.less_equal,
    "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal,
    "abs": np.abs, "sqrt": np.sqrt, "square": np.square, "stop_gradient": lambda a: a,
    "copy": lambda a: a,
}


class Interp:
    def __init__(self):
        self.rng_cache = {}

    # ---------------------------------------------------------------- driver
    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v).__name__ == "Literal":
                return np.asarray(v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if (is_sym(c)) else _conc(c)
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        STATS["eqns"] += 1
        STATS["prims"][name] = STATS["prims"].get(name, 0) + 1
        P = eqn.params
        if name in ("jit", "pjit", "closed_call", "core_call", "xla_call", "remat", "checkpoint"):
            j = P.get("jaxpr") or P.get("call_jaxpr")
            return self._call(j, ins)
        if name in ("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr"):
            j = P.get("call_jaxpr") or P.get("fun_jaxpr")
            return self._call(j, ins)
        if name == "custom_lin":
            raise Unsupported(name)
        if name == "cond":
            return self._cond(P["branches"], ins, eqn)
        if name == "scan":
            return self._scan(P, ins, eqn)
        if name == "while":
            return self._while(P, ins, eqn)
        outs_avals = [v.aval for v in eqn.outvars]
        if not any(is_sym(i) for i in ins) and not name.startswith("random_"):
            f = NPY.get(name)
            if f is not None:
                r = np.asarray(f(*ins))
                if r.dtype != outs_avals[0].dtype:
                    r = r.astype(outs_avals[0].dtype)
                return [r]
            r = eqn.primitive.bind(*[_tojax(i) for i in ins], **P)
            rs = r if eqn.primitive.multiple_results else [r]
            return [_conc(x) for x in rs]
        av = outs_avals[0]
        if name in CMP or name in ("max", "min"):
            ins = [lift(a) for a in ins]
            if all(_isbool(a.dtype) for a in ins):
                if name in ("max", "min"):
                    return [elementwise(_t(X.or_ if name == "max" else X.and_), ins, av)]
                if name not in ("eq", "ne"):
                    ins = [num(a) for a in ins]
        if _isint(av.dtype) and name in INT_OPS:
            return [self._intop(name, ins, av)]
        if name in EW:
            return [elementwise(EW[name], ins, av)]
        if name in CMP:
            return [elementwise(CMP[name], ins, av)]
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is None:
            raise Unsupported(f"primitive {name}")
        r = m(ins, P, eqn)
        return r if isinstance(r, list) else [r]

    def _call(self, j, ins):
        if hasattr(j, "jaxpr"):
            return self.eval_jaxpr(j.jaxpr, j.consts, ins)
        return self.eval_jaxpr(j, [], ins)

    # ------------------------------------------------------------ control flow
    def _cond(self, branches, ins, eqn):
        idx, ops = ins[0], ins[1:]
        if not is_sym(idx):
            i = int(np.clip(int(idx), 0, len(branches) - 1))
            return self._call(branches[i], ops)
        node = idx.val[()]
        outs = [self._call(b, ops) for b in branches]
        res = []
        for k in range(len(outs[0])):
            cur = lift(outs[-1][k])
            cv, co = cur.val, okarr(cur)
            for bi in range(len(branches) - 2, -1, -1):
                alt = lift(outs[bi][k])
                if bi == 0:
                    g = X.not_(X.lt(X.ZERO, node))
                else:
                    g = X.eq(node, X.C(bi))
                cv, co = _sel(g, alt.val, okarr(alt), cv, co)
            if idx.ok is not None:
                co = _map(lambda o: X.and_(o, idx.ok[()]), co)
            res.append(norm(cv, co, eqn.outvars[k].aval.dtype))
        return res

    def _scan(self, P, ins, eqn):
        if "num_consts" in P:
            nc, ncar = P["num_consts"], P["num_carry"]
        else:
            nc, ncar, _ = (len(x) for x in P["ft_in"].unpack())
        consts, carry, xs = ins[:nc], ins[nc : nc + ncar], ins[nc + ncar :]
        n = P["length"]
        j = P["jaxpr"]
        ys = None
        order = range(n - 1, -1, -1) if P["reverse"] else range(n)
        acc = [[None] * n for _ in range(len(j.jaxpr.outvars) - ncar)]
        for i in order:
            x = [_index0(a, i) for a in xs]
            out = self._call(j, list(consts) + list(carry) + x)
            carry = out[:ncar]
            for a, y in zip(acc, out[ncar:]):
                a[i] = y
        res = list(carry)
        for a, v in zip(acc, eqn.outvars[ncar:]):
            res.append(_stack0(a, v.aval))
        return res

    def _while(self, P, ins, eqn):
        nc, nb = P["cond_nconsts"], P["body_nconsts"]
        cc, bc, carry = ins[:nc], ins[nc : nc + nb], list(ins[nc + nb :])
        for _ in range(400):
            p = self._call(P["cond_jaxpr"], list(cc) + carry)[0]
            if is_sym(p):
                raise Unsupported("while with symbolic trip count")
            if not bool(p):
                return carry
            carry = self._call(P["body_jaxpr"], list(bc) + carry)
        raise Unsupported("while unroll bound")

    # -------------------------------------------------------------- int ops
    def _intop(self, name, ins, av):
        f = INT_OPS[name]
        args = [lift(a) for a in ins]
        shape, vals, oks = bcast(args)
        out = np.empty(shape, dtype=object)
        ok = np.empty(shape, dtype=object)
        info = np.iinfo(av.dtype)

        def wrap(q):
            q = int(q)
            span = info.max - info.min + 1
            return X.C((q - info.min) % span + info.min)

        for i in np.ndindex(shape):
            a = [x[i] for x in vals]
            r = lift_const(lambda *q: wrap(f(*[int(z) for z in q])), *a)
            if r is None:
                if name in EW:
                    r = EW[name](*a)[0]
                else:
                    r = X.uf(name, a, integer=True)
            out[i] = r
            ok[i] = X.and_(*[x[i] for x in oks if x is not None])
        return norm(out, ok, av.dtype)

    # ------------------------------------------------------ structural prims
    def _index_trick(self, eqn, ins, which):
        """run a data-movement primitive on flat indices of the symbolic operands"""
        import jax

        offs, fake, pool_v, pool_o = 0, [], [], []
        for k, a in enumerate(ins):
            if k in which:
                s = lift(a)
                n = s.val.size
                fake.append(np.arange(offs, offs + n, dtype=np.int64).reshape(s.shape))
                pool_v.append(s.val.reshape(-1))
                pool_o.append(okarr(s).reshape(-1))
                offs += n
            else:
                if is_sym(a):
                    raise Unsupported(f"{eqn.primitive.name} with symbolic index")
                fake.append(a)
        P = dict(eqn.params)
        if eqn.primitive.name == "gather":
            P["fill_value"] = -1
        r = np.asarray(eqn.primitive.bind(*[_tojax(f) for f in fake], **P))
        pv = np.concatenate(pool_v) if pool_v else np.array([], dtype=object)
        po = np.concatenate(pool_o)
        out = np.empty(r.shape, dtype=object)
        ok = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            q = int(r[i])
            if q < 0:
                out[i], ok[i] = X.NAN, X.FALSE
            else:
                out[i], ok[i] = pv[q], po[q]
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def _struct(self, s, f, dtype):
        s = lift(s)
        return norm(f(s.val), None if s.ok is None else f(s.ok), dtype)

    def p_slice(self, ins, P, eqn):
        st = P["strides"] or [1] * len(P["start_indices"])
        sl = tuple(slice(a, b, c) for a, b, c in zip(P["start_indices"], P["limit_indices"], st))
        return self._struct(ins[0], lambda a: a[sl], eqn.outvars[0].aval.dtype)

    def p_squeeze(self, ins, P, eqn):
        sh = eqn.outvars[0].aval.shape
        return self._struct(ins[0], lambda a: a.reshape(sh), eqn.outvars[0].aval.dtype)

    p_reshape = p_squeeze
    p_expand_dims = p_squeeze

    def p_broadcast_in_dim(self, ins, P, eqn):
        sh, bd = P["shape"], P["broadcast_dimensions"]

        def f(a):
            new = [1] * len(sh)
            for d, s in zip(bd, a.shape):
                new[d] = s
            return np.broadcast_to(a.reshape(new), sh)

        return self._struct(ins[0], f, eqn.outvars[0].aval.dtype)

    def p_transpose(self, ins, P, eqn):
        return self._struct(
            ins[0], lambda a: np.transpose(a, P["permutation"]), eqn.outvars[0].aval.dtype
        )

    def p_rev(self, ins, P, eqn):
        return self._struct(ins[0], lambda a: np.flip(a, P["dimensions"]), eqn.outvars[0].aval.dtype)

    def p_concatenate(self, ins, P, eqn):
        ss = [lift(a) for a in ins]
        v = np.concatenate([s.val for s in ss], axis=P["dimension"])
        o = np.concatenate([okarr(s) for s in ss], axis=P["dimension"])
        return norm(v, o, eqn.outvars[0].aval.dtype)

    def p_pad(self, ins, P, eqn):
        return self._index_trick(eqn, ins, {0, 1})

    def p_select_n(self, ins, P, eqn):
        c, cases = ins[0], ins[1:]
        dt = eqn.outvars[0].aval.dtype
        if not is_sym(c):
            cc = np.asarray(c)
            cs = [lift(x) for x in cases]
            shape = cs[0].shape
            cc = np.broadcast_to(cc, shape)
            v = np.empty(shape, dtype=object)
            o = np.empty(shape, dtype=object)
            oks = [okarr(s) for s in cs]
            for i in np.ndindex(shape):
                k = int(cc[i])
                v[i], o[i] = cs[k].val[i], oks[k][i]
            return norm(v, o, dt)
        cs = [lift(x) for x in cases]
        shape = cs[0].shape
        cv = np.broadcast_to(c.val, shape)
        co = np.broadcast_to(okarr(c), shape)
        oks = [okarr(s) for s in cs]
        v = np.empty(shape, dtype=object)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            if len(cs) == 2 and cv[i].isbool:
                g = cv[i]
                v[i] = X.ite(g, cs[1].val[i], cs[0].val[i])
                o[i] = X.and_(co[i], X.ite_b(g, oks[1][i], oks[0][i]))
            else:
                vv, oo = cs[-1].val[i], oks[-1][i]
                for k in range(len(cs) - 2, -1, -1):
                    g = X.eq(cv[i], X.C(k))
                    vv = X.ite(g, cs[k].val[i], vv)
                    oo = X.ite_b(g, oks[k][i], oo)
                v[i], o[i] = vv, X.and_(co[i], oo)
        return norm(v, o, dt)

    def p_convert_element_type(self, ins, P, eqn):
        s = lift(ins[0])
        new = P["new_dtype"]
        src_bool = _isbool(s.dtype)

        def f(n):
            if n.isbool and not _isbool(new):
                return X.ite(n, X.ONE, X.ZERO)
            if _isbool(new) and not n.isbool:
                return X.not_(X.eq0(n))
            if _isint(new) and not (_isint(s.dtype) or src_bool):
                if n.op == "ite" or n.op == "c":
                    r = lift_const(lambda q: X.C(int(q)), n)
                    if r is not None:
                        return r
                fl = ew_floor(n)[0]
                return X.ite(X.lt0(n), X.neg(ew_floor(X.neg(n))[0]), fl)
            return n

        if not src_bool and _isint(s.dtype):
            f = narrowing(np.dtype(s.dtype), np.dtype(new)) or f
        return norm(_map(f, s.val), s.ok, new)

    def p_bitcast_convert_type(self, ins, P, eqn):
        s = lift(ins[0])
        new = P["new_dtype"]

        def f(n):
            if n.op == "uf" and n.data == "or" and str(new).startswith("float"):
                return rng_unit(n, new)
            return X.uf(f"bitcast_{new}", [n])

        return norm(_map(f, s.val), s.ok, new)

    def p_integer_pow(self, ins, P, eqn):
        y = P["y"]

        def f(a):
            return X.powi(a, y), (X.TRUE if y >= 0 else X.not_(X.eq0(a)))

        return elementwise(f, ins, eqn.outvars[0].aval)

    def p_and(self, ins, P, eqn):
        if not _isbool(eqn.outvars[0].aval.dtype):
            return self._intop("and", ins, eqn.outvars[0].aval)
        return elementwise(_t(X.and_), ins, eqn.outvars[0].aval)

    def p_or(self, ins, P, eqn):
        if not _isbool(eqn.outvars[0].aval.dtype):
            return self._intop("or", ins, eqn.outvars[0].aval)
        return elementwise(_t(X.or_), ins, eqn.outvars[0].aval)

    def p_xor(self, ins, P, eqn):
        return elementwise(_t(X.xor), ins, eqn.outvars[0].aval)

    def p_not(self, ins, P, eqn):
        return elementwise(_t(X.not_), ins, eqn.outvars[0].aval)

    def p_rem(self, ins, P, eqn):
        return elementwise(_t(lambda a, b: X.uf("rem", [a, b])), ins, eqn.outvars[0].aval)

    def p_nextafter(self, ins, P, eqn):
        return elementwise(_t(lambda a, b: a), ins, eqn.outvars[0].aval)

    # reductions
    def _reduce(self, ins, axes, fn, init, eqn):
        s = lift(ins[0])
        axes = tuple(axes)
        nd = s.val.ndim
        keep = [d for d in range(nd) if d not in axes]
        v = np.transpose(s.val, keep + list(axes)).reshape([s.shape[d] for d in keep] + [-1])
        o = np.transpose(okarr(s), keep + list(axes)).reshape([s.shape[d] for d in keep] + [-1])
        out = np.empty(v.shape[:-1], dtype=object)
        ok = np.empty(v.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = fn(list(v[i]))
            ok[i] = X.and_(*list(o[i]))
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def p_reduce_sum(self, ins, P, eqn):
        return self._reduce(ins, P["axes"], lambda l: X.add(*l), 0, eqn)

    def p_reduce_prod(self, ins, P, eqn):
        return self._reduce(ins, P["axes"], lambda l: X.mul(*l), 1, eqn)

    def p_reduce_max(self, ins, P, eqn):
        if _isbool(lift(ins[0]).dtype):
            return self.p_reduce_or(ins, P, eqn)
        return self._reduce(ins, P["axes"], _fold(X.maximum), None, eqn)

    def p_reduce_min(self, ins, P, eqn):
        if _isbool(lift(ins[0]).dtype):
            return self.p_reduce_and(ins, P, eqn)
        return self._reduce(ins, P["axes"], _fold(X.minimum), None, eqn)

    def p_reduce_and(self, ins, P, eqn):
        return self._reduce(ins, P["axes"], lambda l: X.and_(*l), None, eqn)

    def p_reduce_or(self, ins, P, eqn):
        return self._reduce(ins, P["axes"], lambda l: X.or_(*l), None, eqn)

    def _argm(self, ins, P, eqn, better):
        def fn(l):
            idx, best = X.ZERO, l[0]
            for k in range(1, len(l)):
                g = better(l[k], best)
                idx = X.ite(g, X.C(k), idx)
                best = X.ite(g, l[k], best)
            return idx

        return self._reduce([num(lift(ins[0]))], P["axes"], fn, None, eqn)

    def p_argmax(self, ins, P, eqn):
        return self._argm(ins, P, eqn, lambda a, b: X.lt(b, a))

    def p_argmin(self, ins, P, eqn):
        return self._argm(ins, P, eqn, lambda a, b: X.lt(a, b))

    def _cum(self, ins, P, eqn, fn):
        s = lift(ins[0])
        ax = P["axis"]
        v = np.moveaxis(s.val, ax, 0)
        o = np.moveaxis(okarr(s), ax, 0)
        out, ok = np.empty_like(v), np.empty_like(o)
        n = v.shape[0]
        order = range(n - 1, -1, -1) if P.get("reverse") else range(n)
        pv = po = None
        for i in order:
            if pv is None:
                out[i], ok[i] = v[i], o[i]
            else:
                out[i] = _map2(fn, out[pv], v[i])
                ok[i] = _map2(X.and_, ok[pv], o[i])
            pv = i
        return norm(np.moveaxis(out, 0, ax), np.moveaxis(ok, 0, ax), eqn.outvars[0].aval.dtype)

    def p_cumsum(self, ins, P, eqn):
        return self._cum(ins, P, eqn, X.add)

    def p_cumprod(self, ins, P, eqn):
        return self._cum(ins, P, eqn, X.mul)

    def p_cummax(self, ins, P, eqn):
        return self._cum(ins, P, eqn, X.maximum)

    def p_cummin(self, ins, P, eqn):
        return self._cum(ins, P, eqn, X.minimum)

    def p_dot_general(self, ins, P, eqn):
        a, b = lift(ins[0]), lift(ins[1])
        (ca, cb), (ba, bb) = P["dimension_numbers"]
        fa = [d for d in range(a.val.ndim) if d not in ca and d not in ba]
        fb = [d for d in range(b.val.ndim) if d not in cb and d not in bb]
        av = np.transpose(a.val, list(ba) + fa + list(ca))
        ao = np.transpose(okarr(a), list(ba) + fa + list(ca))
        bv = np.transpose(b.val, list(bb) + fb + list(cb))
        bo = np.transpose(okarr(b), list(bb) + fb + list(cb))
        bs = [a.shape[d] for d in ba]
        fas = [a.shape[d] for d in fa]
        fbs = [b.shape[d] for d in fb]
        K = int(np.prod([a.shape[d] for d in ca])) if ca else 1
        av = av.reshape(bs + fas + [K]); ao = ao.reshape(bs + fas + [K])
        bv = bv.reshape(bs + fbs + [K]); bo = bo.reshape(bs + fbs + [K])
        out = np.empty(bs + fas + fbs, dtype=object)
        ok = np.empty(bs + fas + fbs, dtype=object)
        nb, nfa = len(bs), len(fas)
        for i in np.ndindex(*out.shape) if out.ndim else [()]:
            ib, ia, ic = i[:nb], i[nb : nb + nfa], i[nb + nfa :]
            x, y = av[ib + ia], bv[ib + ic]
            out[i] = X.add(*[X.mul(p, q) for p, q in zip(x, y)])
            ok[i] = X.and_(*list(ao[ib + ia]), *list(bo[ib + ic]))
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    # gather / scatter / dynamic slices
    def p_gather(self, ins, P, eqn):
        op, idx = ins
        if not is_sym(idx):
            return self._index_trick(eqn, ins, {0})
        s = lift(op)
        dn = P["dimension_numbers"]
        k = idx.shape[-1]
        nob = len(eqn.outvars[0].aval.shape)
        batch_out = [d for d in range(nob) if d not in dn.offset_dims]
        # possible values of every index component
        cands = []
        for c in range(k):
            vals = set()
            for n in idx.val[..., c].reshape(-1):
                lv = leaves(n)
                if all(l.op == "c" for _, l in lv):
                    vals |= {int(l.data) for _, l in lv}
                else:
                    d = dn.start_index_map[c]
                    vals |= set(range(-1, s.shape[d] + 1))
            cands.append(sorted(vals))
        out = ok = None
        for combo in itertools.product(*cands):
            ci = np.broadcast_to(np.array(combo, dtype=np.int64), idx.shape)
            sub = Sym(s.val, okarr(s), s.dtype)
            e = self._index_trick_idx(eqn, sub, ci.astype(idx.dtype))
            e = lift(e)
            ev, eo = e.val, okarr(e)
            if out is None:
                out, ok = ev.copy(), eo.copy()
                continue
            for i in np.ndindex(ev.shape):
                bi = tuple(i[d] for d in batch_out)
                g = X.and_(*[X.eq(idx.val[bi + (c,)], X.C(combo[c])) for c in range(k)])
                out[i] = X.ite(g, ev[i], out[i])
                ok[i] = X.ite_b(g, eo[i], ok[i])
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def _index_trick_idx(self, eqn, s, ci):
        return self._index_trick(eqn, [s, ci], {0})

    def p_call_hi_primitive(self, ins, P, eqn):
        p = P["_prim"]
        if type(p).__name__ == "SearchSorted":
            return self._searchsorted(p, ins, eqn)
        import jax

        ex = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
        j = jax.make_jaxpr(p.expand)(*ex)
        return self._call(j, ins)

    def _searchsorted(self, p, ins, eqn):
        """insertion index into a table the caller keeps sorted (contract of searchsorted)"""
        a, q = lift(ins[0]), lift(ins[1])
        b = p.batch_dims
        if len(a.shape) != b + 1 or p.dimension != b:
            raise Unsupported("searchsorted layout")
        out = np.empty(q.shape, dtype=object)
        oka, okq = okarr(a), okarr(q)
        ok = np.empty(q.shape, dtype=object)
        for i in np.ndindex(q.shape):
            row, okr = a.val[i[:b]], oka[i[:b]]
            v = q.val[i]
            r = X.C(len(row))
            for j in range(len(row) - 1, -1, -1):
                stop = X.le(v, row[j]) if p.side == "left" else X.lt(v, row[j])
                r = X.ite(stop, X.C(j), r)
            out[i] = r
            ok[i] = X.and_(okq[i], *okr)
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def p_dynamic_slice(self, ins, P, eqn):
        if any(is_sym(i) for i in ins[1:]):
            s = lift(ins[0])
            syms = [i for i in range(1, len(ins)) if is_sym(ins[i])]
            if len(syms) != 1:
                raise Unsupported("dynamic_slice multi symbolic")
            q = syms[0]
            node = ins[q].val[()]
            hi = s.shape[q - 1] - P["slice_sizes"][q - 1]
            out = ok = None
            for v in range(0, hi + 1):
                ii = list(ins)
                ii[q] = np.asarray(v, dtype=np.int32)
                e = lift(self._index_trick(eqn, ii, {0}))
                if out is None:
                    out, ok = e.val.copy(), okarr(e).copy()
                    continue
                g = X.le(X.C(v), node)
                for i in np.ndindex(out.shape):
                    out[i] = X.ite(g, e.val[i], out[i])
                    ok[i] = X.ite_b(g, okarr(e)[i], ok[i])
            return norm(out, ok, eqn.outvars[0].aval.dtype)
        return self._index_trick(eqn, ins, {0})

    def p_dynamic_update_slice(self, ins, P, eqn):
        return self._index_trick(eqn, ins, {0, 1})

    def p_scatter(self, ins, P, eqn):
        op, idx, upd = ins
        if is_sym(idx):
            raise Unsupported("scatter symbolic index")
        # operand and updates are both data; reuse the real primitive on flat indices
        import jax

        so, su = lift(op), lift(upd)
        no, nu = so.val.size, su.val.size
        fo = np.arange(no, dtype=np.int64).reshape(so.shape)
        fu = np.arange(no, no + nu, dtype=np.int64).reshape(su.shape)
        dnums = P["dimension_numbers"]
        r = np.asarray(
            jax.lax.scatter(
                fo, idx, fu, dnums,
                indices_are_sorted=P["indices_are_sorted"],
                unique_indices=P["unique_indices"], mode=P["mode"],
            )
        )
        pv = np.concatenate([so.val.reshape(-1), su.val.reshape(-1)])
        po = np.concatenate([okarr(so).reshape(-1), okarr(su).reshape(-1)])
        out = pv[r]
        return norm(out.reshape(r.shape), po[r].reshape(r.shape), eqn.outvars[0].aval.dtype)

    def _scatter_acc(self, ins, P, eqn, fn):
        import jax

        op, idx, upd = ins
        if is_sym(idx):
            return self._scatter_acc_sym(ins, P, eqn, fn)
        so, su = lift(op), lift(upd)
        out, ok = so.val.copy(), okarr(so).copy()
        nu = su.val.size
        fo = np.full(so.shape, -1, dtype=np.int64)
        for k in range(nu):
            fu = np.full(nu, -1, dtype=np.int64)
            fu[k] = k
            # scatter-max with one live update gives its target position
            r = np.asarray(
                jax.lax.scatter_max(
                    fo, idx, fu.reshape(su.shape), P["dimension_numbers"],
                    indices_are_sorted=P["indices_are_sorted"],
                    unique_indices=P["unique_indices"], mode=P["mode"],
                )
            )
            for i in zip(*np.nonzero(r == k)):
                out[i] = fn(out[i], su.val.reshape(-1)[k])
                ok[i] = X.and_(ok[i], okarr(su).reshape(-1)[k])
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def _scatter_acc_sym(self, ins, P, eqn, fn):
        """one-dimensional operand, one symbolic position per update"""
        so, si, su = (lift(x) for x in ins)
        d = P["dimension_numbers"]
        if so.val.ndim != 1 or d.update_window_dims or tuple(d.inserted_window_dims) != (0,) or si.val.shape != su.val.shape + (1,):
            raise Unsupported("scatter symbolic index")
        n = so.val.shape[0]
        clip = "CLIP" in str(P["mode"]).upper()
        out, ok = so.val.copy(), okarr(so).copy()
        oi, ou = okarr(si), okarr(su)
        for k in np.ndindex(su.val.shape):
            j = si.val[k + (0,)]
            if clip:
                j = X.maximum(X.ZERO, X.minimum(j, X.C(n - 1)))
            for i in range(n):
                c = X.eq(j, X.C(i))
                out[i] = X.ite(c, fn(out[i], su.val[k]), out[i])
                ok[i] = X.and_(ok[i], oi[k + (0,)], X.or_(X.not_(c), ou[k]))
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def p_scatter_add(self, ins, P, eqn):
        return self._scatter_acc(ins, P, eqn, X.add)

    def p_scatter_mul(self, ins, P, eqn):
        return self._scatter_acc(ins, P, eqn, X.mul)

    def p_split(self, ins, P, eqn):
        s = lift(ins[0])
        out, st = [], 0
        for sz, v in zip(P["sizes"], eqn.outvars):
            sl = [slice(None)] * s.val.ndim
            sl[P["axis"]] = slice(st, st + sz)
            out.append(norm(s.val[tuple(sl)], None if s.ok is None else s.ok[tuple(sl)], v.aval.dtype))
            st += sz
        return out

    def p_unstack(self, ins, P, eqn):
        s = lift(ins[0])
        ax = P["axis"]
        v = np.moveaxis(s.val, ax, 0)
        o = None if s.ok is None else np.moveaxis(s.ok, ax, 0)
        out = []
        for i, w in enumerate(eqn.outvars):
            a = np.empty(v.shape[1:], dtype=object)
            a[...] = v[i]
            oo = None
            if o is not None:
                oo = np.empty(v.shape[1:], dtype=object)
                oo[...] = o[i]
            out.append(norm(a, oo, w.aval.dtype))
        return out

    def p_stack(self, ins, P, eqn):
        ss = [lift(a) for a in ins]
        ax = P.get("axis", 0)
        v = np.stack([s.val for s in ss], axis=ax)
        o = np.stack([okarr(s) for s in ss], axis=ax)
        return norm(v, o, eqn.outvars[0].aval.dtype)

    def p_cholesky(self, ins, P, eqn):
        s = lift(ins[0])
        A, o = s.val, okarr(s)
        n = A.shape[-1]
        out = np.empty(A.shape, dtype=object)
        ok = np.empty(A.shape, dtype=object)
        for b in np.ndindex(A.shape[:-2]):
            M = A[b]
            okb = X.and_(*o[b].reshape(-1))
            L = [[X.ZERO] * n for _ in range(n)]
            good = okb
            for i in range(n):
                for j in range(i + 1):
                    acc = X.sub(M[i, j], X.add(*[X.mul(L[i][k], L[j][k]) for k in range(j)])) if j else M[i, j]
                    if i == j:
                        good = X.and_(good, X.lt0(X.neg(acc)))
                        L[i][j] = X.sqrt(acc)
                    else:
                        L[i][j] = X.div(acc, L[j][j])
            for i in range(n):
                for j in range(n):
                    out[b + (i, j)] = L[i][j]
                    ok[b + (i, j)] = good
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def p_triangular_solve(self, ins, P, eqn):
        sa, sb = lift(ins[0]), lift(ins[1])
        A, B = sa.val, sb.val
        oa, ob = okarr(sa), okarr(sb)
        left, lower, tr, unit = P["left_side"], P["lower"], P["transpose_a"], P["unit_diagonal"]
        out = np.empty(B.shape, dtype=object)
        ok = np.empty(B.shape, dtype=object)
        for b in np.ndindex(A.shape[:-2]):
            M, R = A[b], B[b]
            good = X.and_(*oa[b].reshape(-1), *ob[b].reshape(-1))
            if tr:
                M = M.T
            lo = bool(lower) != bool(tr)
            if not left:  # X M = R  <=>  M^T X^T = R^T
                M, R, lo = M.T, R.T, not lo
            n = M.shape[0]
            Y = np.empty(R.shape, dtype=object)
            for c in range(R.shape[1]):
                for i in range(n) if lo else range(n - 1, -1, -1):
                    ks = range(i) if lo else range(i + 1, n)
                    t = [X.mul(M[i, k], Y[k, c]) for k in ks if M[i, k] is not X.ZERO and Y[k, c] is not X.ZERO]
                    acc = X.sub(R[i, c], X.add(*t)) if t else R[i, c]
                    if not unit:
                        acc = X.div(acc, M[i, i])
                        good = X.and_(good, X.not_(X.eq0(M[i, i])))
                    Y[i, c] = acc
            out[b] = Y if left else Y.T
            ok[b] = good
        return norm(out, ok, eqn.outvars[0].aval.dtype)

    def p_sort(self, ins, P, eqn):
        raise Unsupported("sort")

    def p_iota(self, ins, P, eqn):
        return _conc(eqn.primitive.bind(**P))

    # ------------------------------------------------------------ randomness
    def p_random_wrap(self, ins, P, eqn):
        s = lift(ins[0])
        out = np.empty(s.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            k = s.val[i]
            if k[0].op == "uf" and k[0].data == "unwrap0":
                out[i] = k[0].args[0]
            else:
                out[i] = X.uf("key", list(k))
        return Sym(out, None, eqn.outvars[0].aval.dtype)

    def p_random_unwrap(self, ins, P, eqn):
        s = ins[0]
        sh = eqn.outvars[0].aval.shape
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(s.shape):
            for j in range(sh[-1]):
                out[i + (j,)] = X.uf(f"unwrap{j}", [s.val[i]], integer=True)
        return Sym(out, None, eqn.outvars[0].aval.dtype)

    def p_random_seed(self, ins, P, eqn):
        s = lift(ins[0])
        return Sym(_map(lambda n: X.uf("seed", [n]), s.val), None, eqn.outvars[0].aval.dtype)

    def p_random_split(self, ins, P, eqn):
        s = ins[0]
        sh = tuple(P["shape"])
        out = np.empty(s.shape + sh, dtype=object)
        tot = int(np.prod(sh))
        for i in np.ndindex(s.shape):
            for j, jj in enumerate(np.ndindex(sh)):
                out[i + jj] = X.uf("split", [s.val[i], X.C(tot), X.C(j)])
        return Sym(out, None, eqn.outvars[0].aval.dtype)

    def p_random_fold_in(self, ins, P, eqn):
        s, d = ins[0], lift(ins[1])
        d = np.broadcast_to(d.val, s.shape)
        out = np.empty(s.shape, dtype=object)
        for i in np.ndindex(s.shape):
            out[i] = X.uf("fold_in", [s.val[i], d[i]])
        return Sym(out, None, eqn.outvars[0].aval.dtype)

    def p_random_bits(self, ins, P, eqn):
        s = ins[0]
        sh = tuple(P["shape"])
        out = np.empty(s.shape + sh, dtype=object)
        tot = int(np.prod(sh)) if sh else 1
        for i in np.ndindex(s.shape):
            for j, jj in enumerate(np.ndindex(sh)):
                out[i + jj] = X.uf(
                    f"bits{P['bit_width']}", [s.val[i], X.C(tot), X.C(j)], integer=True
                )
        return Sym(out, None, eqn.outvars[0].aval.dtype)


RNG_PATTERNS = set()


def rng_unit(n, dtype):
    """float built from random mantissa bits: (bits >> s) | exponent-of-one, bitcast"""
    a, b = n.args
    if a.op == "c":
        a, b = b, a
    if (
        a.op == "uf" and a.data == "shift_right_logical"
        and a.args[0].op == "uf" and a.args[0].data.startswith("bits")
        and b.op == "c" and a.args[1].op == "c"
    ):
        RNG_PATTERNS.add((str(dtype), int(a.args[1].data), int(b.data)))
        name = f"rng!{a.args[0].id}"
        DOM[name] = (1.0, 2.0)
        return X.var(name)
    return X.uf(f"bitcast_{dtype}", [n])


INT_OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "neg": lambda a: -a,
    "div": lambda a, b: int(a / b) if b else 0,
    "rem": lambda a, b: int(np.fmod(a, b)) if b else 0,
    "max": max,
    "min": min,
    "abs": abs,
    "sign": lambda a: (a > 0) - (a < 0),
    "clamp": lambda lo, x, hi: min(max(x, lo), hi),
    "shift_right_logical": lambda a, b: a >> b,
    "shift_right_arithmetic": lambda a, b: a >> b,
    "shift_left": lambda a, b: a << b,
    "and": lambda a, b: a & b,
    "or": lambda a, b: a | b,
    "not": lambda a: ~a,
}


def _fold(f):
    def g(l):
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r

    return g


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out


def _map2(f, a, b):
    if not isinstance(a, np.ndarray):
        return f(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i], b[i])
    return out


def _sel(g, av, ao, bv, bo):
    v = np.empty(av.shape, dtype=object)
    o = np.empty(av.shape, dtype=object)
    for i in np.ndindex(av.shape):
        v[i] = X.ite(g, av[i], bv[i])
        o[i] = X.ite_b(g, ao[i], bo[i])
    return v, o


def _conc(x):
    try:
        return np.asarray(x)
    except TypeError:
        return x


def _tojax(x):
    return np.asarray(x)


def _index0(a, i):
    if is_sym(a):
        v = a.val[i]
        o = None if a.ok is None else a.ok[i]
        if not isinstance(v, np.ndarray):
            vv = np.empty((), dtype=object); vv[()] = v; v = vv
            if o is not None:
                oo = np.empty((), dtype=object); oo[()] = o; o = oo
        return norm(v, o, a.dtype)
    return np.asarray(a)[i]


def _stack0(items, aval):
    if not any(is_sym(i) for i in items):
        return np.stack([np.asarray(i) for i in items]) if items else np.zeros(aval.shape, aval.dtype)
    ss = [lift(i) for i in items]
    v = np.empty((len(ss),) + ss[0].shape, dtype=object)
    o = np.empty((len(ss),) + ss[0].shape, dtype=object)
    for i, s in enumerate(ss):
        v[i] = s.val if s.val.ndim else s.val[()]
        o[i] = okarr(s) if s.val.ndim else okarr(s)[()]
    return norm(v, o, aval.dtype)


def symarray(name, shape, dtype="float64", integer=False):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape) if shape else [()]:
        suffix = "" if not shape else "[" + ",".join(map(str, i)) + "]"
        if np.dtype(dtype) == np.bool_:
            out[i] = X.bvar(name + suffix)
        else:
            out[i] = X.var(name + suffix, integer=integer)
    return Sym(out, None, np.dtype(dtype))
