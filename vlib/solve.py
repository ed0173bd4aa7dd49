"""Deciding obligations over expr.Node with z3 (lazy lemmas), cvc5 as second opinion.

A query is  hyps => goal.  Exponentials, logarithms, roots, reciprocals and
univariate piecewise polynomials are atoms.  The negated goal is first asked with
the atoms unconstrained (apart from sign and interval facts); `unsat` is then
already a proof.  Otherwise axioms of the atoms the model got wrong are added and
the query is repeated.  A model whose inputs make the *numerically evaluated*
obligation false is returned as a candidate for replay on the real code.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import expr as X
from .interval import Intervals

STAT = {"twins": 0, "twins_sat": 0, "twins_unknown": 0, "twins_contradictory": 0, "canonical": 0, "queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "lemmas": 0, "maxq": 0.0}


def _q(fr):
    fr = Fraction(fr)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(
        str(fr.numerator)
    )


def _rat(x, up):
    """rational enclosure of a float with a relative slack of 1e-12"""
    x = float(x)
    s = abs(x) * 1e-12 + 1e-300
    return Fraction(x + s if up else x - s)


def check(assertions, timeout_ms, tactic=None):
    t0 = time.time()
    if tactic == "nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for a in assertions:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STAT["queries"] += 1
    STAT["time"] += dt
    STAT["maxq"] = max(STAT["maxq"], dt)
    STAT[str(r)] += 1
    m = None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return str(r), m


# ------------------------------------------------------- univariate piecewise polys
def _lin(n):
    """n = k*y + c with y normalised; returns (y, k, c)"""
    c, t = X._terms(n)
    if not t:
        return None, Fraction(0), c
    lead = min(t.items(), key=lambda kv: kv[0].id)[1]
    y = X._from_terms(Fraction(0), {a: b / lead for a, b in t.items()})
    return y, lead, c


def _padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def _pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            r[i + j] += p * q
    return r


def poly_in(n, y):
    if n.op == "c":
        return [n.data]
    yy, k, c = _lin(n)
    if yy is y:
        return [c, k]
    if n.op == "add":
        r = [n.data[0]]
        for t, co in zip(n.args, n.data[1]):
            p = poly_in(t, y)
            if p is None:
                return None
            r = _padd(r, [co * q for q in p])
        return r
    if n.op == "mul":
        r = [Fraction(1)]
        for b, e in zip(n.args, n.data):
            if e < 0 or e > 12:
                return None
            p = poly_in(b, y)
            if p is None:
                # y may be a product itself, sharing factors
                return _poly_mono(n, y)
            for _ in range(e):
                r = _pmul(r, p)
        return r
    return None


def _poly_mono(n, y):
    """n = coef * y**k where y is a monomial (e.g. y = (x-m)/h)"""
    c, f = X._factor(n)
    cy, fy = X._factor(y)
    if set(f) != set(fy) or not fy:
        return None
    ks = {Fraction(f[b], fy[b]) for b in fy}
    if len(ks) != 1:
        return None
    k = ks.pop()
    if k.denominator != 1 or k < 0:
        return None
    return [Fraction(0)] * int(k) + [c / cy ** int(k)]


_pw_memo = {}


def pwform(n):
    """(y, key) if n is an if-then-else over comparisons of y with constants and
    polynomials in y (degree >= 2 somewhere), else None"""
    if n.op != "ite":
        return None
    if n in _pw_memo:
        return _pw_memo[n]
    _pw_memo[n] = None
    c = n
    y = None
    while c.op == "ite":
        g = c.args[0]
        if g.op != "lt0":
            return None
        yy, _, _ = _lin(g.args[0])
        if yy is None:
            return None
        if y is None:
            y = yy
        elif y is not yy:
            return None
        c = c.args[1] if c.args[1].op == "ite" else c.args[2]
    r = _pw_rec(n, y)
    if r is None:
        return None
    deg, key = r
    if deg < 2:
        return None
    _pw_memo[n] = (y, key)
    return _pw_memo[n]


def _pw_rec(n, y):
    if n.op == "ite":
        g = n.args[0]
        if g.op != "lt0":
            return None
        yy, k, c = _lin(g.args[0])
        if yy is not y:
            return None
        a = _pw_rec(n.args[1], y)
        b = _pw_rec(n.args[2], y)
        if a is None or b is None:
            return None
        return max(a[0], b[0]), ("ite", (k, c), a[1], b[1])
    p = poly_in(n, y)
    if p is None:
        return None
    while len(p) > 1 and p[-1] == 0:
        p = p[:-1]
    return len(p) - 1, ("p", tuple(p))


def _pw_z3(key, t):
    if key[0] == "p":
        r = _q(key[1][-1])
        for c in reversed(key[1][:-1]):
            r = r * t + _q(c)
        return r
    (k, c), a, b = key[1], key[2], key[3]
    return z3.If(_q(k) * t + _q(c) < 0, _pw_z3(a, t), _pw_z3(b, t))


def _pw_dz3(key, t):
    if key[0] == "p":
        d = [i * c for i, c in enumerate(key[1])][1:] or [Fraction(0)]
        return _pw_z3(("p", tuple(d)), t)
    (k, c), a, b = key[1], key[2], key[3]
    return z3.If(_q(k) * t + _q(c) < 0, _pw_dz3(a, t), _pw_dz3(b, t))


def _pw_eval(key, t):
    if key[0] == "p":
        r = 0.0
        for c in reversed(key[1]):
            r = r * t + float(c)
        return r
    (k, c), a, b = key[1], key[2], key[3]
    return _pw_eval(a, t) if float(k) * t + float(c) < 0 else _pw_eval(b, t)


def _pw_breaks(key):
    if key[0] == "p":
        return []
    (k, c), a, b = key[1], key[2], key[3]
    return [-c / k] + _pw_breaks(a) + _pw_breaks(b)


_pw_facts = {}


def pw_facts(key):
    """Solver-proved range and monotonicity of a piecewise polynomial on the whole line."""
    if key in _pw_facts:
        return _pw_facts[key]
    f = {"lo": None, "hi": None, "mono": 0}
    brk = sorted(set(_pw_breaks(key)))
    # pieces as (lo, hi, poly)
    def piece(x):
        k = key
        while k[0] == "ite":
            (a, b) = k[1]
            k = k[2] if a * x + b < 0 else k[3]
        return k[1]

    edges = [None] + brk + [None]
    pieces = []
    for a, b in zip(edges[:-1], edges[1:]):
        if a is None:
            mid = (b - 1) if b is not None else Fraction(0)
        elif b is None:
            mid = a + 1
        else:
            mid = (a + b) / 2
        pieces.append((a, b, piece(mid)))
    tails_const = len(pieces[0][2]) == 1 and len(pieces[-1][2]) == 1

    def pev(p, x):
        r = Fraction(0)
        for c in reversed(p):
            r = r * x + c
        return r

    t = z3.Real("pw!t")
    if brk:
        cont = all(
            pev(pieces[i][2], brk[i]) == pev(pieces[i + 1][2], brk[i]) for i in range(len(brk))
        )
    else:
        cont = True
    f["continuous"] = cont
    for sgn in (1, -1):
        ok = cont
        for a, b, p in pieces:
            if not ok:
                break
            if len(p) == 1:
                continue
            d = tuple(i * c for i, c in enumerate(p))[1:]
            dom = []
            if a is not None:
                dom.append(t >= _q(a))
            if b is not None:
                dom.append(t <= _q(b))
            e = _pw_z3(("p", d), t)
            r, _ = check(dom + [e < 0 if sgn > 0 else e > 0], 5000, "nlsat")
            ok = r == "unsat"
        if ok:
            f["mono"] = sgn
            break
    if tails_const:
        if f["mono"]:
            vals = [pieces[0][2][0], pieces[-1][2][0]]
        else:
            xs = [float(x) for x in brk]
            grid = np.linspace(xs[0] - 1, xs[-1] + 1, 4001)
            v = [_pw_eval(key, g) for g in grid]
            vals = [Fraction(min(v)).limit_denominator(10**6) - Fraction(1, 10**6),
                    Fraction(max(v)).limit_denominator(10**6) + Fraction(1, 10**6)]
            vals += [pieces[0][2][0], pieces[-1][2][0]]
        lo, hi = min(vals), max(vals)
        if f["mono"]:
            f["lo"], f["hi"] = lo, hi
        else:
            e = _pw_z3(key, t)
            if check([e < _q(lo)], 5000, "nlsat")[0] == "unsat":
                f["lo"] = lo
            if check([e > _q(hi)], 5000, "nlsat")[0] == "unsat":
                f["hi"] = hi
    _pw_facts[key] = f
    return f


# -------------------------------------------------------------------- translation
class Trans:
    def __init__(self, dom):
        self.memo = {}
        self.atoms = {}  # node -> z3 var   (exp log sqrt uf pw) ; ('inv', base) -> var
        self.dom = dom
        self.iv = Intervals(dom)
        self.vars = {}
        self.base = []  # always-on facts for atoms/vars created
        self.new = []

    def _fresh(self, key, kind):
        v = z3.Real(f"{kind}!{len(self.atoms)}")
        self.atoms[key] = v
        self.new.append(key)
        return v

    def inv(self, b):
        key = ("inv", b)
        if key in self.atoms:
            return self.atoms[key]
        v = self._fresh(key, "inv")
        lo, hi = self.iv.of(X.powi(b, -1))
        self._bounds(v, lo, hi)
        self.base.append(v != 0)
        return v

    def _bounds(self, v, lo, hi):
        if lo > -math.inf:
            self.base.append(v >= _q(_rat(lo, False)) if lo != 0 else v >= 0)
        if hi < math.inf:
            self.base.append(v <= _q(_rat(hi, True)) if hi != 0 else v <= 0)

    def __call__(self, n):
        for m in self._order(n):
            if m not in self.memo:
                self.memo[m] = self._tr(m)
        return self.memo[n]

    def _kids(self, n):
        if n.op in ("exp", "log", "sqrt", "uf"):
            return ()
        if n.op == "mul":
            return tuple(b for b, e in zip(n.args, n.data) if e > 0)
        if n.op == "ite" and pwform(n) is not None:
            return ()
        return n.args

    def _order(self, root):
        seen, out, st = set(), [], [(root, False)]
        while st:
            n, d = st.pop()
            if d:
                out.append(n)
                continue
            if n.id in seen or n in self.memo:
                continue
            seen.add(n.id)
            st.append((n, True))
            for a in self._kids(n):
                st.append((a, False))
        return out

    def _tr(self, n):
        op, M = n.op, self.memo
        if op == "c":
            return _q(n.data)
        if op == "v":
            v = z3.Int(n.data) if n.integer else z3.Real(n.data)
            self.vars[n.data] = v
            lo, hi = self.dom.get(n.data, (-math.inf, math.inf))
            if lo > -math.inf:
                self.base.append(v >= _q(Fraction(lo)) if not n.integer else v >= int(lo))
            if hi < math.inf:
                self.base.append(v <= _q(Fraction(hi)) if not n.integer else v <= int(hi))
            return z3.ToReal(v) if n.integer else v
        if op == "bv":
            v = z3.Bool(n.data)
            self.vars[n.data] = v
            return v
        if op == "add":
            const, co = n.data
            parts = [M[a] * _q(c) if c != 1 else M[a] for a, c in zip(n.args, co)]
            if const != 0:
                parts.append(_q(const))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mul":
            r = None
            for b, e in zip(n.args, n.data):
                f = M[b] if e > 0 else self.inv(b)
                for _ in range(abs(e)):
                    r = f if r is None else r * f
            return r
        if op == "ite":
            if pwform(n) is not None:
                v = self._fresh(n, "pw")
                y, key = pwform(n)
                f = pw_facts(key)
                if f["lo"] is not None:
                    self.base.append(v >= _q(f["lo"]))
                if f["hi"] is not None:
                    self.base.append(v <= _q(f["hi"]))
                return v
            return z3.If(M[n.args[0]], M[n.args[1]], M[n.args[2]])
        if op in ("exp", "log", "sqrt", "uf"):
            v = self._fresh(n, op)
            lo, hi = self.iv.of(n)
            self._bounds(v, lo, hi)
            if op == "exp":
                self.base.append(v > 0)
            return v
        if op in ("inf", "ninf", "nan"):
            return self._fresh(n, op)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "lt0":
            return M[n.args[0]] < 0
        if op == "eq0":
            return M[n.args[0]] == 0
        if op == "not":
            return z3.Not(M[n.args[0]])
        if op == "and":
            return z3.And(*[M[a] for a in n.args])
        raise NotImplementedError(op)


def _exp_enc(t):
    """rational (lower, upper) bounds of exp(t); upper is None where not representable"""
    t = float(t)
    if t < -700:
        return Fraction(0), _rat(math.exp(-700), True)
    if t > 700:
        return _rat(math.exp(700), False), None
    v = math.exp(t)
    return _rat(v, False), _rat(v, True)


class Lemmas:
    """axioms for atoms, added on demand"""

    def __init__(self, T):
        self.T = T
        self.done = set()
        self.out = []

    def _add(self, *cs):
        self.out.extend(cs)
        STAT["lemmas"] += len(cs)

    def define(self, key):
        """generic axioms of the atom"""
        if key in self.done:
            return False
        self.done.add(key)
        T = self.T
        v = T.atoms[key]
        if isinstance(key, tuple):
            b = T(key[1])
            self._add(v * b == 1, (b > 0) == (v > 0))
            self._add(z3.Implies(b >= 1, v <= 1))
            # order between reciprocals
            for k2 in list(self.done):
                if isinstance(k2, tuple) and k2 is not key and len(self.done) < 40:
                    b2, v2 = T(k2[1]), T.atoms[k2]
                    self._add(
                        z3.Implies(
                            z3.And(b > 0, b2 > 0),
                            z3.And((b <= b2) == (v >= v2), (b2 <= b) == (v2 >= v)),
                        )
                    )
            return True
        if key.op == "exp":
            t = T(key.args[0])
            if key.args[0].op == "c":
                lo, hi = _exp_enc(key.args[0].data)
                self._add(v >= _q(lo), *([v <= _q(hi)] if hi is not None else []))
            self._add(
                v >= 1 + t,
                (t <= 0) == (v <= 1),
                (t >= 0) == (v >= 1),
                z3.Implies(t < 1, v * (1 - t) <= 1),
            )
            for k2 in list(self.done):
                if not isinstance(k2, tuple) and k2.op == "exp" and k2 is not key:
                    t2, v2 = T(k2.args[0]), T.atoms[k2]
                    self._add((t <= t2) == (v <= v2), (t2 <= t) == (v2 <= v))
                    s = X.add(key.args[0], k2.args[0])
                    if s.op == "c":
                        lo, hi = _exp_enc(s.data)
                        if s.data == 0:
                            self._add(v * v2 == 1)
                        else:
                            self._add(v * v2 >= _q(lo))
                            if hi is not None:
                                self._add(v * v2 <= _q(hi))
            return True
        if key.op == "log":
            a = T(key.args[0])
            self._add(
                z3.Implies(a > 0, z3.And(v <= a - 1, v * a >= a - 1, (a >= 1) == (v >= 0)))
            )
            for k2 in list(self.done):
                if not isinstance(k2, tuple) and k2.op == "log" and k2 is not key:
                    a2, v2 = T(k2.args[0]), T.atoms[k2]
                    self._add(z3.Implies(z3.And(a > 0, a2 > 0), z3.And((a <= a2) == (v <= v2), (a2 <= a) == (v2 <= v))))
            for k2, v2 in list(T.atoms.items()):
                if not isinstance(k2, tuple) and k2.op == "exp":
                    t2 = T(k2.args[0])
                    self._add(z3.Implies(a > 0, z3.And((t2 <= v) == (v2 <= a), (v <= t2) == (a <= v2))))
            return True
        if key.op == "sqrt":
            a = T(key.args[0])
            self._add(z3.Implies(a >= 0, z3.And(v >= 0, v * v == a)))
            return True
        if key.op == "ite":
            y, k = pwform(key)
            t = T(y)
            f = pw_facts(k)
            if f["mono"]:
                for k2 in list(self.done):
                    if not isinstance(k2, tuple) and k2.op == "ite":
                        y2, kk2 = pwform(k2)
                        if kk2 == k:
                            t2, v2 = T(y2), T.atoms[k2]
                            if f["mono"] > 0:
                                self._add(z3.Implies(t <= t2, v <= v2), z3.Implies(t >= t2, v >= v2))
                            else:
                                self._add(z3.Implies(t <= t2, v >= v2), z3.Implies(t >= t2, v <= v2))
            # constant tails
            kk = k
            b = sorted(set(_pw_breaks(k)))
            for side, bb in ((-1, b[0]), (1, b[-1])):
                vv = _piece_const(k, bb, side)
                if vv is not None:
                    self._add(z3.Implies(t < _q(bb) if side < 0 else t > _q(bb), v == _q(vv)))
            return True
        if key.op == "uf":
            if key.data in ("floor",):
                a = T(key.args[0])
                self._add(v <= a, a < v + 1, z3.IsInt(v))
            elif key.data == "erf_inv":
                a = T(key.args[0])
                self._add((a > 0) == (v > 0), (a < 0) == (v < 0))
            for k2 in list(self.done):
                if (
                    not isinstance(k2, tuple) and k2.op == "uf" and k2.data == key.data
                    and k2 is not key and len(k2.args) == len(key.args) and key.data != "erf_inv"
                ):
                    self._add(
                        z3.Implies(
                            z3.And(*[T(p) == T(q) for p, q in zip(key.args, k2.args)]),
                            v == T.atoms[k2],
                        )
                    )
            return True
        return False

    def full_pw(self, key):
        k = ("pwdef", key)
        if k in self.done:
            return False
        self.done.add(k)
        y, pk = pwform(key)
        self._add(self.T.atoms[key] == _pw_z3(pk, self.T(y)))
        return True

    def point(self, key, x0):
        """refine exp/log near a model value"""
        T = self.T
        v = T.atoms[key]
        if abs(x0) > 1e15:
            return
        x0 = Fraction(x0).limit_denominator(10**6)
        if key.op == "exp":
            t = T(key.args[0])
            if abs(x0) > 690:
                return
            lo, hi = _exp_enc(x0)
            q = _q(x0)
            self._add(v >= _q(lo) * (1 + t - q) if lo > 0 else v > 0)
            self._add(z3.Implies(t <= q, v <= _q(hi)), z3.Implies(t >= q, v >= _q(lo)))
            # secant on [x0-d, x0+d]
            for d in (Fraction(1, 4), Fraction(2)):
                a, b = x0 - d, x0 + d
                _, ha = _exp_enc(a)
                _, hb = _exp_enc(b)
                self._add(
                    z3.Implies(
                        z3.And(t >= _q(a), t <= _q(b)),
                        v * _q(b - a) <= _q(ha) * (_q(b) - t) + _q(hb) * (t - _q(a)),
                    )
                )
        elif key.op == "log" and x0 > 0:
            a = T(key.args[0])
            l = math.log(x0)
            lo, hi = Fraction(l - 1e-12 - abs(l) * 1e-12), Fraction(l + 1e-12 + abs(l) * 1e-12)
            q = _q(x0)
            self._add(z3.Implies(a > 0, v <= _q(hi) + (a - q) / q))
            self._add(z3.Implies(a >= q, v >= _q(lo)))
            self._add(z3.Implies(z3.And(a > 0, a <= q), v <= _q(hi)))
            b2 = x0 * 2
            l2 = math.log(b2)
            lo2 = Fraction(l2 - 1e-12 - abs(l2) * 1e-12)
            self._add(
                z3.Implies(
                    z3.And(a >= q, a <= _q(b2)),
                    v * q >= _q(lo) * (_q(b2) - a) + _q(lo2) * (a - q),
                )
            )


def _piece_const(key, b, side):
    x = b + side
    k = key
    # beyond the extreme break: single piece
    while k[0] == "ite":
        (p, c) = k[1]
        k = k[2] if p * x + c < 0 else k[3]
    return k[1][0] if len(k[1]) == 1 else None


# -------------------------------------------------------------- denominators cleared
def clear(n, memo=None):
    """n = num / prod(den factors); returns (num node, {base: exp>0})"""
    if memo is None:
        memo = {}
    for m in X.postorder([n]):
        if m in memo or m.isbool:
            continue
        if m.op == "add":
            const, co = m.data
            parts = [memo[a] for a in m.args]
            lcm = {}
            for _, d in parts:
                for b, e in d.items():
                    lcm[b] = max(lcm.get(b, 0), e)
            terms = []
            if const != 0:
                terms.append(X._mono(const, dict(lcm)))
            for (num, d), c in zip(parts, co):
                r = {b: e - d.get(b, 0) for b, e in lcm.items()}
                terms.append(X.mul(X.C(c), num, X._mono(Fraction(1), r)))
            memo[m] = (X.add(*terms), lcm)
        elif m.op == "mul":
            num, den = X.ONE, {}
            for b, e in zip(m.args, m.data):
                bn, bd = memo[b]
                if e > 0:
                    num = X.mul(num, X.powi(bn, e))
                    for k, v in bd.items():
                        den[k] = den.get(k, 0) + v * e
                else:
                    num = X.mul(num, X._mono(Fraction(1), {k: v * -e for k, v in bd.items()}))
                    c, f = X._factor(bn)
                    num = X.mul(num, X.C(c**e))
                    for k, v in f.items():
                        if k.op == "exp":
                            num = X.mul(num, X.powi(k, v * e))
                        else:
                            den[k] = den.get(k, 0) + v * -e
            # cancel
            c, f = X._factor(num)
            f = dict(f)
            for k in list(den):
                if k in f and f[k] > 0:
                    s = min(f[k], den[k])
                    f[k] -= s
                    den[k] -= s
                    if den[k] == 0:
                        del den[k]
            for k in list(den):
                if den[k] < 0:
                    f[k] = f.get(k, 0) - den[k]
                    del den[k]
            num = X._mono(c, f)
            # positive powers only
            memo[m] = (num, den)
        elif m.op == "ite":
            (an, ad), (bn, bd) = memo[m.args[1]], memo[m.args[2]]
            lcm = dict(ad)
            for b, e in bd.items():
                lcm[b] = max(lcm.get(b, 0), e)
            ra = {b: e - ad.get(b, 0) for b, e in lcm.items()}
            rb = {b: e - bd.get(b, 0) for b, e in lcm.items()}
            memo[m] = (
                X.ite(
                    m.args[0],
                    X.mul(an, X._mono(Fraction(1), ra)),
                    X.mul(bn, X._mono(Fraction(1), rb)),
                ),
                lcm,
            )
        else:
            memo[m] = (m, {})
    return memo[n]


# --------------------------------------------------------------------------- prove
class TooBig(Exception):
    pass


def expand(n, cap=30000, memo=None):
    """n as a polynomial {monomial: coefficient}: products of sums multiplied out, the exponential of a
    sum taken as the product of the exponentials of its terms (rational powers of one atom per term)"""
    if memo is None:
        memo = {}
    for m in X.postorder([n]):
        if m.id in memo or m.isbool:
            continue
        if m.op == "c":
            r = {(): _int(m.data)} if m.data else {}
        elif m.op == "add":
            r = {(): _int(m.data[0])} if m.data[0] else {}
            for a, c in zip(m.args, m.data[1]):
                c = _int(c)
                for k, v in memo[a.id].items():
                    w = r.get(k, 0) + c * v
                    if w:
                        r[k] = w
                    else:
                        r.pop(k, None)
        elif m.op == "mul":
            r = {(): 1}
            for b, e in zip(m.args, m.data):
                f = memo[b.id]
                if e < 0:
                    if len(f) == 1:
                        (k, v), = f.items()
                        f = {tuple((a, -x) for a, x in k): Fraction(1) / v}
                    else:
                        f = {((b.id, -1),): 1}
                for _ in range(abs(e)):
                    r = _pmul_d(r, f, cap)
        elif m.op == "exp":
            const, t = X._terms(m.args[0])
            k = [_expo(-a.id - 1, c) for a, c in t.items()]
            if const:
                k.append((-1 << 60, const))
            r = {tuple(sorted(k)): 1}
        else:
            r = {((m.id, 1),): 1}
        if len(r) > cap:
            raise TooBig
        memo[m.id] = r
    return memo[n.id]


def _int(c):
    return int(c) if c.denominator == 1 else c


def _expo(a, c):
    return a, _int(c)


def _pmul_d(a, b, cap):
    if len(a) * len(b) > 20 * cap:
        raise TooBig
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            if not k1:
                k = k2
            elif not k2:
                k = k1
            else:
                d = dict(k1)
                for x, e in k2:
                    y = d.get(x, 0) + e
                    if y:
                        d[x] = y
                    else:
                        d.pop(x, None)
                k = tuple(sorted(d.items()))
            w = r.get(k, 0) + v1 * v2
            if w:
                r[k] = w
            else:
                r.pop(k, None)
    return r


class Result:
    def __init__(self, status, env=None, note="", rounds=0):
        self.status, self.env, self.note, self.rounds = status, env, note, rounds


def _val(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(r)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(r.as_fraction())
    if z3.is_algebraic_value(r):
        return float(r.approx(20).as_fraction())
    return 0.0


def numeric_cex(env, hyps, viol, n=1):
    """mask of environments where all hyps hold and viol (a node predicate pair) is true"""
    roots = list(hyps)
    vals = X.evaluate(roots, env) if roots else []
    ok = np.ones(n, dtype=bool)
    for v in vals:
        ok &= np.broadcast_to(np.asarray(v, dtype=bool), (n,))
    bad = viol(env, n)
    return ok & bad


def numeric_cex_slow(env, hyps, viol, n):
    return numeric_cex(env, hyps, viol, n)


def prove(hyps, goal, dom, viol, sampler=None, budget=20.0, hint_envs=None, max_rounds=14):
    """hyps: list of boolean nodes; goal: boolean node.
    viol(env, n) -> boolean mask: does the numerically evaluated goal fail by a margin?
    sampler(n, env_partial) -> env dict of arrays."""
    t_end = time.time() + budget
    if goal is X.TRUE:
        STAT["canonical"] += 1
        return Result("proved", note="canonical")
    T = Trans(dom)
    L = Lemmas(T)
    # equality: try with cleared denominators, atoms free
    if goal.op == "eq0":
        num, den = clear(goal.args[0])
        if num is X.ZERO or (num.op == "c" and num.data == 0):
            STAT["canonical"] += 1
            return Result("proved", note="cleared")
        try:
            if not expand(num):
                STAT["canonical"] += 1
                return Result("proved", note="expanded")
        except TooBig:
            pass
        T0 = Trans(dom)
        e = T0(num)
        r, m = check([e != 0] + T0.base[:0], min(4000, budget * 300), "nlsat")
        if r == "unsat":
            return Result("proved", note="polynomial identity")
        if r == "unknown":
            r, m = check([e != 0], min(6000, budget * 400))
            if r == "unsat":
                return Result("proved", note="polynomial identity")
    # hints: solver-independent search for a candidate point
    if sampler is not None:
        for env, n in (hint_envs if hint_envs is not None else [sampler()]):
            bad = numeric_cex(env, hyps, viol, n)
            if bad.any():
                i = int(np.argmax(bad))
                return Result("cex", {k: _pick(v, i) for k, v in env.items()}, "hint")
    neg = X.not_(goal)
    rounds = 0
    note = ""
    slow = 0
    while rounds < max_rounds and time.time() < t_end:
        rounds += 1
        H = [T(h) for h in hyps]
        G = T(neg)
        left = max(1.0, t_end - time.time())
        asr = H + [G] + T.base + L.out
        r, m = check(asr, min(left, 8.0) * 1000)
        if r == "unknown":
            r, m = check(asr, min(left, 8.0) * 1000, "nlsat")
        if r == "unsat":
            # vacuity twin: without the negated goal the same facts must not be contradictory
            r2, _ = check(H + T.base + L.out, 1000)
            STAT["twins"] += 1
            STAT["twins_" + ("contradictory" if r2 == "unsat" else r2)] += 1
            if r2 == "unsat":
                return Result("unknown", note="hypotheses contradictory", rounds=rounds)
            return Result("proved", rounds=rounds, note=f"{len(L.out)} lemmas")
        if r == "unknown":
            note = "solver unknown"
            # try with more definitions once, else stop
            slow += 1
            grew = False
            for key in list(T.atoms):
                if key not in L.done and not (not isinstance(key, tuple) and key.op in ("inf", "ninf", "nan")):
                    grew |= L.define(key)
            if not grew or slow > 3:
                break
            continue
        # numeric check at the model's inputs
        fixed = {k: _val(m, v) for k, v in T.vars.items()}
        if sampler is not None:
            env, n = sampler(fixed)
            bad = numeric_cex(env, hyps, viol, n)
            if bad.any():
                i = int(np.argmax(bad))
                return Result("cex", {k: _pick(v, i) for k, v in env.items()}, "model", rounds)
        # refine: axioms for inconsistent atoms
        grew = False
        keys = list(T.atoms)
        for key in keys:
            if key not in L.done:
                if not isinstance(key, tuple) and key.op in ("inf", "ninf", "nan"):
                    continue
                grew |= L.define(key)
        if not grew:
            for key in keys:
                if isinstance(key, tuple):
                    continue
                if key.op in ("exp", "log"):
                    x0 = _val(m, T(key.args[0]))
                    y0 = _val(m, T.atoms[key])
                    try:
                        tv = math.exp(x0) if key.op == "exp" else (math.log(x0) if x0 > 0 else None)
                    except OverflowError:
                        tv = None
                    if tv is not None and abs(tv - y0) > 1e-9 * (1 + abs(tv)):
                        before = len(L.out)
                        L.point(key, x0)
                        if key.op == "exp" and y0 > 0:
                            L.point(key, math.log(y0))
                        grew |= len(L.out) > before
                elif key.op == "ite":
                    y, pk = pwform(key)
                    t0, v0 = _val(m, T(y)), _val(m, T.atoms[key])
                    if abs(_pw_eval(pk, t0) - v0) > 1e-9 * (1 + abs(v0)):
                        grew |= L.full_pw(key)
        if not grew:
            note = "no refinement left"
            break
    return Result("unknown", note=note, rounds=rounds)


def _pick(v, i):
    v = np.asarray(v)
    return v[i].item() if v.ndim else v.item()
