"""Hash-consed symbolic expressions over exact reals and booleans.

Real nodes
  c  Fraction                      constant
  v  name                          free variable (real, or integer-valued)
  add (const, ((node, coef), ..))  linear combination
  mul ((base, int exponent), ..)   monomial, exponents may be negative
  exp, log, sqrt (arg)             transcendental / algebraic atoms
  ite (cond, a, b)
  uf (name, args)                  uninterpreted / opaque operation
  inf, ninf, nan                   IEEE specials that only appear as constants
Boolean nodes
  true false bv(name) lt0(e) eq0(e) not and or
"""
from fractions import Fraction
import math

_TAB = {}
_NODES = []


class Node:
    __slots__ = ("op", "args", "data", "id", "isbool", "integer", "_h")

    def __repr__(self):
        return f"<{self.id}:{to_str(self, 3)}>"

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, args=(), data=None, isbool=False, integer=False):
    key = (op, tuple(a.id for a in args), data, isbool)
    n = _TAB.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.data, n.isbool, n.integer = op, tuple(args), data, isbool, integer
        n.id = len(_NODES)
        _NODES.append(n)
        _TAB[key] = n
    return n


F0, F1 = Fraction(0), Fraction(1)
LN10 = Fraction(2302585092994046, 10**15)
INV_LN10 = 1 / LN10
LN2F = Fraction(6931471805599453, 10**16)

_SPECIAL = {
    2.302585092994046: LN10,
    0.4342944819032518: INV_LN10,
    0.43429448190325176: INV_LN10,
    2.302585092994045901: LN10,
}
_snap_cache = {}


def snap(x):
    """Nearest 'intended' rational of a binary64 constant (relative error <= 2 ulp)."""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 1e18:
        r = Fraction(int(x))
    elif abs(x) in _SPECIAL:
        r = _SPECIAL[abs(x)] * (1 if x > 0 else -1)
    else:
        s = repr(x)
        mant = s.lower().split("e")[0].replace("-", "").replace(".", "").strip("0")
        if len(mant) <= 12:
            r = Fraction(s)
        else:
            r = None
            ex = Fraction(x)
            for den in (100, 2000, 60000):
                q = ex.limit_denominator(den)
                if q != 0 and abs(q - ex) <= abs(ex) * Fraction(5, 10**16):
                    r = q
                    break
            if r is None:
                # decimals that lost an ulp, e.g. 0.30000000000000004
                for nd in range(1, 13):
                    q = Fraction(f"{x:.{nd}e}")
                    if abs(q - ex) <= abs(ex) * Fraction(5, 10**16):
                        r = q
                        break
            if r is None:
                # two constants that differ only by rounding are one constant
                k = x
                for _ in range(4):
                    k = math.nextafter(k, math.inf)
                    if k in _snap_cache:
                        r = _snap_cache[k]
                k = x
                for _ in range(4):
                    k = math.nextafter(k, -math.inf)
                    if r is None and k in _snap_cache:
                        r = _snap_cache[k]
                if r is None:
                    r = Fraction(s)
    _snap_cache[x] = r
    return r


def C(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
    return _mk("c", (), snap(x))


ZERO = _mk("c", (), F0)
ONE = _mk("c", (), F1)
INF = _mk("inf")
NINF = _mk("ninf")
NAN = _mk("nan")
TRUE = _mk("true", isbool=True)
FALSE = _mk("false", isbool=True)


def var(name, integer=False):
    n = _mk("v", (), name)
    if integer:
        n.integer = True
    return n


def bvar(name):
    return _mk("bv", (), name, isbool=True)


def is_special(n):
    return n.op in ("inf", "ninf", "nan")


# ---------------------------------------------------------------- arithmetic
def _terms(n):
    """(const, dict node->coef)"""
    if n.op == "c":
        return n.data, {}
    if n.op == "add":
        return n.data[0], dict(zip(n.args, n.data[1]))
    return F0, {n: F1}


def _from_terms(const, d):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return _mk("c", (), const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    return _mk("add", tuple(k for k, _ in items), (const, tuple(v for _, v in items)))


def _pull_ite_const(fn, n):
    return None


def add(*xs):
    const = F0
    d = {}
    spec = None
    for x in xs:
        if is_special(x):
            if spec is not None and spec is not x:
                return NAN
            spec = x
            continue
        c, t = _terms(x)
        const += c
        for k, v in t.items():
            d[k] = d.get(k, F0) + v
    if spec is not None:
        return spec
    return _from_terms(const, d)


def scale(x, q):
    q = Fraction(q)
    if q == 1:
        return x
    if is_special(x):
        if x is NAN or q == 0:
            return NAN
        return x if q > 0 else (NINF if x is INF else INF)
    if q == 0:
        return ZERO
    c, t = _terms(x)
    return _from_terms(c * q, {k: v * q for k, v in t.items()})


def neg(x):
    return scale(x, -1)


def sub(a, b):
    return add(a, neg(b))


def _factor(n):
    """n = coef * prod(base**e); returns coef, dict."""
    if n.op == "c":
        return n.data, {}
    if n.op == "mul":
        return F1, dict(zip(n.args, n.data))
    if n.op == "add":
        const, coefs = n.data
        if const == 0 and len(n.args) == 1:
            c, f = _factor(n.args[0])
            return c * coefs[0], f
        # extract the monomial content shared by all terms? keep simple: content = leading coef
        lead = coefs[0]
        if lead != 1:
            base = scale(n, 1 / lead)
            return lead, {base: 1}
        return F1, {n: 1}
    return F1, {n: 1}


def _mono(coef, d):
    """coef * prod base**e, merging exponentials."""
    if coef == 0:
        return ZERO
    earg = None
    rest = {}
    for b, e in d.items():
        if e == 0:
            continue
        if b.op == "exp":
            t = scale(b.args[0], e)
            earg = t if earg is None else add(earg, t)
        elif b.op == "sqrt" and abs(e) >= 2:
            q, r = divmod(e, 2)
            c2, f2 = _factor(b.args[0])
            coef = coef * c2**q
            for bb, ee in f2.items():
                rest[bb] = rest.get(bb, 0) + ee * q
            if r:
                rest[b] = rest.get(b, 0) + r
        else:
            rest[b] = rest.get(b, 0) + e
    if earg is not None:
        ex = exp(earg)
        if ex.op == "exp":
            rest[ex] = rest.get(ex, 0) + 1
        else:
            c2, f2 = _factor(ex)
            coef = coef * c2
            again = False
            for bb, ee in f2.items():
                if bb.op == "exp" and any(k.op == "exp" for k in rest):
                    again = True
                rest[bb] = rest.get(bb, 0) + ee
            if again:
                return _mono(coef, rest)
    items = [(b, e) for b, e in rest.items() if e != 0]
    if not items:
        return _mk("c", (), coef)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        items.sort(key=lambda kv: kv[0].id)
        m = _mk("mul", tuple(b for b, _ in items), tuple(e for _, e in items))
    return scale(m, coef)


def mul(*xs):
    coef = F1
    d = {}
    spec = None
    for x in xs:
        if is_special(x):
            if x is NAN:
                return NAN
            spec = x if spec is None else NAN
            continue
        c, f = _factor(x)
        coef *= c
        for b, e in f.items():
            d[b] = d.get(b, 0) + e
    if spec is not None:
        if spec is NAN or d or coef == 0:
            return NAN if not d else uf("infmul", [spec, _mono(coef, d)])
        return spec if coef > 0 else (NINF if spec is INF else INF)
    # 0/1-valued ite times anything: push multiplication inside constant-branch ites
    if len(d) > 1 or coef != 1:
        for b, e in d.items():
            if b.op == "ite" and e == 1 and b.args[1].op == "c" and b.args[2].op == "c" and (
                b.args[1].data == 0 or b.args[2].data == 0
            ):
                rest = dict(d)
                del rest[b]
                return ite(
                    b.args[0],
                    _mono(coef * b.args[1].data, rest),
                    _mono(coef * b.args[2].data, rest),
                )
    return _mono(coef, d)


def powi(x, n):
    if n == 0:
        return ONE
    if is_special(x):
        if x is NAN:
            return NAN
        if n < 0:
            return ZERO
        return x if (x is INF or n % 2) else INF
    c, f = _factor(x)
    if c == 0:
        if n < 0:
            return NAN
        return ZERO
    return _mono(c**n, {b: e * n for b, e in f.items()})


def div(a, b):
    return mul(a, powi(b, -1))


def exp(a):
    if is_special(a):
        return {"inf": INF, "ninf": ZERO, "nan": NAN}[a.op]
    if a.op == "c" and a.data == 0:
        return ONE
    if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c" or is_special(a.args[2])):
        return ite(a.args[0], exp(a.args[1]), exp(a.args[2]))
    const, t = _terms(a)
    # 10**n constants: exp(n*LN10) with integer n
    coef = F1
    q = const / LN10
    if q != 0 and q.denominator == 1 and abs(q) < 400:
        coef = Fraction(10) ** int(q)
        const = F0
    rest = {}
    facs = {}
    for k, v in t.items():
        if k.op == "log" and v.denominator == 1:
            c2, f2 = _factor(k.args[0])
            coef *= c2 ** int(v)
            for bb, ee in f2.items():
                facs[bb] = facs.get(bb, 0) + ee * int(v)
        elif k.op == "log" and (2 * v).denominator == 1 and False:
            pass
        else:
            rest[k] = v
    if coef == 1 and not facs:
        return _mk("exp", (a,))
    core = _from_terms(const, rest)
    if core.op == "c" and core.data == 0:
        return _mono(coef, facs)
    e = _mk("exp", (core,))
    facs[e] = facs.get(e, 0) + 1
    return _mono(coef, facs)


def log(a):
    if is_special(a):
        return {"inf": INF, "ninf": NAN, "nan": NAN}[a.op]
    if a.op == "c":
        if a.data == 1:
            return ZERO
        if a.data == 0:
            return NINF
        if a.data > 0:
            # exact powers of ten
            q = a.data
            n = 0
            if q.numerator == 1 or q.denominator == 1:
                m = q.denominator if q.numerator == 1 else q.numerator
                k = 0
                while m % 10 == 0:
                    m //= 10
                    k += 1
                if m == 1:
                    return C(LN10 * (k if q.denominator == 1 else -k))
            return _mk("log", (a,))
        return NAN
    if a.op == "exp":
        return a.args[0]
    if a.op == "ite":
        x, y = a.args[1], a.args[2]
        if (x.op in ("c", "exp") or y.op in ("c", "exp")):
            return ite(a.args[0], log(x), log(y))
    c, f = _factor(a)
    if c > 0 and (c != 1 or any(b.op == "exp" for b in f)):
        parts = [log(C(c))] if c != 1 else []
        rest = {}
        for b, e in f.items():
            if b.op == "exp":
                parts.append(scale(b.args[0], e))
            else:
                rest[b] = e
        if rest:
            m = _mono(F1, rest)
            parts.append(_mk("log", (m,)) if m.op != "c" else log(m))
        return add(*parts)
    return _mk("log", (a,))


def sqrt(a):
    if is_special(a):
        return a
    if a.op == "c" and a.data >= 0:
        n, d = a.data.numerator, a.data.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return C(Fraction(rn, rd))
    c, f = _factor(a)
    if f and c > 0 and all(e % 2 == 0 for e in f.values()):
        root = _mono(F1, {b: e // 2 for b, e in f.items()})
        return mul(sqrt(C(c)), absv(root))
    return _mk("sqrt", (a,))


def absv(a):
    return ite(lt0(a), neg(a), a)


def uf(name, args, integer=False):
    n = _mk("uf", tuple(args), name)
    if integer:
        n.integer = True
    return n


# ------------------------------------------------------------------ booleans
def _sign_known(e):
    """cheap syntactic sign: 1 strictly positive, -1 strictly negative, 0 unknown."""
    if e.op == "c":
        return (e.data > 0) - (e.data < 0)
    if e.op == "exp":
        return 1
    if e.op == "mul":
        s = 1
        for b, x in zip(e.args, e.data):
            sb = _sign_known(b)
            if sb == 0:
                if x % 2 == 0:
                    return 0
                return 0
            if x % 2:
                s *= sb
        return s
    if e.op == "add":
        const, coefs = e.data
        s = None
        if const != 0:
            s = 1 if const > 0 else -1
        for t, c in zip(e.args, coefs):
            st = _sign_known(t) * (1 if c > 0 else -1)
            if st == 0:
                return 0
            if s is None:
                s = st
            elif s != st:
                return 0
        return s or 0
    return 0


def _norm_cmp(e):
    """positive-scale normal form"""
    const, t = _terms(e)
    if not t:
        return e
    lead = abs(next(iter(sorted(t.items(), key=lambda kv: kv[0].id)))[1])
    return scale(e, 1 / lead)


def _indicator(e):
    """const + k * ite(c, const, const)"""
    if e.op != "add" or len(e.args) != 1:
        return None
    i = e.args[0]
    if i.op != "ite" or i.args[1].op != "c" or i.args[2].op != "c":
        return None
    k, q = e.data[0], e.data[1][0]
    return i.args[0], C(k + q * i.args[1].data), C(k + q * i.args[2].data)


def lt0(e):
    if e.op == "c":
        return TRUE if e.data < 0 else FALSE
    if e is NINF:
        return TRUE
    if e in (INF, NAN):
        return FALSE
    s = _sign_known(e)
    if s:
        return TRUE if s < 0 else FALSE
    if e.op == "ite":
        return ite_b(e.args[0], lt0(e.args[1]), lt0(e.args[2]))
    w = _indicator(e)
    if w:
        return ite_b(w[0], lt0(w[1]), lt0(w[2]))
    return _mk("lt0", (_norm_cmp(e),), isbool=True)


def eq0(e):
    if e.op == "c":
        return TRUE if e.data == 0 else FALSE
    if is_special(e):
        return FALSE
    if _sign_known(e):
        return FALSE
    if e.op == "ite" and (e.args[1].op == "c" or e.args[2].op == "c"):
        return ite_b(e.args[0], eq0(e.args[1]), eq0(e.args[2]))
    w = _indicator(e)
    if w:
        return ite_b(w[0], eq0(w[1]), eq0(w[2]))
    c, t = _terms(e)
    lead = min(t.items(), key=lambda kv: kv[0].id)[1]
    return _mk("eq0", (scale(e, 1 / lead),), isbool=True)


def lt(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if b is INF:
        return FALSE if a is INF else TRUE
    if a is NINF:
        return FALSE if b is NINF else TRUE
    if a is INF or b is NINF:
        return FALSE
    return lt0(sub(a, b))


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    return not_(lt(b, a))


def eq(a, b):
    if a.isbool:
        return not_(xor(a, b))
    if is_special(a) or is_special(b):
        return TRUE if (a is b and a is not NAN) else FALSE
    return eq0(sub(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), isbool=True)


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk("and", tuple(sorted(s, key=lambda n: n.id)), isbool=True)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def xor(a, b):
    if a is b:
        return FALSE
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return or_(and_(a, not_(b)), and_(not_(a), b))


def implies(a, b):
    return or_(not_(a), b)


def ite_b(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return ite_b(c, a, b)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # if x == k then k else x
    return _mk("ite", (c, a, b))


def minimum(a, b):
    if a is b:
        return a
    if a is INF or b is NINF:
        return b
    if b is INF or a is NINF:
        return a
    # deterministic orientation so min(a,b) == min(b,a)
    if a.id > b.id:
        a, b = b, a
    return ite(lt(b, a), b, a)


def maximum(a, b):
    if a is b:
        return a
    if a is INF or b is NINF:
        return a
    if b is INF or a is NINF:
        return b
    return neg(minimum(neg(a), neg(b)))


# ---------------------------------------------------------------- utilities
def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def free_vars(roots):
    return [n for n in postorder(roots) if n.op in ("v", "bv")]


def substitute(roots, mapping):
    """rebuild with mapping node->node"""
    memo = dict(mapping)
    for n in postorder(roots):
        if n in memo:
            continue
        memo[n] = rebuild(n, [memo[a] for a in n.args])
    return [memo[r] for r in roots]


def rebuild(n, a):
    op = n.op
    if all(x is y for x, y in zip(a, n.args)):
        return n
    if op == "add":
        return add(C(n.data[0]), *[scale(x, c) for x, c in zip(a, n.data[1])])
    if op == "mul":
        return mul(*[powi(x, e) for x, e in zip(a, n.data)])
    if op == "exp":
        return exp(a[0])
    if op == "log":
        return log(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "ite":
        return ite(*a)
    if op == "uf":
        return uf(n.data, a, n.integer)
    if op == "lt0":
        return lt0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    return n


def to_str(n, depth=6):
    if depth < 0:
        return "…"
    d = depth - 1
    if n.op == "c":
        f = n.data
        return str(f) if len(str(f)) < 14 else f"{float(f):.12g}"
    if n.op in ("v", "bv"):
        return str(n.data)
    if n.op == "add":
        s = [] if n.data[0] == 0 else [to_str(C(n.data[0]))]
        for t, c in zip(n.args, n.data[1]):
            s.append(to_str(t, d) if c == 1 else f"{to_str(C(c))}*{to_str(t, d)}")
        return "(" + " + ".join(s) + ")"
    if n.op == "mul":
        return "*".join(
            to_str(b, d) + ("" if e == 1 else f"^{e}") for b, e in zip(n.args, n.data)
        )
    if n.op == "uf":
        return f"{n.data}({', '.join(to_str(a, d) for a in n.args)})"
    if n.op == "lt0":
        return f"({to_str(n.args[0], d)} < 0)"
    if n.op == "eq0":
        return f"({to_str(n.args[0], d)} = 0)"
    return f"{n.op}({', '.join(to_str(a, d) for a in n.args)})"


def evaluate(roots, env, uf_eval=None):
    """numpy float64 evaluation; env maps variable name -> scalar or 1d array."""
    import numpy as np

    memo = {}
    with np.errstate(all="ignore"):
        for n in postorder(roots):
            op = n.op
            a = [memo[x.id] for x in n.args]
            if op == "c":
                r = float(n.data)
            elif op in ("v", "bv"):
                r = env[n.data]
            elif op == "add":
                r = float(n.data[0])
                for x, c in zip(a, n.data[1]):
                    r = r + float(c) * x
            elif op == "mul":
                r = 1.0
                for x, e in zip(a, n.data):
                    r = r * (x if e == 1 else np.power(np.asarray(x, dtype=float), e))
            elif op == "exp":
                r = np.exp(a[0])
            elif op == "log":
                r = np.log(np.asarray(a[0], dtype=float))
            elif op == "sqrt":
                r = np.sqrt(np.asarray(a[0], dtype=float))
            elif op == "ite":
                r = np.where(a[0], a[1], a[2])
            elif op == "inf":
                r = np.inf
            elif op == "ninf":
                r = -np.inf
            elif op == "nan":
                r = np.nan
            elif op == "true":
                r = True
            elif op == "false":
                r = False
            elif op == "lt0":
                r = np.less(a[0], 0)
            elif op == "eq0":
                r = np.abs(a[0]) <= 1e-15
            elif op == "not":
                r = np.logical_not(a[0])
            elif op == "and":
                r = a[0]
                for x in a[1:]:
                    r = np.logical_and(r, x)
            elif op == "uf":
                r = _eval_uf(n, a, env)
            else:
                raise NotImplementedError(op)
            memo[n.id] = r
    return [memo[r.id] for r in roots]


def _eval_uf(n, a, env):
    import numpy as np
    from scipy import special as sp

    f = {
        "erf_inv": sp.erfinv,
        "erf": sp.erf,
        "floor": np.floor,
        "ceil": np.ceil,
        "round": np.round,
        "sin": np.sin,
        "cos": np.cos,
        "atan": np.arctan,
    }.get(n.data)
    if f is not None:
        return f(a[0])
    if n.data == "rem":
        return np.fmod(a[0], a[1])
    if n.data == "infmul":
        return a[0] * a[1]
    key = f"uf{n.id}"
    if key in env:
        return env[key]
    return np.nan


def substitute_names(root, sub, memo):
    """replace free variables by name; memo is shared between calls with the same sub"""
    for n in postorder([root]):
        if n in memo:
            continue
        if n.op in ("v", "bv"):
            memo[n] = sub.get(n.data, n)
        else:
            memo[n] = rebuild(n, [memo[a] for a in n.args])
    return memo[root]
