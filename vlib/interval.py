"""Interval enclosures of expression nodes (floats, widened by 1e-12 relative)."""
import math

from . import expr as X

INFTY = math.inf


def _w(lo, hi):
    if lo not in (-INFTY, INFTY, 0.0):
        lo -= abs(lo) * 1e-12
    if hi not in (-INFTY, INFTY, 0.0):
        hi += abs(hi) * 1e-12
    return lo, hi


def _mul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
                continue
            p = x * y
            ps.append(p)
            if abs(p) < 1e-300:  # underflow: keep the outward side non-zero
                ps.append(math.copysign(1e-300, x) * math.copysign(1.0, y))
                ps.append(0.0)
    return min(ps), max(ps)


def _uf(a, b, lo, hi):
    """undo underflow of a monotone power"""
    if abs(a) < 1e-300 and lo != 0:
        a = min(0.0, a) if lo > 0 or a >= 0 else -1e-300
        a = -1e-300 if lo < 0 and a <= 0 and a != 0 else a
    if abs(b) < 1e-300 and hi != 0:
        b = 1e-300
    return a, b


def _pow(a, e):
    lo, hi = a
    if e < 0:
        if lo > 0 or hi < 0:
            il = 0.0 if hi in (INFTY,) else 1.0 / hi
            ih = 0.0 if lo in (-INFTY,) else 1.0 / lo
            return _pow((min(il, ih), max(il, ih)), -e)
        if lo == 0:
            return _pow((0.0 if hi == INFTY else 1.0 / hi if hi > 0 else INFTY, INFTY), -e)
        if hi == 0:
            return _pow((-INFTY, 0.0 if lo == -INFTY else 1.0 / lo), -e)
        return (-INFTY, INFTY) if e % 2 else (0.0, INFTY)

    def p(x):
        try:
            return x**e
        except OverflowError:
            return INFTY if (x > 0 or e % 2 == 0) else -INFTY

    if e % 2 == 0:
        if lo >= 0:
            return _uf(p(lo), p(hi), lo, hi)
        if hi <= 0:
            return _uf(p(hi), p(lo), hi, lo)
        return 0.0, max(p(lo), p(hi), 1e-300)
    return _uf(p(lo), p(hi), lo, hi)


class Intervals:
    def __init__(self, dom):
        self.dom = dom
        self.m = {}

    def of(self, n):
        for k in X.postorder([n]):
            if k not in self.m and not k.isbool:
                self.m[k] = self._of(k)
        return self.m[n]

    def _of(self, n):
        op, M = n.op, self.m
        if op == "c":
            try:
                f = float(n.data)
            except OverflowError:
                return (-INFTY, INFTY)
            return _w(f, f)
        if op == "v":
            lo, hi = self.dom.get(n.data, (-INFTY, INFTY))
            return float(lo), float(hi)
        if op == "add":
            c0 = float(n.data[0])
            los, his = [c0], [c0]
            mag = abs(c0)
            for a, c in zip(n.args, n.data[1]):
                x, y = M[a]
                c = float(c)
                p, q = (0.0 if x == 0 else x * c), (0.0 if y == 0 else y * c)
                if c < 0:
                    p, q = q, p
                los.append(p)
                his.append(q)
                mag += max((abs(z) for z in (p, q) if abs(z) < INFTY), default=0.0)
            lo, hi = sum(los), sum(his)
            lo = -INFTY if math.isnan(lo) else lo
            hi = INFTY if math.isnan(hi) else hi
            sl = 1e-13 * mag
            if lo > -INFTY:
                lo = max(0.0, lo - sl) if all(z >= 0 for z in los) else lo - sl
            if hi < INFTY:
                hi = min(0.0, hi + sl) if all(z <= 0 for z in his) else hi + sl
            return lo, hi
        if op == "mul":
            r = (1.0, 1.0)
            for b, e in zip(n.args, n.data):
                r = _mul(r, _pow(M[b], e))
                if math.isnan(r[0]) or math.isnan(r[1]):
                    return (-INFTY, INFTY)
            return _w(*r)
        if op == "exp":
            lo, hi = M[n.args[0]]

            def e(x, up):
                if x > 700:
                    return INFTY if up else math.exp(700)
                if x < -690:
                    return 1e-299 if up else 0.0
                return math.exp(x)

            return _w(e(lo, False), e(hi, True))
        if op == "log":
            lo, hi = M[n.args[0]]
            a = math.log(lo) if 0 < lo < INFTY else -INFTY
            b = INFTY if hi == INFTY or hi <= 0 else math.log(hi)
            return (a - 1e-12 - abs(a) * 1e-12 if a > -INFTY else a), (
                b + 1e-12 + abs(b) * 1e-12 if b < INFTY else b
            )
        if op == "sqrt":
            lo, hi = M[n.args[0]]
            return _w(math.sqrt(max(lo, 0.0)), INFTY if hi == INFTY or hi < 0 else math.sqrt(hi))
        if op == "ite":
            a, b = M[n.args[1]], M[n.args[2]]
            return min(a[0], b[0]), max(a[1], b[1])
        if op == "inf":
            return (INFTY, INFTY)
        if op == "ninf":
            return (-INFTY, -INFTY)
        if op == "uf":
            if n.data == "floor":
                lo, hi = M[n.args[0]]
                return lo - 1, hi
        return (-INFTY, INFTY)
