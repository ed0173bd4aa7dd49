"""Restarted optimiser: best of the attempts, keeps trying until the tolerance, never starts from a NaN gradient."""
import builtins
import types

import numpy as np
import z3

from vlib import pysym as ps
from vlib.pysym import NP, SB, SV, Harness, patched, run_harness, sym_float, tosv

LEVEL = "other"
ASSUMPTIONS = ["scipy's optimiser, the random draws and the gradient are replaced by nondeterministic environments: any loss (NaN and inf included), any gradient NaN pattern"]
EXPLANATION = (
    "The real functions of fitting_helpers/utils.py ran on symbolic optimiser results, tolerances and gradient schedules; every branch on a symbolic value was forked "
    "when z3 found both sides feasible, and on each path z3 decided the assertions for all values. Candidate counterexamples were replayed on the real code with real numpy."
)
FAIL = 999.99
RETRY = 1001  # one draw plus a thousand retries
NDIM = 2


class Env:
    """Optimiser, gradient and random draws.  Each attempt either never finds a usable start, or finds one at
    draw number d; it then yields a loss and a point."""

    def __init__(self, attempt):
        self.attempt = attempt  # attempt(k) -> (d or None, fun, success)
        self.log = []  # finished attempts: (kind, fun, x)
        self.cur = None
        self.problems = []
        self.drawn = []
        self.usable = []
        self.seen, self.good, self.first = [], set(), 0
        self.p0, self.sig = np.zeros(NDIM), np.ones(NDIM)
        self.data = object()

    def loss(self, p, data):
        self.seen.append(("loss", np.array(p, dtype=float), data))
        return 0.25

    def draw_no(self, p):
        """number of the draw (1, 2, ...) this point is; 0 for another point"""
        for n in range(len(self.drawn), 0, -1):
            if np.array_equal(p, self.drawn[n - 1]):
                return n
        return 0

    def deriv(self, p, data):
        """unusable until the attempt's d-th draw; asking again about a point gives the same answer"""
        self.seen.append(("deriv", np.array(p, dtype=float), data))
        if data is not self.data:
            self.problems.append("gradient evaluated on other data")
        n = self.draw_no(p)
        if n == 0:
            self.problems.append("gradient evaluated at a point that was not drawn")
        g = np.ones(NDIM)
        if n in self.good:
            return g
        g[n % NDIM] = np.nan
        if self.cur is None or n <= self.first:
            return g
        d = self.cur[0]
        if d is not None and n - self.first >= d:
            self.good.add(n)
            self.usable.append(np.array(p, dtype=float))
            return np.ones(NDIM)
        if d is None and n - self.first == RETRY:
            self.log.append(("fail", FAIL, None))
            self.cur = None
        return g

    def normal(self, loc=0.0, scale=1.0, size=None):
        if loc is not self.p0 and not np.array_equal(loc, self.p0) or not np.array_equal(scale, self.sig):
            self.problems.append("start drawn around another point or with another width")
        if self.cur is None and self.attempt is not None:
            self.cur = self.attempt(len(self.log))
            self.first = len(self.drawn)
        r = np.zeros(NDIM) + len(self.drawn) + 1.0
        self.drawn.append(r)
        return r

    def asks(self, fun, jac, x0, args):
        """do the functions handed to the optimiser evaluate the given loss and gradient, at its point, on the data?"""
        args = args if isinstance(args, tuple) else (args,)
        want = lambda k: any(a == k and np.array_equal(b, x0) and c is self.data for a, b, c in self.seen)
        self.seen = []
        v = fun(x0, *args)
        g = v[1] if jac is True else jac(x0, *args) if callable(jac) else None
        v = v[0] if jac is True else v
        return want("loss") and want("deriv") and v == 0.25 and g is not None and np.array_equal(g, np.ones(NDIM))

    def minimize(self, fun=None, x0=None, args=(), method=None, jac=None, **kw):
        if not self.asks(fun, jac, x0, args):
            self.problems.append("optimiser called on another loss, gradient or data")
        if not any(np.array_equal(x0, u) for u in self.usable):
            self.problems.append("optimiser started where the gradient has NaN")
        if self.cur is None or self.cur[0] is None:
            self.problems.append("optimiser called without a usable start")
            f, s = FAIL, True
        else:
            f, s = self.cur[1:]
        x = np.zeros(NDIM) - 1.0 - len(self.log)
        self.log.append(("run", f, x))
        self.cur = None
        return types.SimpleNamespace(x=x, fun=f, success=s, nit=1, nfev=1, status=0, message="", jac=np.ones(NDIM))


def call(fu, env, tol, max_iter, symbolic):
    import scipy.optimize as so

    rnd = types.SimpleNamespace(normal=env.normal)
    names = dict(minimize=env.minimize)
    if symbolic:
        names.update(np=NP(random=rnd), float=sym_float)
    with patched(fu, **names), patched(so, minimize=env.minimize), patched(np.random, normal=env.normal):
        return fu.minimizer_wrapper(env.loss, env.deriv, (env.p0, env.sig), env.data, loss_tol=tol, max_iter=max_iter)


def spec(env, tol, max_iter, res):
    """[(label, formula)] over SV losses"""
    p, loss, success = res
    L = [tosv(f) for _, f, _ in env.log]
    tol = tosv(tol)
    K = len(L)
    nn = [z3.Not(v.nan) for v in L]
    met = [z3.And(n, ps._b(v <= tol)) for n, v in zip(nn, L)]
    out = [
        ("no more attempts than allowed", z3.BoolVal(1 <= K <= max_iter)),
        ("every failed start was retried to the limit", z3.BoolVal(env.cur is None)),
        ("attempts use the given loss, gradient and data from a start with a usable gradient", z3.BoolVal(not env.problems)),
        ("no further attempt once the tolerance is met", z3.And([z3.Not(m) for m in met[:-1]])),
    ]
    if K < max_iter:
        out.append(("keeps trying until the tolerance is met", z3.Or(met)))
    allnan = z3.And([v.nan for v in L])
    loss = tosv(loss)
    isp0 = np.array_equal(p, env.p0)
    out.append(("all attempts NaN: reported as a failure at the initial guess", z3.Implies(allnan, z3.And(loss.same(FAIL), z3.BoolVal(isp0 and success == -1)))))
    best = []
    for (kind, _, x), v, n in zip(env.log, L, nn):
        mine = np.array_equal(p, x) and success == 1 if kind == "run" else isp0 and success == -1
        best.append(z3.And(z3.BoolVal(bool(mine)), n, loss.same(v), *[z3.Implies(m, ps._b(v <= w)) for m, w in zip(nn, L)]))
    out.append(("point, loss and flag are those of the attempt with the lowest loss", z3.Implies(z3.Not(allnan), z3.Or(best))))
    return out


def wrapper(fu, max_iter):
    scen = {}

    def scenario(ctx):
        tol = SV(ctx.real("tol"))

        def attempt(k):
            d = 1 if ctx.decide(z3.Bool(f"first{k}")) else 2 if ctx.decide(z3.Bool(f"second{k}")) else RETRY if ctx.decide(z3.Bool(f"last{k}")) else None
            v, nan, inf = z3.Real(f"loss{k}"), z3.Bool(f"nan{k}"), z3.Bool(f"inf{k}")
            ctx.assume(z3.Not(z3.And(nan, inf)))
            return d, SV(v, nan, inf), SB(z3.Bool(f"success{k}"))

        env = Env(attempt)
        scen["env"] = env
        return spec(env, tol, max_iter, call(fu, env, tol, max_iter, True))

    def replay(get):
        tol = get(z3.Real("tol"))
        sched = []
        for k in range(max_iter):
            d = 1 if get(z3.Bool(f"first{k}")) else 2 if get(z3.Bool(f"second{k}")) else RETRY if get(z3.Bool(f"last{k}")) else None
            f = float("nan") if get(z3.Bool(f"nan{k}")) else float("inf") if get(z3.Bool(f"inf{k}")) else float(get(z3.Real(f"loss{k}")))
            sched.append([d, f, bool(get(z3.Bool(f"success{k}")))])
        return concrete(fu, {"tol": tol, "max_iter": max_iter, "attempts": sched})

    return scenario, replay


def concrete(fu, scen):
    env = Env(lambda k: tuple(scen["attempts"][k]) if k < len(scen["attempts"]) else (1, 0.0, True))
    res = call(fu, env, scen["tol"], scen["max_iter"], False)
    bad = [(l, f"{res[0]}, {res[1]}, {res[2]} after {[(k, v) for k, v, _ in env.log]} {env.problems[:2]}", "see label")
           for l, f in spec(env, scen["tol"], scen["max_iter"], res) if not z3.is_true(z3.simplify(f))]
    return bad, scen


def pinit(fu, lo=0, hi=0):
    """return_random_pinit alone: the flag says whether the returned start still has a NaN gradient"""

    def one(d, kinds):
        env = Env(lambda k: (d, 0.0, True))
        nb = []

        def deriv(p, data):
            g = env.deriv(p, data)
            nb.append(bool(np.isnan(g).any()))
            return g

        rnd = types.SimpleNamespace(normal=env.normal)
        with patched(np.random, normal=env.normal):
            p, flag = fu.return_random_pinit((env.p0, env.sig), env.data, deriv)
        last = len(nb) and nb[-1]
        tried = len(env.drawn)
        return [("flag tells whether the returned start has a NaN gradient", bool(flag) == bool(last) and bool(env.drawn) and np.array_equal(p, env.drawn[-1])),
                ("stops at the first usable start, after at most a thousand retries", tried == (d or RETRY)),
                ("draws around the given point with the given widths", not env.problems)]

    def scenario(ctx):
        d = z3.Int("d")
        ctx.assume(z3.And(d >= 1, d <= RETRY + 1))
        if lo:
            ctx.assume(z3.Or(d <= lo, d >= hi))
        # the schedule length is a symbolic integer: one comparison per draw decides whether it is reached
        nb = []
        env = Env(None)

        def deriv(p, data):
            n = env.draw_no(p)
            if n == 0 or data is not env.data:
                env.problems.append("gradient evaluated at a point that was not drawn or on other data")
            if lo and lo < n < hi:
                ok = ctx.decide(d <= lo)  # d lies outside the gap
            else:
                ok = ctx.decide(d <= n)
            nb.append(not ok)
            g = np.ones(NDIM)
            if not ok:
                g[n % NDIM] = np.nan
            return g

        with patched(np.random, normal=env.normal):
            p, flag = fu.return_random_pinit((env.p0, env.sig), env.data, deriv)
        n = len(env.drawn)
        return [("flag tells whether the returned start has a NaN gradient", z3.BoolVal(bool(flag) == nb[-1] and np.array_equal(p, env.drawn[-1]))),
                ("stops at the first usable start, after at most a thousand retries", z3.Or(d == n, z3.And(d > n, n == RETRY))),
                ("draws around the given point with the given widths", z3.BoolVal(not env.problems))]

    def replay(get):
        d = int(get(z3.Int("d")))
        return pinit_concrete(fu, one, d)

    return scenario, replay, one


def pinit_concrete(fu, one, d):
    bad = [(l, f"first usable start at draw {d}", "see label") for l, ok in one(None if d > RETRY else d, None) if not ok]
    return bad, {"d": d}


def hs(tier):
    from diffstar.fitting_helpers import utils as fu

    out = []
    lo, hi = (12, RETRY - 10) if tier == "quick" else (0, 0)
    s, r, _ = pinit(fu, lo, hi)
    out.append(Harness("pinit", s, r, ["fitting_helpers.utils.return_random_pinit"], f"first usable start at any draw 1..{lo} or {hi}..1001, or never" if lo else "first usable start at any draw 1..1001, or never", deadline=300 if lo else 2000))
    for m in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        s, r = wrapper(fu, m)
        out.append(Harness(f"wrapper_{m}", s, r, ["fitting_helpers.utils.minimizer_wrapper", "fitting_helpers.utils.return_random_pinit"],
                           f"at most {m} attempts, any tolerance, any losses incl. NaN and inf, usable start at draw 1, 2, 1001 or never", deadline=300 if tier == "quick" else 3000))
    return out


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C21", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    from diffstar.fitting_helpers import utils as fu

    if d["harness"] == "pinit":
        bad, _ = pinit_concrete(fu, pinit(fu)[2], d["scenario"]["d"])
    else:
        bad, _ = concrete(fu, d["scenario"])
    print(bad)
    if bad:
        print(f"VIOLATION property={d['property']} replay")
        return 1
    return 0
