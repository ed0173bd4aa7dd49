"""Adam fall-back: best visited step, stops at the first non-finite step, warm-up feeds the final run, honest flags."""
import types

import numpy as np
import z3

from vlib import pysym as ps
from vlib.pysym import NP, SB, SV, Harness, OA, flat, oa, patched, run_harness, sym_float, tosv

LEVEL = "other"
ASSUMPTIONS = ["jax's Adam update, the gradient and scipy's optimiser are replaced by nondeterministic environments: any iterate, loss and gradient, finite or not; float32 storage of the records is treated as exact"]
EXPLANATION = (
    "The real functions of fitting_helpers/utils.py ran on symbolic iterates, losses and gradients; every branch on a symbolic value was forked when z3 found both sides "
    "feasible, and on each path z3 decided the assertions for all values. Candidate counterexamples were replayed on the real code with real numpy."
)
ND = 2


class Env:
    """One Adam run after another; values come from value(name) -> SV or float."""

    def __init__(self, value):
        self.value = value
        self.runs = []
        self.problems = []
        self.states, self.evals, self.devals = [], [], []
        self.data = object()

    # --- stand-ins
    def adam(self, step_size, *a, **k):
        run = dict(step_size=step_size, steps=[], init=None)
        self.runs.append(run)
        r = len(self.runs) - 1

        def init(p):
            run["init"] = [v for v in flat(p)]
            return (r, 0, tuple(run["init"]))

        def update(i, g, state):
            rr, t, p = state
            if rr != r or i != t:
                self.problems.append("update called with another step number or optimiser state")
            st = [s for s in run["steps"] if s["t"] == t]
            if not st or not same_objs(flat(g), st[-1]["g"]):
                self.problems.append("update called with another gradient")
            return (r, t + 1, tuple(self.value(f"p{r}_{t + 1}_{d}") for d in range(ND)))

        def get_params(state):
            if state not in self.states:
                self.states.append(state)
            return mk(state[2])

        return init, update, get_params

    def loss(self, p, data):
        """the loss being minimised: only ever evaluated through step"""
        if data is not self.data:
            self.problems.append("loss evaluated on other data")
        self.evals.append(list(flat(p)))
        return self.step(p)["loss"]

    def deriv(self, p, data):
        if data is not self.data:
            self.problems.append("gradient evaluated on other data")
        self.devals.append(list(flat(p)))
        return np.ones(ND)

    def step(self, p):
        """the record of the visited point p (asking again gives the same values)"""
        objs = list(flat(p))
        hit = [s for s in self.states if same_objs(objs, s[2])]
        if not hit:
            if not self.runs:
                return dict(loss=0.25, g=None)
            self.problems.append("loss evaluated at a point Adam did not visit")
        rr, t, ps_ = (hit or self.states)[-1]
        run = self.runs[rr]
        for s in run["steps"]:
            if s["t"] == t:
                return s
        run["steps"].append(dict(t=t, p=list(ps_), loss=self.value(f"loss{rr}_{t}"), g=[self.value(f"g{rr}_{t}_{d}") for d in range(ND)]))
        return run["steps"][-1]

    def value_and_grad(self, f, argnums=0, **k):
        def vg(p, *a, **kw):
            n = len(self.evals)
            loss = f(p, *a, **kw)
            if not any(same_objs(e, flat(p)) for e in self.evals[n:]):
                self.problems.append("another function is differentiated")
            s = self.step(p)
            if loss is not s["loss"]:
                self.problems.append("another function is differentiated")
            return (loss, mk(s["g"]))

        return vg

    def grad(self, f, argnums=0, **k):
        vg = self.value_and_grad(f)
        return lambda *a, **kw: vg(*a, **kw)[1]


def mk(v):
    v = list(v)
    return oa(v) if any(isinstance(x, SV) for x in v) else np.array(v, dtype=float)


def same_objs(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y or (not isinstance(x, SV) and not isinstance(y, SV) and (x == y or (x != x and y != y))) for x, y in zip(a, b))


def close(a, b):
    """z3 formula: the values agree (exact for symbolic, float32 for concrete)"""
    if isinstance(a, SV) or isinstance(b, SV):
        return tosv(a).same(tosv(b))
    return z3.BoolVal(bool(np.isclose(float(a), float(b), rtol=1e-5, atol=1e-30, equal_nan=True)))


def eqvec(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And([z3.BoolVal(True)] + [close(x, y) for x, y in zip(a, b)])


def fin(v):
    v = tosv_(v)
    return z3.And(z3.Not(v.nan), z3.Not(v.inf))


def tosv_(v):
    if isinstance(v, (float, np.floating)) and v == -np.inf:
        return SV(z3.RealVal(0), z3.BoolVal(False), z3.BoolVal(True))
    return tosv(v)


def good(s):
    return z3.And([fin(v) for v in s["p"] + [s["loss"]] + s["g"]])


def spec_run(run, n_step, res):
    """one Adam run against (params, loss, loss history, parameter history)"""
    p, loss, larr, parr = res
    S = run["steps"]
    ok = [good(s) for s in S]
    T = len(S)
    cont = z3.And([z3.BoolVal(True)] + ok[:-1])  # every step before the last was finite
    full = z3.And(z3.BoolVal(T == n_step), *ok)
    stop = z3.And(cont, z3.Not(ok[-1])) if T else z3.BoolVal(False)
    out = [("runs every step, or stops at the first non-finite one", z3.And(z3.BoolVal(T <= n_step), z3.Or(full, stop)))]

    def best(m):
        idx = range(m)
        return z3.Or([z3.BoolVal(False)] + [z3.And(eqvec(p, S[i]["p"]), close(loss, S[i]["loss"]), *[ps._b(tosv(S[i]["loss"]) <= tosv(S[j]["loss"])) for j in idx]) for i in idx])

    def recs(m):
        return z3.And(z3.BoolVal(len(larr) == m and len(parr) == m), *[close(larr[i], S[i]["loss"]) for i in range(min(m, len(larr)))], *[eqvec(parr[i], S[i]["p"]) for i in range(min(m, len(parr)))])

    if T == n_step:
        out.append(("a completed run returns the visited point with the lowest loss", z3.Implies(full, best(n_step))))
        out.append(("a completed run records every step", z3.Implies(full, recs(n_step))))
    if T > 1:
        out.append(("a stopped run returns the best point before the stop", z3.Implies(stop, best(T - 1))))
    if T == 1:
        out.append(("a run stopped at once reports a failure at its start", z3.Implies(stop, z3.And(close(loss, 999.99), eqvec(p, S[0]["p"])))))
    if T:
        out.append(("a stopped run records the steps before the stop", z3.Implies(stop, recs(T - 1))))
    return out


def names(env, symbolic, **more):
    opt = types.SimpleNamespace(adam=env.adam)
    d = dict(jax_opt=opt, jjit=lambda f, **k: f, value_and_grad=env.value_and_grad, grad=env.grad, **more)
    if symbolic:
        d.update(np=NP(), float=sym_float)
    return d


def val_sym(ctx):
    made = {}

    def value(name):
        if name not in made:
            v = SV(z3.Real(name), z3.Bool(name + "_nan"), z3.Bool(name + "_inf"))
            ctx.assume(z3.Not(z3.And(v.nan, v.inf)))
            made[name] = v
        return made[name]

    return value


def val_get(get, store):
    def value(name):
        if name not in store:
            if name.startswith("success"):
                store[name] = bool(get(z3.Bool(name)))
            else:
                store[name] = float("nan") if get(z3.Bool(name + "_nan")) else float("inf") if get(z3.Bool(name + "_inf")) else float(get(z3.Real(name)))
        return store[name]

    return value


# ------------------------------------------------------------------- single run
def single(fu, value, n_step, symbolic):
    env = Env(value)
    start = mk([value(f"s_{d}") for d in range(ND)])
    with patched(fu, **names(env, symbolic)):
        res = fu._jax_adam_wrapper(env.loss, start, env.data, n_step, step_size=0.07)
    run = env.runs[0]
    return [("Adam starts at the given point, with the given step size, on the given loss and data",
             z3.And(z3.BoolVal(len(env.runs) == 1 and run["step_size"] == 0.07 and not env.problems), eqvec(run["init"], start)))] + spec_run(run, n_step, res)


# -------------------------------------------------------------- with warm-up
def warm(fu, value, n_warmup, n_step, w_step, symbolic, default_ws=False):
    env = Env(value)
    start = mk([value(f"s_{d}") for d in range(ND)])
    per = []
    kw = {} if default_ws else {"warmup_step_size": 0.3}
    with patched(fu, **names(env, symbolic)):
        res = fu.jax_adam_wrapper_v2(env.loss, start, env.data, n_step, n_warmup=n_warmup, step_size=0.07, warmup_n_step=w_step, **kw)
    return warm_spec(env, start, n_warmup, n_step, w_step, res, 0.35 if default_ws else 0.3)


def run_best(run, n_step, cand):
    """formula: cand is what a run with these steps returns (lowest visited before the stop, its start if stopped at once)"""
    S = run["steps"]
    ok = [good(s) for s in S]
    T = len(S)

    def best(m):
        return z3.Or([z3.BoolVal(False)] + [z3.And(eqvec(cand, S[i]["p"]), *[ps._b(tosv(S[i]["loss"]) <= tosv(S[j]["loss"])) for j in range(m)]) for i in range(m)])

    full = z3.And(z3.BoolVal(T == n_step), *ok)
    if T <= 1:
        return z3.If(full, best(T), eqvec(cand, S[0]["p"]) if T else z3.BoolVal(False))
    return z3.If(full, best(T), best(T - 1))


def warm_spec(env, start, n_warmup, n_step, w_step, res, ws, prefix=""):
    R = env.runs
    out = [(prefix + "one Adam run per warm-up and one final run, on the given loss and data", z3.BoolVal(len(R) == n_warmup + 1 and not env.problems))]
    if len(R) != n_warmup + 1:
        return out
    out.append((prefix + "warm-up and final runs use their own step sizes", z3.BoolVal(all(abs(r["step_size"] - ws) < 1e-12 for r in R[:-1]) and R[-1]["step_size"] == 0.07)))
    if n_warmup:
        out.append((prefix + "the first warm-up starts at the given point", eqvec(R[0]["init"], start)))
        for i in range(1, n_warmup):
            out.append((prefix + "a warm-up starts where the previous one was best", run_best(R[i - 1], w_step, R[i]["init"])))
        for r in R[:-1]:
            ok = [good(s) for s in r["steps"]]
            T = len(ok)
            out.append((prefix + "a warm-up runs all its steps or stops at a non-finite one", z3.And(z3.BoolVal(T <= w_step), z3.Or(z3.And(z3.BoolVal(T == w_step), *ok), z3.Not(ok[-1]) if T else z3.BoolVal(False)))))
        f = R[-1]["init"]
        # the final start is the warm-up result when that is finite, else the original point
        finite = z3.And([fin(v) for v in f])
        out.append((prefix + "the final run starts at the best warm-up point, or at the given point when that is not finite", z3.Or(z3.And(finite, run_best(R[-2], w_step, f)), z3.And(eqvec(f, start), not_finite_best(R[-2], w_step)))))
    else:
        out.append((prefix + "without warm-up the run starts at the given point", eqvec(R[-1]["init"], start)))
    *four, flag = res
    out += [(prefix + l, f) for l, f in spec_run(R[-1], n_step, four)]
    okl = z3.And([z3.BoolVal(len(R[-1]["steps"]) == n_step)] + [good(s) for s in R[-1]["steps"]])
    out.append((prefix + "the flag says whether the final run completed", okl == z3.BoolVal(int(flag) == 1) if int(flag) in (0, 1) else z3.BoolVal(False)))
    return out


def not_finite_best(run, n_step):
    """the run's result is not finite: only possible when its very first step already was"""
    S = run["steps"]
    return z3.And(z3.BoolVal(len(S) == 1), z3.Not(z3.And([fin(v) for v in S[0]["p"]]))) if S else z3.BoolVal(False)


# ---------------------------------------------------------- L-BFGS with fall-back
def mini(fu, value, success, n_step, w_step, symbolic):
    import scipy.optimize as so

    env = Env(value)
    start = mk([value(f"s_{d}") for d in range(ND)])
    x = mk([value(f"x_{d}") for d in range(ND)])
    fun = value("fun")
    calls = []

    def minimize(f=None, x0=None, args=(), method=None, jac=None, **k):
        f = k.pop("fun", f)
        args = args if isinstance(args, tuple) else (args,)
        v = f(x0, *args)
        g = v[1] if jac is True else jac(x0, *args)
        ok = (v[0] if jac is True else v) == 0.25 and np.array_equal(g, np.ones(ND))
        at = lambda e: any(same_objs(x, flat(start)) for x in e)
        calls.append(bool(ok) and at(env.evals) and at(env.devals) and not env.problems and same_objs(flat(x0), flat(start)))
        return types.SimpleNamespace(x=x, fun=fun, success=success)

    with patched(fu, **names(env, symbolic, minimize=minimize)), patched(so, minimize=minimize):
        p, loss, flag = fu.minimizer(env.loss, env.deriv, start, env.data, n_step, step_size=0.07, warmup_n_step=w_step, warmup_step_size=0.3)
    out = [("L-BFGS is tried once, from the given point on the given loss, gradient and data", z3.BoolVal(calls == [True]))]
    b = ps._b(success)
    isl = z3.And(eqvec(p, x), close(loss, fun), z3.BoolVal(flag == 1))
    if not env.runs:
        out.append(("a converged L-BFGS result is returned with flag 1, anything else falls back to Adam", z3.And(b, isl)))
        return out
    out.append(("Adam is used only when L-BFGS fails", z3.Not(b)))
    R = env.runs[-1]
    full = z3.And([z3.BoolVal(len(R["steps"]) == n_step)] + [good(s) for s in R["steps"]])
    out.append(("flag 0 for a completed Adam run, -1 for one that met a non-finite value", z3.And(full == z3.BoolVal(flag == 0), z3.BoolVal(flag in (0, -1)))))
    T = len(R["steps"])
    m = n_step
    if T:
        S = R["steps"]

        def best(m):
            return z3.Or([z3.BoolVal(False)] + [z3.And(eqvec(p, S[i]["p"]), close(loss, S[i]["loss"]), *[ps._b(tosv(S[i]["loss"]) <= tosv(S[j]["loss"])) for j in range(m)]) for i in range(m)])

        alt = z3.And(eqvec(p, S[0]["p"]), close(loss, 999.99)) if T == 1 else best(T - 1)
        out.append(("the fall-back returns the best point of the final Adam run", z3.If(full, best(T), alt)))
    return out


def make(fu, kind, **a):
    def obs(value, success, symbolic):
        if kind == "single":
            return single(fu, value, a["n"], symbolic)
        if kind == "warm":
            return warm(fu, value, a["w"], a["n"], a["wn"], symbolic, a.get("dws", False))
        return mini(fu, value, success, a["n"], a["wn"], symbolic)

    def start_finite(ctx, value):
        # the caller hands over a finite starting point
        for d in range(ND):
            v = value(f"s_{d}")
            ctx.assume(z3.And(z3.Not(v.nan), z3.Not(v.inf)))

    def scenario(ctx):
        value = val_sym(ctx)
        if a.get("finite_start"):
            start_finite(ctx, value)
        return obs(value, SB(z3.Bool("success")), True)

    def replay(get):
        store = {}
        value = val_get(get, store)
        success = bool(get(z3.Bool("success")))
        store["success"] = success
        bad = concrete(obs, value, success)
        return bad, {"values": store}

    def again(scen):
        st = dict(scen["values"])
        return concrete(obs, lambda n: float(st.get(n, 0.0)), bool(st.get("success")))

    return scenario, replay, again


def concrete(obs, value, success):
    return [(l, "violated on the real code with these values", "see label") for l, f in obs(value, success, False) if not z3.is_true(z3.simplify(f))]


def hs(tier):
    from diffstar.fitting_helpers import utils as fu

    out = []
    dl = 250 if tier == "quick" else 2500

    def add(name, fs, bounds, kind, **a):
        s, r, g = make(fu, kind, **a)
        H = Harness(name, s, r, fs, bounds, deadline=dl)
        H.again = g
        out.append(H)

    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        add(f"adam_{n}", ["fitting_helpers.utils._jax_adam_wrapper"], f"{n} steps, 2 parameters, every iterate, loss and gradient symbolic (NaN and inf included)", "single", n=n)
    W = [(0, 2, 1, False), (1, 2, 2, False), (2, 1, 1, True)]
    if tier != "quick":
        W += [(2, 2, 2, False), (3, 1, 1, False), (1, 3, 2, True)]
    for w, n, wn, d in W:
        add(f"warmup_{w}_{n}_{wn}", ["fitting_helpers.utils.jax_adam_wrapper_v2", "fitting_helpers.utils._jax_adam_wrapper"], f"{w} warm-ups of {wn} steps, {n} final steps", "warm", w=w, n=n, wn=wn, dws=d)
    M = [(1, 1), (2, 1)] + ([(2, 2)] if tier != "quick" else [])
    for n, wn in M:
        add(f"minimizer_{n}_{wn}", ["fitting_helpers.utils.minimizer", "fitting_helpers.utils.jax_adam_wrapper_v2", "fitting_helpers.utils._jax_adam_wrapper"], f"two warm-ups of {wn} steps, {n} final steps", "mini", n=n, wn=wn)
    return out


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C22", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    for H in hs("thorough"):
        if H.name == d["harness"]:
            bad = H.again(d["scenario"])
            print(bad)
            if bad:
                print(f"VIOLATION property={d['property']} replay")
                return 1
            return 0
    return 2
