"""Properties as harnesses over the real functions.

A harness is a Python function  fn(h, **inputs)  that calls the real code and
records obligations (h.le, h.eq, ...) and assumptions (h.assume).  It is used
twice: traced by JAX into a jaxpr that is executed symbolically and decided by
the solver, and executed concretely (the replay) on solver-found inputs.
"""
import json
import math
import os
import sys
import time
import traceback

import numpy as np

from . import deriv
from . import expr as X
from . import jx
from . import solve

REPLAYS = os.environ.get("VERIF_REPLAYS", "/verif/replays")


class In:
    """input specification"""

    def __init__(self, shape=(), lo=-1e3, hi=1e3, kind="real", increasing=False, gap=0.0, dtype=None, special=()):
        self.shape = (shape,) if isinstance(shape, int) else tuple(shape)
        self.lo = np.broadcast_to(np.asarray(lo, dtype=float), self.shape)
        self.hi = np.broadcast_to(np.asarray(hi, dtype=float), self.shape)
        self.kind = kind
        self.increasing = increasing
        self.gap = gap
        self.special = tuple(special)
        self.dtype = dtype or {"real": "float64", "int": "int64", "bool": "bool", "key": "uint32"}[kind]


class Recorder:
    def __init__(self, concrete):
        self.concrete = concrete
        self.assumes = []
        self.cuts = []
        self.obs = []  # (kind, label, tol)
        self.wrt = {}
        self.arrays = []

    def assume(self, c):
        self.assumes.append(c)

    def _rec(self, kind, a, b, label, tol):
        import jax.numpy as jnp

        if kind in ("eq", "close") and jnp.shape(a) != jnp.shape(b):
            self.true(jnp.asarray(False), f"{label}: shape {jnp.shape(a)} is not {jnp.shape(b)}")
            return
        a, b = jnp.broadcast_arrays(jnp.asarray(a), jnp.asarray(b))
        self.obs.append((kind, label, tol))
        self.arrays.append((a, b))

    def le(self, a, b, label, tol=1e-9):
        self._rec("le", a, b, label, tol)

    def lt(self, a, b, label, tol=1e-9):
        self._rec("lt", a, b, label, tol)

    def eq(self, a, b, label, tol=1e-8):
        self._rec("eq", a, b, label, tol)

    def close(self, a, b, label, tol=1e-6):
        """|a - b| <= tol (1 + |b|), both in the solver goal and in the replay"""
        self._rec("close", a, b, label, tol)

    def lemma(self, a, b, label, tol=1e-9):
        """a <= b: an obligation decided first (without cuts), then available to the others"""
        self._rec("lemma", a, b, label, tol)

    def use(self, a, b, label):
        """a <= b, an instance of the lemma proved generically under `label`"""
        self._rec("use", a, b, label, 1e-6)

    def cut(self, *arrays):
        """values replaced by arbitrary ones (constrained only by the proved lemmas) in a
        first attempt at every other obligation"""
        import jax.numpy as jnp

        for a in arrays:
            self.cuts.append(jnp.asarray(a))

    def between(self, a, lo, hi, label, tol=1e-9):
        self.le(lo, a, label + " (lower)", tol)
        self.le(a, hi, label + " (upper)", tol)

    def grad(self, y, name, g, label, tol=1e-4):
        """g (shape of input `name`) is the derivative of the scalar y by that input"""
        import jax.numpy as jnp

        y = jnp.asarray(y)
        g = jnp.asarray(g)
        self.obs.append(("grad", label, tol))
        self.arrays.append((jnp.broadcast_to(y, g.shape), g))
        self.wrt[label] = name

    def true(self, c, label):
        self._rec("true", c, c, label, 0.0)

    def finite(self, a, label):
        self._rec("finite", a, a, label, 0.0)


class Harness:
    def __init__(self, name, inputs, fn, functions=(), bounds="", exp_max=None, samples=1500,
                 budget=20.0, note="", deadline=240.0):
        self.name, self.inputs, self.fn = name, inputs, fn
        self.functions = list(functions)
        self.bounds = bounds
        self.exp_max = exp_max
        self.samples = samples
        self.budget = budget
        self.note = note
        self.deadline = deadline

    def random_inputs(self, rng, n):
        for _ in range(n):
            vals = {}
            for k, s in self.inputs.items():
                if s.kind == "bool":
                    v = rng.random(s.shape) < 0.5
                elif s.kind == "key":
                    v = rng.integers(0, 2**31, s.shape)
                else:
                    v = s.lo + (s.hi - s.lo) * rng.random(s.shape)
                    if s.increasing:
                        v = np.sort(v, axis=-1)
                    if s.kind == "int":
                        v = np.round(v)
                vals[k] = np.asarray(v).astype(s.dtype)
            yield vals

    # ------------------------------------------------------------- concrete run
    def concrete(self, vals):
        rec = Recorder(True)
        try:
            self.fn(rec, **vals)
        except AttributeError as e:
            if "has no attribute 'at'" not in str(e):
                raise
            import jax.numpy as jnp

            rec = Recorder(True)
            self.fn(rec, **{k: jnp.asarray(v) for k, v in vals.items()})
        return rec

    def concrete_check(self, vals, want=None):
        """violated obligations of a concrete run: list of (label, index, lhs, rhs)"""
        rec = self.concrete(vals)
        for a in rec.assumes:
            if not bool(np.all(np.asarray(a))):
                return None
        out = []
        for (kind, label, tol), (a, b) in zip(rec.obs, rec.arrays):
            if want is not None and label != want:
                continue
            a, b = np.asarray(a), np.asarray(b)
            if kind == "grad":
                a = self.numeric_derivative(vals, rec.wrt[label], label, b)
            bad = bad_mask(kind, a, b, tol)
            for i in np.argwhere(np.atleast_1d(bad)):
                i = tuple(i) if bad.ndim else ()
                out.append((label, kind, i, a[i].item(), b[i].item()))
                break
        return out

    def numeric_derivative(self, vals, name, label, like):
        """central differences of the real code, Richardson-extrapolated; where two step sizes
        disagree the result is the claimed value itself (nothing is confirmed there)"""
        x = np.asarray(vals[name], dtype=float)

        def y(i, e):
            v = dict(vals)
            z = x.copy()
            z[i] = z[i] + e
            v[name] = z
            r = self.concrete(v)
            for (kind, lab, _), (a, _b) in zip(r.obs, r.arrays):
                if kind == "grad" and lab == label:
                    return float(np.asarray(a).reshape(-1)[0])

        out = np.array(like, dtype=float)
        y0 = y(tuple(0 for _ in x.shape), 0.0)
        for i in np.ndindex(*x.shape) if x.shape else [()]:
            s = 1e-3 * max(1e-2, abs(x[i]))
            est = []
            kink = 0.0
            for e in (s, s / 4, s / 16):
                up, dn = y(i, e), y(i, -e)
                kink = abs(up - 2 * y0 + dn) / e  # difference of the one-sided slopes
                d1 = (up - dn) / (2 * e)
                d2 = (y(i, e / 2) - y(i, -e / 2)) / e
                est.append((4 * d2 - d1) / 3)
            for p, q in zip(est, est[1:]):
                big = abs(q - out[i]) * s / 64 > 1e-9 * abs(y0)  # well above rounding of y
                if np.isfinite(p) and big and abs(q - out[i]) > 2 * kink and abs(p - q) <= 1e-5 * (1e-6 + abs(q)):
                    out[i] = q
                    break
        return out

    # ------------------------------------------------------------------ symbolic
    def trace(self):
        import jax
        import jax.numpy as jnp

        rec = Recorder(False)
        names = list(self.inputs)
        ex = {}
        for k, s in self.inputs.items():
            ex[k] = np.zeros(s.shape, dtype=s.dtype)

        def f(vals):
            rec.assumes.clear(); rec.obs.clear(); rec.arrays.clear(); rec.cuts.clear()
            self.fn(rec, **vals)
            return [jnp.asarray(a) for a in rec.assumes], list(rec.cuts), [tuple(p) for p in rec.arrays]

        cj, shp = jax.make_jaxpr(f, return_shape=True)(ex)
        # flatten order of dict: sorted keys
        order = sorted(names)
        self.symin = {}
        dom = {}
        flat = []
        hyps = []
        for k in order:
            s = self.inputs[k]
            a = jx.symarray(k, s.shape, s.dtype, integer=s.kind in ("int", "key"))
            self.symin[k] = a
            flat.append(a)
            if s.kind in ("real", "int"):
                for i in np.ndindex(*s.shape) if s.shape else [()]:
                    n = a.val[i]
                    dom[n.data] = (float(s.lo[i]), float(s.hi[i]))
                if s.increasing:
                    v = a.val
                    for i in np.ndindex(*s.shape[:-1]) if len(s.shape) > 1 else [()]:
                        row = v[i]
                        for j in range(len(row) - 1):
                            hyps.append(
                                X.lt(X.add(row[j], X.C(s.gap)), row[j + 1])
                                if s.gap == 0
                                else X.le(X.add(row[j], X.C(s.gap)), row[j + 1])
                            )
        jx.EXP_MAX[0] = self.exp_max
        it = jx.Interp()
        outs = it.eval_jaxpr(cj.jaxpr, [np.asarray(c) if not hasattr(c, "dtype") or not str(c.dtype).startswith("key") else c for c in cj.consts], flat)
        na = len(rec.assumes)
        for o in outs[:na]:
            s = jx.lift(o)
            for n in s.val.reshape(-1):
                hyps.append(n)
        dom.update(jx.DOM)
        obs = []
        nc = len(rec.cuts)
        self.cutmap = {}
        self.cutdefs = {}
        for o in outs[na:na + nc]:
            for n in jx.lift(o).val.reshape(-1):
                if n.op in ("c", "v") or X.is_special(n) or n in self.cutmap:
                    continue
                nm = f"cut!{len(self.cutmap)}"
                self.cutmap[n] = X.var(nm)
                self.cutdefs[nm] = n
        rest = outs[na + nc:]
        for k, (kind, label, tol) in enumerate(rec.obs):
            a, b = jx.lift(rest[2 * k]), jx.lift(rest[2 * k + 1])
            if kind == "grad":
                a, b = self.derivatives(a, b, rec.wrt[label])
            obs.append((kind, label, tol, a, b))
        self.dom = dom
        self.hyps = [h for h in hyps if h is not X.TRUE]
        self.neqn = sum(1 for _ in _alleqns(cj.jaxpr))
        return obs

    def derivatives(self, a, b, name):
        va, vb = a.val.copy(), b.val.copy()
        for i in np.ndindex(*va.shape) if va.shape else [()]:
            y, g = deriv.off_kinks([a.val[i], b.val[i]])
            va[i], vb[i] = deriv.diff(y, self.symin[name].val[i]), g
        return jx.Sym(va, a.ok, a.dtype), jx.Sym(vb, b.ok, b.dtype)

    def cutsub(self, n):
        return X.substitute_names(n, {}, self.cutmemo)

    # ------------------------------------------------------------------ sampling
    def sampler(self, rng):
        def s(fixed=None):
            n = self.samples if fixed is None else 96
            env = {}
            for k, spec in self.inputs.items():
                sym = self.symin[k].val
                if spec.kind == "bool":
                    for node in sym.reshape(-1):
                        env[node.data] = rng.random(n) < 0.5
                    continue
                if spec.kind == "key":
                    for node in sym.reshape(-1):
                        env[node.data] = rng.integers(0, 2**31, n).astype(float)
                    continue
                lo, hi = spec.lo, spec.hi
                u = rng.random((n,) + spec.shape)
                mix = rng.random((n,) + spec.shape)
                full = lo + (hi - lo) * u
                # half of the draws concentrate near a random centre of the box / small magnitudes
                small = np.clip(rng.normal(size=u.shape) * 3, lo, hi)
                v = np.where(mix < 0.6, full, small)
                if spec.special and spec.kind == "real":
                    pick = rng.choice(np.array(spec.special, dtype=float), size=u.shape)
                    v = np.where(rng.random(u.shape) < 0.1, np.clip(pick, lo, hi), v)
                edge = rng.random(u.shape)
                v = np.where(edge < 0.02, np.broadcast_to(lo, u.shape), v)
                v = np.where(edge > 0.98, np.broadcast_to(hi, u.shape), v)
                if spec.kind == "int":
                    v = full = np.round(full)
                if spec.increasing:
                    v = np.sort(np.where(mix < 0.8, full, v), axis=-1)
                    if spec.gap:
                        v = v + spec.gap * np.arange(spec.shape[-1])
                for i in np.ndindex(*spec.shape) if spec.shape else [()]:
                    env[sym[i].data] = v[(slice(None),) + i]
            for name, (lo, hi) in jx.DOM.items():
                env[name] = lo + (hi - lo) * rng.random(n)
            if fixed:
                for k, v in fixed.items():
                    if k in env:
                        env[k] = np.full(n, v)
                    else:
                        env[k] = np.full(n, v)
            return env, n

        return s

    def env_to_inputs(self, env):
        vals = {}
        for k, spec in self.inputs.items():
            sym = self.symin[k].val
            a = np.zeros(spec.shape, dtype=spec.dtype)
            for i in np.ndindex(*spec.shape) if spec.shape else [()]:
                v = env.get(sym[i].data, 0)
                a[i] = v
            vals[k] = a
        return vals


def _alleqns(j):
    for e in j.eqns:
        yield e
        for p in e.params.values():
            for q in p if isinstance(p, (tuple, list)) else [p]:
                q = getattr(q, "jaxpr", q)
                if hasattr(q, "eqns"):
                    yield from _alleqns(q)


def bad_mask(kind, a, b, tol):
    with np.errstate(all="ignore"):
        if kind == "true":
            return np.logical_not(a.astype(bool))
        if kind == "finite":
            return ~np.isfinite(a.astype(float))
        a = a.astype(float)
        b = b.astype(float)
        s = tol * (1 + np.minimum(np.abs(a), np.abs(b)))
        nan = np.isnan(a) != np.isnan(b)
        if kind == "close":
            s = tol * (1 + np.abs(b))
        if kind == "grad":
            s = tol * (1e-6 + np.abs(a))
        if kind in ("eq", "close", "grad"):
            d = np.abs(a - b)
            d = np.where(a == b, 0.0, d)
            return (d > s) | nan
        # NaN never satisfies an ordering the user relies on
        nn = np.isnan(a) | np.isnan(b)
        if kind in ("le", "lemma", "use"):
            return (a - b > s) | nn
        if kind == "lt":
            return (a - b > s) | nn
    raise ValueError(kind)


def _goal(kind, a, b, tol=0.0):
    if kind == "close":
        if X.is_special(a) or X.is_special(b):
            return X.eq(a, b)
        t = X.scale(X.add(X.ONE, X.absv(b)), X.snap(tol))
        d = X.sub(a, b)
        if d is X.ZERO:
            return X.TRUE  # the tolerance is never negative
        return X.and_(X.le(d, t), X.le(X.neg(d), t))
    if kind == "true":
        return a
    if kind in ("le", "lemma"):
        return X.le(a, b)
    if kind == "lt":
        return X.lt(a, b)
    if kind in ("eq", "grad"):
        return X.eq(a, b)
    raise ValueError(kind)


class Outcome:
    def __init__(self):
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.errors = []
        self.reduced = []
        self.toleranced = {}
        self.encoding_mismatch = []
        self.obligations = 0
        self.discharged = 0
        self.harnesses = []


def jsonable(v):
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.generic,)):
        return v.item()
    return v


def innermost(exc):
    tb = exc.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.abspath(tb.tb_frame.f_code.co_filename) if tb is not None else ""


def from_repo(exc):
    """was the exception raised below a frame of the repository's own code, and not because a
    stand-in of ours lacks something or was bypassed?"""
    if isinstance(exc, NotImplementedError) and innermost(exc).startswith(os.path.dirname(os.path.abspath(__file__))):
        return False
    if isinstance(exc, AttributeError):
        o = getattr(exc, "obj", None)
        t = o if isinstance(o, type) else type(o)
        if o is not None and (t.__module__.split(".")[0] in ("vlib", "props") or t.__name__ == "SimpleNamespace"):
            return False
    if isinstance(exc, OSError) and exc.errno is not None:
        return False  # the real file system: file stand-ins raise without an errno
    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def warm(H):
    """one earlier call with other values: results must not depend on the history of calls, so
    whatever it leaves behind in the repository's modules is there when the encoding is made"""
    for vals in H.random_inputs(np.random.default_rng(987654), 1):
        try:
            H.concrete(vals)
        except Exception:
            pass


def run_harness(pid, H, out, seed=1, **kw):
    """decide every obligation of a harness; an exception of the code under test on an
    admissible input is a violation when the real code raises it too"""
    try:
        return _run_harness(pid, H, out, seed, **kw)
    except Exception as e:
        msg = traceback.format_exc()
        if from_repo(e):
            rng = np.random.default_rng(seed)
            for vals in H.random_inputs(rng, 5):
                try:
                    H.concrete(vals)
                except Exception as e2:
                    if from_repo(e2):
                        record_violation(pid, H, vals, ("raises", "raises", (), f"{type(e2).__name__}: {e2}"[:300], "no exception"), out)
                        return
        out.errors.append(f"{H.name}: {msg}")


def _run_harness(pid, H, out, seed=1, known=(), verbose=True, budget_scale=1.0):
    """decide every obligation of a harness; append to Outcome"""
    t0 = time.time()
    rng = np.random.default_rng(seed)
    q0 = dict(solve.STAT)
    warm(H)
    obs = H.trace()
    sampler = H.sampler(rng)
    if os.environ.get("VERIF_DEBUG"):
        print(f"  trace {H.name}: {time.time()-t0:.1f}s nodes={len(X._NODES)}", flush=True)
    env0 = sampler()
    # vacuity: the assumptions are satisfiable (reachability twin)
    T = solve.Trans(H.dom)
    asr = [T(h) for h in H.hyps]
    r, _ = solve.check(asr + T.base, 10000)
    reach = r
    if r != "sat":
        m = np.ones(env0[1], dtype=bool)
        for v in X.evaluate(H.hyps, env0[0]) if H.hyps else []:
            m &= np.asarray(v, dtype=bool)
        if not m.any():
            out.inconclusive.append(f"{H.name}: assumptions not shown satisfiable ({r})")
        reach = "witnessed" if m.any() else r
    done = {}
    nob = nd = 0
    labels = {}
    viol_labels = set()
    H.lemmas = []
    H.cutmemo = dict(H.cutmap)
    H.t_end = time.time() + H.deadline * budget_scale
    rank = {"lemma": 0, "use": 1}
    obs.sort(key=lambda o: rank.get(o[0], 2))
    unproved = set()
    for kind, label, tol, a, b in obs:
        if kind == "use":
            if label in labels and label not in unproved:
                for x, y in zip(a.val.reshape(-1), b.val.reshape(-1)):
                    H.lemmas.append(X.le(H.cutsub(x), H.cutsub(y)))
            continue
        okA, okB = jx.okarr(a), jx.okarr(b)
        shape = a.val.shape
        for i in np.ndindex(*shape) if shape else [()]:
            if label in viol_labels:
                continue
            nob += 1
            labels[label] = labels.get(label, 0) + 1
            x, y = a.val[i], b.val[i]
            if kind == "finite":
                goals = [X.FALSE if X.is_special(x) else okA[i]]
            elif kind == "true":
                goals = [x]
            else:
                goals = [_goal(kind, x, y, tol)]
            ok = True
            for g in goals:
                if g.op == "and" and len(g.args) <= 400:
                    subs = list(g.args)
                else:
                    subs = [g]
                for sg in subs:
                    if sg in done:
                        st = done[sg]
                    else:
                        st = _decide(H, sg, kind, x, y, tol, label, i, sampler, env0, budget_scale, pid, out)
                        done[sg] = st
                    if st != "proved":
                        ok = False
                        if st == "violation":
                            viol_labels.add(label)
                            break
                if not ok:
                    break
            if not ok:
                unproved.add(label)
            if ok:
                nd += 1
                if kind == "lemma":
                    H.lemmas.append(X.le(H.cutsub(x), H.cutsub(y)))
    out.obligations += nob
    out.discharged += nd
    dq = {k: solve.STAT[k] - q0.get(k, 0) for k in ("queries", "unsat", "sat", "unknown", "time", "lemmas")}
    rec = {
        "harness": H.name,
        "functions_encoded": H.functions,
        "jaxpr_equations": H.neqn,
        "bounds": H.bounds,
        "inputs": {k: {"shape": list(s.shape), "kind": s.kind, "range": [float(np.min(s.lo)), float(np.max(s.hi))]} for k, s in H.inputs.items()},
        "assumptions_reachable": reach,
        "obligations": nob,
        "discharged": nd,
        "obligation_labels": labels,
        "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in dq.items()},
        "wall_s": round(time.time() - t0, 2),
    }
    if H.note:
        rec["note"] = H.note
    try:
        rec["encoding_checked_against_concrete_runs"] = _validate(H, obs, env0, out)
    except Exception as e:
        rec["encoding_checked_against_concrete_runs"] = f"not run ({type(e).__name__}: {str(e)[:200]})"
    rec["wall_s"] = round(time.time() - t0, 2)
    out.harnesses.append(rec)
    if verbose:
        print(f"  [{pid}] {H.name}: {nd}/{nob} obligations, {dq['queries']} queries, {rec['wall_s']}s", flush=True)


def _validate(H, obs, env0, out, npts=1):
    """the encoding against the real code at concrete points (no random keys, whose bits are uninterpreted)"""
    if any(s.kind == "key" for s in H.inputs.values()):
        return "not applicable (uninterpreted random bits)"
    env, n = env0
    m = np.ones(n, dtype=bool)
    for v in X.evaluate(H.hyps, env) if H.hyps else []:
        m &= np.broadcast_to(np.asarray(v, dtype=bool), (n,))
    idx = np.nonzero(m)[0]
    cmp_, bad = 0, []
    for i in idx[1:1 + npts]:
        e = {k: float(solve._pick(v, int(i))) if not isinstance(solve._pick(v, int(i)), (bool, np.bool_)) else bool(solve._pick(v, int(i))) for k, v in env.items()}
        rec = H.concrete(H.env_to_inputs(e))
        byl = {}
        for (kind, label, tol), (a, b) in zip(rec.obs, rec.arrays):
            byl.setdefault((label, kind), []).append((np.asarray(a), np.asarray(b), tol))
        cnt = {}
        for kind, label, tol, a, b in obs:
            j = cnt[(label, kind)] = cnt.get((label, kind), -1) + 1
            got = byl[(label, kind)][j]
            for sym, con in list(zip((a, b), got[:2]))[kind == "grad":]:
                flat = [x for x in sym.val.reshape(-1)]
                if any(x.op == "uf" for x in flat):
                    continue
                try:
                    vals = X.evaluate(flat, e)
                except Exception:
                    continue
                for x, c in zip(vals, con.reshape(-1)):
                    cmp_ += 1
                    x, c = float(x), float(c)
                    if not (x == c or (math.isnan(x) and math.isnan(c)) or abs(x - c) <= 1e-6 * (1 + abs(c)) or not math.isfinite(x)):
                        bad.append((label, x, c))
    if bad:
        out.encoding_mismatch.append(f"{H.name}: {len(bad)}/{cmp_} values, e.g. {bad[0]}")
    return {"points": int(min(npts, max(0, len(idx) - 1))), "values_compared": cmp_, "mismatched": len(bad)}


def _decide(H, goal, kind, x, y, tol, label, idx, sampler, env0, scale, pid, out):
    def viol(env, n):
        if kind in ("true", "finite"):
            v = X.evaluate([goal], env)[0]
            return np.broadcast_to(~np.asarray(v, dtype=bool), (n,)).copy()
        va, vb = X.evaluate([x, y], env)
        va = np.broadcast_to(np.asarray(va, dtype=float), (n,))
        vb = np.broadcast_to(np.asarray(vb, dtype=float), (n,))
        m = bad_mask(kind, va, vb, tol)
        return m & ~(np.isnan(va) | np.isnan(vb))

    tried = 0
    envs = [env0]
    left = max(4.0, min(H.budget * scale, H.t_end - time.time()))
    if H.cutmap and kind != "lemma" and goal is not X.TRUE:
        gc = H.cutsub(goal) if kind in ("true", "finite") else _goal(kind, H.cutsub(x), H.cutsub(y), tol)
        if gc is not goal:
            hc = [H.cutsub(h) for h in H.hyps] + [q for q in H.lemmas if q is not X.TRUE]
            res = solve.prove(hc, gc, H.dom, viol, None, budget=left)
            if res.status == "proved":
                return "proved"
            if os.environ.get("VERIF_DEBUG"):
                print(f"    (cut) {label}{list(idx)}: {res.status} {res.note} {X.to_str(gc,6)[:600]}", flush=True)
    if kind == "grad" and _cases(H, goal, time.time() + left):
        return "proved"
    res = solve.prove(H.hyps, goal, H.dom, viol, sampler, budget=left, hint_envs=envs)
    if os.environ.get("VERIF_DEBUG") and (res.status != "proved" or res.rounds > 1):
        print(f"    {label}{list(idx)}: {res.status} {res.note} rounds={res.rounds} {X.to_str(goal,5)[:400]}", flush=True)
    if res.status == "proved":
        return "proved"
    if res.status == "cex":
        # replay on the real code
        cands = [res.env]
        for _ in range(4):
            e, n = sampler({})
            mask = solve.numeric_cex(e, H.hyps, viol, n)
            for i in np.nonzero(mask)[0][:3]:
                cands.append({k: solve._pick(v, int(i)) for k, v in e.items()})
        for env in cands:
            vals = H.env_to_inputs(env)
            if tried == 0 and _refuted(H, goal, env):
                continue
            got = replay_vals(H, vals, label)
            tried += 1
            if got:
                record_violation(pid, H, vals, got[0], out)
                return "violation"
        if tried == 0 and kind in ("finite", "true") and _cases(H, goal, time.time() + left):
            return "proved"
        out.inconclusive.append(
            f"{H.name}/{label}{list(idx)}: solver candidate did not reproduce on the real code ({tried} tried)"
        )
        return "inconclusive"
    if kind in ("eq", "le", "lt", "lemma", "close", "grad"):
        env = _climb(H, kind, tol, x, y, viol, sampler)
        if env is not None and not _refuted(H, goal, env):
            vals = H.env_to_inputs(env)
            got = replay_vals(H, vals, label)
            if got:
                record_violation(pid, H, vals, got[0], out)
                return "violation"
    if kind in ("eq", "le", "lt") and tol > 0:
        # same obligation up to the stated replay tolerance
        if kind == "eq":
            g2 = _goal("close", x, y, tol)
        else:
            g2 = X.le(x, X.add(y, X.C(tol)))
        if g2 is X.TRUE or solve.prove(H.hyps, g2, H.dom, viol, sampler, budget=left, hint_envs=[]).status == "proved":
            out.toleranced[label] = tol
            return "proved"
    if any(X.is_special(n) for n in X.postorder([x, y])):
        # undefined in the encoding (a denominator that is zero for every input): any admissible input shows it
        env, n = env0
        m = np.ones(n, dtype=bool)
        for h in X.evaluate(H.hyps, env) if H.hyps else []:
            m &= np.broadcast_to(np.asarray(h, dtype=bool), (n,))
        for i in np.nonzero(m)[0][:5]:
            vals = H.env_to_inputs({k: solve._pick(v, int(i)) for k, v in env.items()})
            got = replay_vals(H, vals, label)
            if got:
                record_violation(pid, H, vals, got[0], out)
                return "violation"
    # the full-width query did not finish: smaller bounds, stated as such
    sl = _slices(H, goal, kind, tol, x, y, viol, env0, sampler, scale)
    if sl[0] == "cex":
        vals = H.env_to_inputs(sl[1])
        got = replay_vals(H, vals, label)
        if got:
            record_violation(pid, H, vals, got[0], out)
            return "violation"
    if sl[0] == "proved":
        out.reduced.append(f"{H.name}/{label}{list(idx)}: decided only on {sl[1]} one-parameter slices of the stated box ({res.note})")
        return "proved"
    out.inconclusive.append(f"{H.name}/{label}{list(idx)}: {res.status} ({res.note})")
    return "inconclusive"


def _implied(g, atom, yes):
    """other sign conditions of g settled by this one (same term shifted by a constant)"""
    if atom.op != "lt0":
        return {}
    e, out = atom.args[0], {}
    for m in X.postorder([g]):
        if m.op != "lt0" or m is atom:
            continue
        k, s = X.sub(m.args[0], e), X.add(m.args[0], e)
        if k.op == "c":
            if yes and k.data <= 0:
                out[m] = X.TRUE
            elif not yes and k.data >= 0:
                out[m] = X.FALSE
        elif s.op == "c":
            if yes and s.data >= 0:
                out[m] = X.FALSE
            elif not yes and s.data < 0:
                out[m] = X.TRUE
    return out


def _cases(H, goal, t_end, limit=600):
    """case analysis: innermost branch conditions of the goal assumed true and false in turn, the
    term rebuilt under each; a leaf closes by the normal form or by a query under its conditions"""
    stack = [(goal, ())]
    n = 0
    while stack:
        g, pc = stack.pop()
        if g is X.TRUE:
            continue
        n += 1
        if n > limit or time.time() > t_end:
            return False
        atom = None
        for m in X.postorder([g]):
            if m.op == "ite":
                for c in X.postorder([m.args[0]]):
                    if c.op in ("lt0", "bv", "eq0"):
                        atom = c
                        break
                if atom is not None:
                    break
        if atom is None:
            r = solve.prove(H.hyps + list(pc), g, H.dom, None, None, budget=3.0)
            # a contradiction here is an infeasible branch, not a vacuous harness
            if r.status != "proved" and not (pc and r.note == "hypotheses contradictory"):
                return False
            continue
        for val in (X.FALSE, X.TRUE):
            g2 = X.substitute([g], {atom: val, **_implied(g, atom, val is X.TRUE)})[0]
            if g2 is not X.TRUE:
                stack.append((g2, pc + ((atom if val is X.TRUE else X.not_(atom)),)))
    return True


def _climb(H, kind, tol, x, y, viol, sampler, gens=25):
    """candidate finder: climb the violation margin numerically (the solver and the replay judge the result)"""
    rng = np.random.default_rng(7)
    env, n = sampler()
    names = [(k, i, H.symin[k].val[i].data) for k, s in H.inputs.items() if s.kind == "real" and not s.increasing for i in (np.ndindex(*s.shape) if s.shape else [()])]
    used = {m.data for m in X.postorder([x, y] + list(H.hyps)) if m.op == "v"}
    names = [q for q in names if q[2] in used]
    if not names:
        return None

    def score(env, n):
        va, vb = X.evaluate([x, y], env)
        va = np.broadcast_to(np.asarray(va, dtype=float), (n,))
        vb = np.broadcast_to(np.asarray(vb, dtype=float), (n,))
        with np.errstate(all="ignore"):
            d = va - vb
            if kind in ("eq", "close", "grad"):
                d = np.abs(d)
            d = d / (1 + np.minimum(np.abs(va), np.abs(vb)))
        ok = np.ones(n, dtype=bool)
        for v in X.evaluate(H.hyps, env) if H.hyps else []:
            ok &= np.broadcast_to(np.asarray(v, dtype=bool), (n,))
        return np.where(np.isfinite(d) & ok, d, -np.inf)

    try:
        for k, i, nm in names:  # scale-free draws for positive quantities
            lo, hi = float(H.inputs[k].lo[i]), float(H.inputs[k].hi[i])
            if lo > 0 and hi / lo > 30:
                m = rng.random(n) < 0.5
                env[nm] = np.where(m, lo * (hi / lo) ** rng.random(n), env[nm])
        sc = score(env, n)
        for g in range(gens):
            bad = solve.numeric_cex(env, H.hyps, viol, n)
            if bad.any():
                i = int(np.argmax(np.where(bad, sc, -np.inf)))
                return {k: solve._pick(v, i) for k, v in env.items()}
            top = np.argsort(-sc)[: max(10, n // 20)]
            if not np.isfinite(sc[top[0]]):
                return None
            src = top[rng.integers(0, len(top), n)]
            new = {k: (np.asarray(v)[src] if np.ndim(v) else v) for k, v in env.items()}
            step = 0.3 * 0.8**g
            for k, i, nm in names:
                lo, hi = float(H.inputs[k].lo[i]), float(H.inputs[k].hi[i])
                mv = rng.random(n) < 0.5
                z = rng.normal(size=n) * step * np.where(rng.random(n) < 0.5, 1.0, 0.03)
                v = new[nm]
                cand = np.where((lo > 0) & (rng.random(n) < 0.5), v * np.exp(3 * z), v + (hi - lo) * z)
                new[nm] = np.clip(np.where(mv, cand, v), lo, hi)
            nsc = score(new, n)
            keep = top[: max(5, n // 50)]
            for k in new:
                if np.ndim(new[k]):
                    new[k] = np.concatenate([np.asarray(env[k])[keep], new[k][: n - len(keep)]])
            env, sc = new, np.concatenate([sc[keep], nsc[: n - len(keep)]])
    except Exception:
        return None
    return None


def _refuted(H, goal, env):
    """solver query at the candidate's own inputs: is the negated goal unsatisfiable there?"""
    sub = {}
    for m in X.postorder([goal] + list(H.hyps)):
        if m.op in ("v", "bv") and m.data in env:
            v = env[m.data]
            sub[m.data] = (X.TRUE if v else X.FALSE) if m.op == "bv" else X.C(float(v))
    memo = {}
    g = X.substitute_names(goal, sub, memo)
    if g is X.TRUE:
        return True
    if g is X.FALSE:
        solve.STAT["canonical"] += 1
        return False
    return solve.prove([X.substitute_names(h, sub, memo) for h in H.hyps], g, H.dom, None, None, budget=4.0).status == "proved"


def _slices(H, goal, kind, tol, x, y, viol, env0, sampler, scale, nslice=6):
    """decide the obligation with all but one input pinned, at several points"""
    env, n = env0
    names = sorted({m.data for m in X.postorder([goal] + list(H.hyps)) if m.op in ("v", "bv") and m.data in env})
    free = [m for m in sorted({m.data for m in X.postorder([goal]) if m.op == "v" and m.data in env})]
    if not free:
        return ("unknown", None)
    m = np.ones(n, dtype=bool)
    for v in X.evaluate(H.hyps, env) if H.hyps else []:
        m &= np.asarray(v, dtype=bool)
    idx = np.nonzero(m)[0]
    if not len(idx):
        return ("unknown", None)
    for s in range(nslice):
        i = int(idx[(s * 37) % len(idx)])
        fv = free[s % len(free)]
        sub = {}
        for k in names:
            if k == fv:
                continue
            val = solve._pick(env[k], i)
            if isinstance(val, (bool, np.bool_)):
                sub[k] = X.TRUE if val else X.FALSE
            else:
                sub[k] = X.C(round(val, 3) if not float(val).is_integer() else int(val))
        memo = {}
        g = X.substitute_names(goal, sub, memo)
        hy = [X.substitute_names(h, sub, memo) for h in H.hyps]
        hy = [h for h in hy if h is not X.TRUE]
        if any(h is X.FALSE for h in hy):
            continue
        pinned = {k: float(v.data) if v.op == "c" else (v is X.TRUE) for k, v in sub.items()}

        def samp(fixed=None):
            e, nn = sampler(dict(pinned, **(fixed or {})))
            return e, nn

        r = solve.prove(hy, g, H.dom, viol, samp, budget=8.0 * scale if time.time() < H.t_end else 2.0)
        if r.status != "proved":
            return (r.status, r.env)
    return ("proved", nslice)


def replay_vals(H, vals, label):
    keyed = [k for k, s in H.inputs.items() if s.kind == "key"]
    tries = 1 if not keyed else 40
    for t in range(tries):
        v = dict(vals)
        for k in keyed:
            if t:
                v[k] = np.array([t, 7 * t + 1], dtype="uint32").reshape(H.inputs[k].shape) if H.inputs[k].shape == (2,) else (np.arange(np.prod(H.inputs[k].shape), dtype="uint32") * 7 + t).reshape(H.inputs[k].shape)
        got = H.concrete_check(v, label)
        if got:
            vals.update(v)
            return got
    return None


def record_violation(pid, H, vals, got, out):
    label, kind, idx, a, b = got
    os.makedirs(REPLAYS, exist_ok=True)
    n = len(out.violations)
    path = os.path.join(REPLAYS, f"{pid}_{n}.json")
    d = {
        "property": pid, "harness": H.name, "obligation": label, "kind": kind,
        "index": [int(i) for i in idx], "observed": a, "expected_bound": b,
        "inputs": jsonable(vals),
        "replay": f"/verif/check.sh {pid} --replay {path}",
    }
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    out.violations.append({"label": label, "harness": H.name, "path": path, "observed": a, "bound": b})
