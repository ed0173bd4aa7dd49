"""A population fit keeps the best parameters it visited."""
import os
import types

import numpy as np
import z3

from vlib.fakeio import FS
from vlib.pysym import NP, OA, SV, dual, hassym, holds, isfin1, oa, replay_with, run_harness, same, tosv
from vlib.ranks import World, _Proxy, run_script

LEVEL = "other"
ASSUMPTIONS = ["the loss is an arbitrary function of the parameters (finite at the start), the optimiser's next point an arbitrary function of its history; bounded parameters are an injective stand-in",
               "parameters are stored in single precision by the script; compared to that precision in replays"]
EXPLANATION = (
    "The real fitting script ran with symbolic losses (each finite or NaN), symbolic gradients (each finite or not) and symbolic optimiser points; z3 decided on every path that what is saved is a "
    "visited point of least loss. Counterexamples were replayed with numbers on real numpy."
)
T = z3.BoolVal
NAME = "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py"
KERN = {"mstar": ("loss_mstar_kern_tobs_grad_wrapper", ["m"]), "mstar_ssfr_cen": ("loss_combined_wrapper", ["m", "c"]), "mstar_ssfr_cen_sat": ("loss_combined_3loss_wrapper", ["m", "c", "s"])}


def hs(tier):
    from diffstar.diffstarpop.kernels import defaults_mgash as dm
    from diffstar.diffstarpop.kernels import params as pm
    from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as lk

    q = tier == "quick"
    U = dm.DEFAULT_DIFFSTARPOP_U_PARAMS
    N = len(U)
    SLOPE = np.arange(N) * 0.01

    def bounded(u):
        assert type(u)._fields == U._fields
        return dm.DEFAULT_DIFFSTARPOP_PARAMS._make([x * 0.5 + float(j) for j, x in enumerate(u)])

    def fit(v, loss_type, start, nstep, nan):
        fs = FS()
        saved, evals, problems = [], [], []
        file_u = np.array(U) * 0.9 + 0.123
        if start == "default":
            argv, p0 = [], np.array(U, dtype=float)
        elif start == "file":
            argv, p0 = ["--params_path", "in/start.npz"], file_u
        else:
            p0 = np.array(pm.DiffstarPop_UParams_Diffstarfits_mgash[start], dtype=float)
            argv = ["--params_path", "diffstarfits_" + start]
        memo = {}

        def key(p):
            x = p[0]
            return str(z3.simplify(tosv(x).v)) if v.symbolic else round(float(x), 6)

        def losses(name):
            def f(p, *data):
                if name != KERN[loss_type][0] or [d[0] for d in data] != KERN[loss_type][1] or any(d[1:] != ("in/", 7) for d in data):
                    problems.append("loss or data")
                if np.shape(p) != (N,):
                    problems.append("shape")
                k = key(p)
                if k not in memo:
                    i = len(memo)
                    lo = v.real(f"loss{i}", 0, 1000, nan=nan and i > 0)
                    g = np.zeros(N).astype(object)
                    g[3] = v.real(f"grad{i}", 1000 * i, 1000 * i + 1, nan=nan and i > 0)
                    memo[k] = (np.array(p, copy=True).view(OA) if v.symbolic else np.array(p, dtype=float), lo if v.symbolic else np.float64(lo), g.view(OA) if v.symbolic else g.astype(float))
                evals.append(k)
                return memo[k][1], memo[k][2]
            return f

        count = [0]
        fin = lambda x: bool(isfin1(x)) if v.symbolic else bool(np.isfinite(x))

        def adam(step, *a, **k):
            def update(i, g, state):
                count[0] += 1
                n = count[0]
                k = key(state)
                if k in memo and fin(memo[k][1]) and fin(memo[k][2][3]) and not bool(v_same(g[3], memo[k][2][3])):
                    problems.append("gradient")
                b = v.real(f"p{n}", 100 * n, 100 * n + 1)
                r = np.empty(N, dtype=object)
                for j in range(N):
                    r[j] = b + float(SLOPE[j])
                return r.view(OA) if v.symbolic else r.astype(float)

            return (lambda p: p), update, (lambda s: s)

        def v_same(a, b):
            f = z3.simplify(same(a, b))
            return z3.is_true(f) if not v.symbolic or z3.is_false(f) else _decide(f)

        def _decide(f):
            from vlib.pysym import SB

            return bool(SB(f))

        # numpy's file functions
        def savez(fn, *a, **k):
            saved.append((str(fn), k))

        def load(fn, **k):
            if fs.key(fn) != fs.key("in/start.npz"):
                raise FileNotFoundError(fn)
            return {"diffstarpop_u_params": file_u, "diffstarpop_params": file_u * 0.0}

        rnd = types.SimpleNamespace(randint=lambda *a, **k: 7)
        npx = NP(random=rnd, savez=savez, load=load) if v.symbolic else _Proxy(np, random=rnd, savez=savez, load=load)

        class JN:
            def __getattr__(self, n):
                import jax.numpy as jnp

                if n in ("asarray", "array"):
                    return lambda x, *a, **k: oa(x) if hassym(x) else np.asarray(x, *a, **k)
                return getattr(jnp, n)

        import jax

        helper = types.SimpleNamespace(**{"get_loss_data_pdfs_" + n: (lambda t: lambda d, nh, *a, **k: ((t, d, nh), "plot"))(t) for n, t in (("mstar", "m"), ("ssfr_central", "c"), ("ssfr_satellite", "s"))})
        opt = types.SimpleNamespace(adam=adam)
        mods = {"numpy": npx, "jax": _Proxy(jax, numpy=JN()), "jax.example_libraries": types.SimpleNamespace(optimizers=opt), "fit_get_loss_helpers_mgash": helper,
                "diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz": _Proxy(lk, **{n: losses(n) for n in dir(lk) if n.startswith("loss") and n.endswith("_wrapper")}),
                "diffstar.diffstarpop.kernels.defaults_mgash": _Proxy(dm, get_bounded_diffstarpop_params=bounded)}
        w = World(fs, 1)
        run_script(os.path.join(os.environ.get("VERIF_REPO", "/repo"), NAME),
                   ["-indir", "in/", "-outdir", "res", "-nhalos", "7", "-nstep", str(nstep), "-outname", "best", "-loss_type", loss_type] + argv, w, mods)
        out = [("the loss asked for, on the data asked for, at points of the optimiser", T("loss or data" not in problems and "shape" not in problems)),
               ("each step follows the gradient at its own point", T("gradient" not in problems)),
               ("the fit starts at the requested parameters", same(memo[evals[0]][0], p0)),
               ("one result is saved where it was asked for", T(len(saved) == 1 and os.path.normpath(saved[0][0]) == "res/best.npz" and set(saved[0][1]) == {"diffstarpop_params", "diffstarpop_u_params"}))]
        if len(saved) != 1 or "diffstarpop_u_params" not in saved[0][1]:
            return out
        u, p = saved[0][1]["diffstarpop_u_params"], saved[0][1].get("diffstarpop_params")
        usable = [k for k in memo if fin(memo[k][1]) and fin(memo[k][2][3])]
        eq = lambda a, b: same(a, b, 1e-6)
        found = []
        for k in usable:
            found.append(z3.And([eq(u, memo[k][0])] + [tosv(memo[k][1]).v <= tosv(memo[o][1]).v if v.symbolic else T(bool(np.float32(memo[k][1]) <= np.float32(memo[o][1]))) for o in usable]))
        out.append(("saved unbounded parameters are a visited point of least finite loss", z3.Or(found) if np.shape(u) == (N,) else T(False)))
        out.append(("saved parameters are the bounded form of the saved unbounded ones", eq(p, list(bounded(U._make(list(u))))) if np.shape(u) == np.shape(p) == (N,) else T(False)))
        out.append(("every step of the budget is taken while losses and gradients are finite", T(len(usable) < len(memo) or len(memo) == nstep)))
        return out

    starts = ["default", "file"] + list(pm.DiffstarPop_UParams_Diffstarfits_mgash)[:1 if q else None]
    dl = 250 if q else 2500
    F = [NAME]
    out = [dual(f"start_{s}_{t}", lambda v, s=s, t=t: fit(v, t, s, 2, False), F, f"2 steps, loss {t}, start {s}, every loss and point symbolic", dl) for s in starts for t in KERN]
    for n, nan in ((1, False), (2, True), (3, False), (3, True), (4, False)) if q else ((4, True), (6, False)):
        out.append(dual(f"steps_{n}" + ("_nan" if nan else ""), lambda v, n=n, nan=nan: fit(v, "mstar", "default", n, nan), F,
                        f"{n} steps" + (", every later loss and gradient finite or not" if nan else "") + ", every loss and point symbolic", dl))
    return out


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C31", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    return replay_with(hs(d.get("tier", "quick")), d)
