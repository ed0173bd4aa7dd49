"""Building blocks: sigmoids and their inverses, bounding constants, broadcasting, selection, the single L-BFGS fit."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.npshim import J, patched, run_np

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffstar import utils as ut
    from diffstar.diffstarpop import param_utils as pu
    from diffstar.diffstarpop import utils as du
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq
    from diffstar.defaults import DiffstarParams
    from diffstar.kernels import main_sequence_kernels as ms
    from diffstar.kernels import quenching_kernels as qk

    SIG = (("package", ut._sigmoid), ("population", du._sigmoid))
    INV = (("package", ut._inverse_sigmoid), ("population", du._inverse_sigmoid))

    # ------------------------------------------------------------------ sigmoid
    def sig(h, x, x0, k, a, b):
        for tag, f in SIG:
            y = f(x, x0, k, a, b)
            h.eq((y - a) * (1 + jnp.exp(-k * (x - x0))), b - a, f"{tag}: sigmoid from the first level to the second")
            h.between(y, jnp.minimum(a, b), jnp.maximum(a, b), f"{tag}: sigmoid between its levels")
            h.eq(f(x0, x0, k, a, b), 0.5 * (a + b), f"{tag}: halfway at the centre")
            h.eq(f(x0 - (x - x0), x0, k, a, b), a + b - y, f"{tag}: symmetric about the centre")
            h.eq(f(x, x0, k, a, a), a, f"{tag}: constant between equal levels")
            h.eq(f(x, x0, 0.0, a, b), 0.5 * (a + b), f"{tag}: flat for zero speed")

    def sig_mono(h, x, dx, x0, k, a, d):
        for tag, f in SIG:
            h.le(f(x, x0, k, a, a + d), f(x + dx, x0, k, a, a + d), f"{tag}: sigmoid rises with its argument")
            h.le(f(x + dx, x0, -k, a, a + d), f(x, x0, -k, a, a + d), f"{tag}: negative speed reverses it")

    def sig_steep(h, x0, dx, k, a, b):
        # ten e-foldings past the centre the level is reached to 1e-4 of the height
        h.assume(k * dx >= 10)
        for tag, f in SIG:
            d = 1e-4 * jnp.abs(b - a)
            h.between(f(x0 + dx, x0, k, a, b), b - d, b + d, f"{tag}: upper level reached far above the centre")
            h.between(f(x0 - dx, x0, k, a, b), a - d, a + d, f"{tag}: lower level reached far below the centre")

    def inv(h, w, x0, k, a, d):
        y = a + d * w
        for (tag, f), (_, g) in zip(SIG, INV):
            h.eq(f(g(y, x0, k, a, a + d), x0, k, a, a + d), y, f"{tag}: sigmoid of the inverse")

    def inv2(h, x, x0, k, a, d):
        h.assume((k * (x - x0) <= 30) & (k * (x - x0) >= -30))
        for (tag, f), (_, g) in zip(SIG, INV):
            h.eq(g(f(x, x0, k, a, a + d), x0, k, a, a + d), x, f"{tag}: inverse of the sigmoid")

    def inv_default(h, w):
        h.eq(du._inverse_sigmoid(2 * w - 1), du._inverse_sigmoid(2 * w - 1, 0.0, 1.0, -1.0, 1.0), "default levels are -1 and 1, unit speed, centre 0")

    def poly(h, x, dx, x0, k, a, d):
        f = lambda v, s=1.0: ut.sigmoid_poly(v, x0, s * k, a, a + d)
        y = f(x)
        h.between(y, a, a + d, "algebraic sigmoid between its levels")
        h.eq(f(x0), a + 0.5 * d, "algebraic sigmoid halfway at the centre")
        h.eq(f(x0 - (x - x0)), 2 * a + d - y, "algebraic sigmoid symmetric")
        z = k * (x - x0)
        h.eq(((y - a) - 0.5 * d) ** 2 * (1 + z * z), 0.25 * d * d * z * z, "algebraic sigmoid formula")
        h.le(0.0, ((y - a) - 0.5 * d) * z, "algebraic sigmoid above half after its centre")

    # ----------------------------------------------------------- bounding constants
    def bounds(h, lo, w, u):
        from collections import OrderedDict

        for tag, mod in (("main sequence", ms), ("quenching", qk)):
            B = OrderedDict(p=(lo[0], lo[0] + w[0]), q=(lo[1], lo[1] + w[1]))
            r = run_np(h, mod, mod.calculate_sigmoid_bounds, (B,))
            h.true(list(r) == ["p", "q"] and all(len(v) == 4 for v in r.values()), f"{tag}: one set of constants per parameter, same order")
            for i, k in enumerate(r):
                c, s, a, b = [J(v) for v in r[k]]
                h.eq(a, lo[i], f"{tag}: lower bound kept")
                h.eq(b, lo[i] + w[i], f"{tag}: upper bound kept")
                h.eq(2 * c, 2 * lo[i] + w[i], f"{tag}: centred on the middle of the range")
                h.eq(s * w[i], 4.0, f"{tag}: unit slope at the centre")

    # ------------------------------------------------------------------ selection
    n = 3 if tier == "quick" else 5

    def select(h, p1, p0, m):
        A, B = DiffstarParams(*p1), DiffstarParams(*p0)
        r = pu.mc_select_diffstar_params(A, B, m)
        h.true(r._fields == DiffstarParams._fields, "selected parameters keep their names")
        for i, f in enumerate(DiffstarParams._fields):
            for g in range(n):
                h.eq(getattr(r, f)[g], jnp.where(m[g], p1[i, g], p0[i, g]), "every parameter of a galaxy comes from its selected draw")

    def select1(h, p1, p0, m):
        r = pu.mc_select_diffstar_params(DiffstarParams(*p1), DiffstarParams(*p0), m)
        for i in range(8):
            h.eq(r[i], jnp.where(m, p1[i], p0[i]), "selection for a single galaxy")

    # ---------------------------------------------------------------- broadcasting
    def one_d(h, a, b, c, tol=1e-8):
        r = run_np(h, ut, ut.get_1d_arrays, (a, b, c[None]))
        h.true(len(r) == 3 and all(J(x).shape == (n,) for x in r), "one array per argument, of the common length")
        for i in range(n):
            h.eq(J(r[0])[i], a, "a scalar is repeated", tol)
            h.eq(J(r[1])[i], b[i], "an array is unchanged", tol)
            h.eq(J(r[2])[i], c, "a one-element array is repeated", tol)
        for bad in ((b, jnp.zeros(n + 1)), (a, b[:2], b)):
            try:
                run_np(h, ut, ut.get_1d_arrays, bad)
                ok = False
            except AssertionError:
                ok = True
            h.true(ok, "arrays of different lengths are refused")

    # ------------------------------------------------------------------ satellites
    S = sq.DEFAULT_SATQUENCHPOP_PARAMS._fields
    SB = np.array([sq.SATQUENCHPOP_PBOUNDS_PDICT[k] for k in S])

    def sat(h, p, mu, mh, gyr):
        P = sq.DEFAULT_SATQUENCHPOP_PARAMS._make(p)
        sg = lambda x, x0, k, a, b: a + (b - a) / (1 + jnp.exp(-k * (x - x0)))
        lo = sg(mu, P.qphi_lgmu_crit, sq.LGMU_SPEED, P.lgmu_lo_mh_lo, P.lgmu_hi_mh_lo)
        hi = sg(mu, P.qphi_lgmu_crit, sq.LGMU_SPEED, P.lgmu_lo_mh_hi, P.lgmu_hi_mh_hi)
        want = sg(mh, P.qp_lgmh_crit, sq.DEFAULT_LGMH_K, lo, hi)
        h.eq(sq._qprob_hi_vs_sub_host_mass(P, mu, mh), want, "late-time boost interpolates the four corner levels in mass ratio and host mass")
        td = sq._t_delay_vs_logmhost(P, mh)
        h.eq(td, sg(mh, P.td_lgmhc, sq.DEFAULT_LGMH_K, P.td_mlo, P.td_mhi), "delay goes from its low-mass to its high-mass level with host mass")
        g = sq._satquench_kernel(gyr, (td, want))
        h.eq(g, want / (1 + jnp.exp(-sq.DEFAULT_Q_SPEED * (gyr - td))), "boost switches on at the delay")
        h.eq(sq._satquench_kernel(td, (td, want)), 0.5 * want, "half the boost at the delay")

    # ---------------------------------------------------------------------- L-BFGS
    def lbfgs(h, x0, xb, f, d, g):
        got = {}

        class R:
            pass

        def stub(fun, x0=None, method=None, jac=None, args=()):
            got.update(x0=x0, method=method, l=fun(x0, *args), j=jac(x0, *args))
            R.x, R.fun = xb, f
            return R

        loss = lambda p, dd: jnp.sum(jnp.asarray(p) * dd)
        deriv = lambda p, dd: jnp.asarray(dd) + g
        tof = lambda v: v
        with patched(du, minimize=stub, float=tof):
            p, l, s = du.minimizer(loss, deriv, x0, d)
        h.eq(jnp.asarray(p), xb, "returns the optimiser's point")
        h.eq(l, f, "returns the optimiser's loss")
        h.true(s == 1, "success flag")
        h.eq(jnp.asarray(got["x0"]), x0, "starts at the caller's point")
        h.eq(got["l"], jnp.sum(x0 * d), "minimises the caller's loss with the caller's data")
        h.eq(jnp.asarray(got["j"]), d + g, "uses the caller's gradient with the caller's data")
        h.true(got["method"] == "L-BFGS-B", "method")

    # ------------------------------------------------------------- stored relation
    def targets(h, b, r):
        import contextlib
        import os
        import types
        from diffstar.diffstarpop.sumstats import smdpl_smhm_targets as tg

        class D:
            def __init__(self, a):
                self.a = a

            def __getitem__(self, k):
                return self.a[k]

        seen = []

        @contextlib.contextmanager
        def File(fn, mode="r", **kw):
            seen.append((fn, mode))
            yield {"logmh_bins": D(b), "smhm": D(r), "other": D(b + r)}

        with patched(tg, h5py=types.SimpleNamespace(File=File)):
            x = tg.umachine_smhm_z0_allhalos()
        h.true(len(x) == 2, "two tables")
        h.eq(x[0], b, "halo-mass bins as stored")
        h.eq(x[1], r, "relation as stored")
        h.true(all(m == "r" for _, m in seen) and all(os.path.basename(f) == "smdpl_smhm_z0.h5" for f, _ in seen), "the shipped table is opened for reading")

    x, x0, k = In((), -50, 50), In((), -50, 50), In((), -20, 20)
    kp, a, d = In((), 1e-2, 20), In((), -100, 100), In((), 1e-3, 100)
    fs = ["utils._sigmoid", "utils._inverse_sigmoid", "utils.sigmoid_poly", "diffstarpop.utils._sigmoid", "diffstarpop.utils._inverse_sigmoid"]
    b = "arguments and centres in [-50,50], speeds in [-20,20], levels in [-100,100]"
    return [
        Harness("sigmoid", {"x": x, "x0": x0, "k": k, "a": a, "b": a}, sig, fs, b),
        Harness("sigmoid_monotone", {"x": x, "dx": In((), 0, 50), "x0": x0, "k": kp, "a": a, "d": d}, sig_mono, fs, b),
        Harness("sigmoid_levels", {"x0": x0, "dx": In((), 0, 1000), "k": kp, "a": a, "b": a}, sig_steep, fs, b + ", ten e-foldings from the centre"),
        Harness("inverse", {"w": In((), 1e-6, 1 - 1e-6), "x0": x0, "k": kp, "a": a, "d": d}, inv, fs, b),
        Harness("inverse2", {"x": x, "x0": x0, "k": kp, "a": a, "d": d}, inv2, fs, b + ", within thirty e-foldings of the centre"),
        Harness("inverse_default", {"w": In((), 1e-6, 1 - 1e-6)}, inv_default, fs, "levels strictly between -1 and 1"),
        Harness("sigmoid_poly", {"x": x, "dx": In((), 0, 50), "x0": x0, "k": k, "a": a, "d": d}, poly, fs, b),
        Harness("bounds", {"lo": In(2, -100, 100), "w": In(2, 1e-3, 100), "u": x}, bounds, ["main_sequence_kernels.calculate_sigmoid_bounds", "quenching_kernels.calculate_sigmoid_bounds"], "two parameters, any bounds in [-100,200]"),
        Harness("select", {"p1": In((8, n), -100, 100), "p0": In((8, n), -100, 100), "m": In(n, kind="bool")}, select, ["param_utils.mc_select_diffstar_params"], f"{n} galaxies"),
        Harness("select_one", {"p1": In(8, -100, 100), "p0": In(8, -100, 100), "m": In((), kind="bool")}, select1, ["param_utils.mc_select_diffstar_params"], "one galaxy"),
        Harness("one_d_ids", {"a": In((), -1e12, 1e12, kind="int"), "b": In(n, -1e12, 1e12, kind="int"), "c": In((), 0, 1e12, kind="int")}, lambda h, a, b, c: one_d(h, a, b, c, 0), ["utils.get_1d_arrays"], f"length {n}, whole numbers such as identifiers"),
        Harness("one_d", {"a": In(()), "b": In(n), "c": In(())}, one_d, ["utils.get_1d_arrays"], f"length {n}"),
        Harness("satellites", {"p": In(len(S), SB[:, 0], SB[:, 1]), "mu": In((), -8, 0), "mh": In((), 8, 17), "gyr": In((), -100, 20)}, sat, ["satquenchpop_model._qprob_hi_vs_sub_host_mass", "satquenchpop_model._t_delay_vs_logmhost", "satquenchpop_model._satquench_kernel"], "every satellite parameter in its bounds"),
        Harness("targets", {"b": In(3), "r": In(3)}, targets, ["smdpl_smhm_targets.umachine_smhm_z0_allhalos"], "3 bins"),
        Harness("lbfgs", {"x0": In(3), "xb": In(3), "f": In(()), "d": In(3), "g": In(3)}, lbfgs, ["diffstarpop.utils.minimizer"], "3 parameters"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C29", H, out, seed)
