"""Gradients: automatic differentiation returns the derivative of the returned value, finite everywhere."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C01 import BOUNDS, NAMES
from props.C04 import MAH_HI, MAH_LO, MS_HI, MS_LO
from props.C06 import gal_inputs

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from jax import grad
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar import calc_sfh_galpop, calc_sfh_singlegal
    from diffstar import defaults as dd
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP, DIFFSTARPOP_PBOUNDS as PB
    from diffstar.diffstarpop import utils as du
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dm
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq
    from diffstar.diffstarpop.kernels.defaults_mgash import DEFAULT_DIFFSTARPOP_U_PARAMS as DU, get_bounded_diffstarpop_params
    from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as L
    from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist_weighted
    from diffstar.diffstarpop.sumstats.smhm import compute_smhm
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh
    from diffstar.kernels import main_sequence_kernels as ms
    from diffstar.kernels import quenching_kernels as qk
    from diffstar.mgas_model import calc_mgas_singlegal
    from diffstar import utils as ut

    q = tier == "quick"
    M = DEFAULT_MAH_PARAMS._make

    def check(h, f, name, x, what, fin=True):
        g = grad(f)(x)
        h.grad(f(x), name, g, f"gradient of {what} is its derivative")
        if fin:
            h.finite(g, f"gradient of {what} finite")

    # ------------------------------------------------------------- transforms
    def transforms(h, u):
        for i, nm in enumerate(NAMES):
            check(h, lambda v, i=i: dd.get_bounded_diffstar_params(dd.DiffstarUParams._make(v))[i], "u", u, "bounded " + nm)

    def popu(h, u, k):
        names = DU._fields
        for i in k:
            check(h, lambda v, i=i: get_bounded_diffstarpop_params(DU._make(v))[i], "u", u, "bounded population parameter")
        assert len(names) == u.shape[0]

    # ------------------------------------------------------------------ kernels
    def eff(h, lgm, p):
        check(h, lambda v: ms._sfr_eff_plaw(lgm, *v), "p", p, "log efficiency (by parameter)")
        check(h, lambda v: ms._sfr_eff_plaw(v, *p), "lgm", lgm, "log efficiency (by halo mass)")

    def msk(h, t, mah, p, fb, lgt0):
        check(h, lambda v: ms.sfh_ms_kernel(t, M(mah), v, lgt0, fb), "p", p, "main-sequence rate (by galaxy parameter)")
        check(h, lambda v: ms.sfh_ms_kernel(t, M(v), p, lgt0, fb), "mah", mah, "main-sequence rate (by halo parameter)", False)
        check(h, lambda v: ms.sfh_ms_kernel(t, M(mah), p, lgt0, v), "fb", fb, "main-sequence rate (by baryon fraction)")

    def quench(h, lgt, qp):
        check(h, lambda v: qk._quenching_kern(lgt, v[0], v[1], v[2], v[3]), "qp", qp, "quenching factor (by parameter)")
        check(h, lambda v: qk._quenching_kern(v, *qp), "lgt", lgt, "quenching factor (by log time)")

    # ---------------------------------------------------------------- histories
    nt = 2 if q else 3

    def sfh(h, t, p, mah, fb, lgt0):
        f = lambda a, b, c: calc_sfh_singlegal(dd.DiffstarParams._make(a), M(b), t, lgt0=lgt0, fb=c)
        for i in range(nt):
            check(h, lambda v, i=i: f(v, mah, fb)[i], "p", p, f"star formation rate by galaxy parameter [{i}]")
            check(h, lambda v, i=i: f(p, v, fb)[i], "mah", mah, f"star formation rate by halo parameter [{i}]", False)
            check(h, lambda v, i=i: f(p, mah, v)[i], "fb", fb, f"star formation rate by baryon fraction [{i}]")

    def pop(h, t, p, mah, fb, lgt0):
        f = lambda a: calc_sfh_galpop(dd.DiffstarParams._make(a), M(mah), t, lgt0=lgt0, fb=fb, return_smh=True)
        for g in range(2):
            check(h, lambda v, g=g: f(v).sfh[g, nt - 1], "p", p, f"population star formation rate [{g}]")
            if g or not q:
                check(h, lambda v, g=g: f(v).smh[g, nt - 1], "p", p, f"population stellar mass [{g}]")

    def mass(h, t, s):
        for i in range(s.shape[0]):
            check(h, lambda v, i=i: ut.cumulative_mstar_formed(t, v)[i], "s", s, f"stellar mass by star formation rate [{i}]")
            check(h, lambda v, i=i: ut.cumulative_mstar_formed(v, s)[i], "t", t, f"stellar mass by time table [{i}]")

    def smh(h, t, p, mah, fb, lgt0):
        f = lambda a: calc_sfh_singlegal(dd.DiffstarParams._make(a), M(mah), t, lgt0=lgt0, fb=fb, return_smh=True)[1]
        check(h, lambda v: f(v)[nt - 1], "p", p, "stellar mass by galaxy parameter")

    def mgas(h, t, p, mah, fb, lgt0):
        for i in range(3):
            check(h, lambda v, i=i: calc_mgas_singlegal(dd.DiffstarParams._make(p), M(mah), t, lgt0, v).mgash[i], "fb", fb, f"gas mass by baryon fraction [{i}]", False)

    def fstar(h, t, m, td):
        for i in range(t.shape[0]):
            check(h, lambda v, i=i: ut.compute_fstar(t, v, td)[i], "m", m, f"delayed-average rate by stellar mass [{i}]")

    def interp(h, x, xt, yt):
        j = np.array([1, 2])
        for i in range(2):
            h.assume((xt[j[i] - 1] <= x[i]) & (x[i] <= xt[j[i]]))
            check(h, lambda v, i=i: ut.jax_np_interp(x, xt, v, j)[i], "yt", yt, f"interpolated value by table value [{i}]")
            check(h, lambda v, i=i: ut.jax_np_interp(v, xt, yt, j)[i], "x", x, f"interpolated value by position [{i}]")

    # -------------------------------------------------------------- populations
    F = list(DP._fields)
    FQ = [f for f in F if f.startswith("frac_quench")]
    MS_ = [f for f in F if f.startswith(("mean_", "std_")) and "mseq" in f]
    QS = [f for f in F if f.startswith(("mean_", "std_", "delta_")) and "mseq" not in f]
    SQ = list(sq.DEFAULT_SATQUENCHPOP_PARAMS._fields)

    def box(names, margin=1e-3):
        b = np.array([[float(v) for v in getattr(PB, f)] for f in names])
        m = margin * (b[:, 1] - b[:, 0])
        return In(len(names), b[:, 0] + m, b[:, 1] - m)

    def fracs(h, a, s, logmp, tp, lgmu, lgmh, gyr):
        def f(a, s, logmp, tp, lgmu, lgmh, gyr):
            p = DP._replace(**dict(zip(FQ, a)), **dict(zip(SQ, s)))
            return dm._diffstarpop_means_covs(p, logmp, tp, lgmu, lgmh, gyr)[:2]
        A = (a, s, logmp, tp, lgmu, lgmh, gyr)
        for k, tag in enumerate(("central", "satellite")):
            for n, (nm, x) in enumerate(zip(("a", "s", "logmp", "tp", "lgmu", "lgmh", "gyr"), A)):
                check(h, lambda v, k=k, n=n: f(*A[:n], v, *A[n + 1:])[k], nm, x, f"{tag} quenched fraction by {nm}")

    def moments(h, a, logmp, tp, names=None):
        def f(a, logmp, tp):
            r = dm._diffstarpop_means_covs_cen(DP._replace(**dict(zip(names, a))), logmp, tp)[2:]
            return [jnp.stack(list(x)) if isinstance(x, tuple) else x for x in r]
        which = (0, 2) if names is MS_ else (1, 3, 4)
        lab = {0: "main-sequence mean", 1: "quenched mean", 2: "main-sequence covariance", 3: "quenched covariance", 4: "quenching covariance"}
        shp = jax.eval_shape(f, a, logmp, tp)
        for k in which:
            for i in range(shp[k].shape[0]):
                pick = (lambda r, i=i: r[i]) if len(shp[k].shape) == 1 else (lambda r, i=i: r[i, i])
                check(h, lambda v, k=k, pick=pick: pick(f(v, logmp, tp)[k]), "a", a, f"{lab[k]} [{i}] by population parameter")
                check(h, lambda v, k=k, pick=pick: pick(f(a, v, tp)[k]), "logmp", logmp, f"{lab[k]} [{i}] by halo mass")

    # --------------------------------------------------------------- statistics
    def hist(h, x, s, y, e):
        f = lambda x, s, y: tw_ndhist_weighted(x[:, None], s[:, None], y, e[:-1, None], e[1:, None])
        A = (x, s, y)
        for b in range(2):
            for n, nm in enumerate(("x", "s", "y")):
                check(h, lambda v, b=b, n=n: f(*A[:n], v, *A[n + 1:])[b], nm, A[n], f"weighted histogram bin {b} by {nm}")

    def smhm(h, x, s, y, e):
        A = (x, y)
        for b in range(2):
            h.assume(tw_ndhist_weighted(x[:, None], s[:, None], jnp.ones(2), e[:-1, None], e[1:, None])[b] > 0.01)
        for n, nm in enumerate(("x", "y")):
            check(h, lambda v, n=n: compute_smhm(*A[:n], v, *A[n + 1:], s, e)[0], nm, A[n], f"mean relation by {nm}")

    def hist1(h, x, w, bins):
        f = lambda x, w: L.compute_diff_histograms_mstar_atmobs_z(bins, x, w)
        if not q:
            check(h, lambda v: f(v, w)[0], "x", x, "stellar-mass distribution by mass", False)
        check(h, lambda v: f(x, v)[0], "w", w, "stellar-mass distribution by weight", False)

    def mse(h, a, b):
        check(h, lambda v: L._mse(v, b), "a", a, "mean squared difference by prediction")

    # -------------------------------------------------------------- fitting loss
    def loss(h, **I):
        if q:
            I["mah"] = np.array([12.3, 0.4, 2.5, 0.9, 11.0])
        d = (I["t"], M(I["mah"]), 10.0 ** I["lsm"], I["lsm"], I["sfr"], I["lfs"], I["tdelay"], I["floor"], I["w"], I["wf"], I["lgtmax"], I["lgt0"], I["fb"])
        full = lambda v: jnp.concatenate([v[:3], I["uhi"][None], v[3:]])
        check(h, lambda v: dfh.loss_default_clipssfrh(full(v), d), "u", I["u"], "fitting loss by unbounded galaxy parameter")

    G = gal_inputs(nt)
    G2 = dict(G, p=In((8, 2), np.stack([G["p"].lo] * 2, 1), np.stack([G["p"].hi] * 2, 1)), mah=In((5, 2), np.stack([MAH_LO] * 2, 1), np.stack([MAH_HI] * 2, 1)))
    P = In(4, MS_LO, MS_HI)
    qp = In(4, [0.1, 1e-3, -3, -3], [2.0, 0.97, 0, 0])
    mah = In(5, MAH_LO, MAH_HI)
    logmp, tp = In((), 8, 17), In((), 0.1, 20)
    E = {"lgmu": In((), -8, 0), "lgmh": In((), 8, 17), "gyr": In((), -100, 20)}
    nl = 1
    T = In(nl, 0.05, 14, increasing=True, gap=1e-3)
    LI = {"t": T, "mah": mah, "u": In(7, -5, 5), "uhi": In((), -5, 5), "lsm": In(nl, 0, 13), "sfr": In(nl, 1e-14, 1e4), "lfs": In(nl, -8, 5), "tdelay": In((), 0.05, 3), "floor": In((), 1e-14, 1e-9),
          "w": In(nl, 0.1, 1e3), "wf": In(nl, 0.1, 1e3), "lgtmax": In((), -1, 1.2), "lgt0": G["lgt0"], "fb": G["fb"]}
    npop = len(DU._fields)
    pick = range(0, npop, 5) if q else range(npop)
    edges = In(3, 7, 13, increasing=True, gap=1e-3)
    H = lambda n, i, f, fs, b, **k: Harness(n, i, f, fs, b, **k)
    return [
        H("transforms", {"u": In(8, -50, 50)}, transforms, ["defaults.get_bounded_diffstar_params"], "unbounded parameters in [-50,50]"),
        H("population_transforms", {"u": In(npop, -50, 50)}, lambda h, u: popu(h, u, pick), ["kernels.defaults_mgash.get_bounded_diffstarpop_params"], f"{len(pick)} of {npop} parameters, any unbounded values in [-50,50]"),
        H("efficiency", {"lgm": In((), 5, 16), "p": P}, eff, ["main_sequence_kernels._sfr_eff_plaw"], "mass 5..16, parameters in their boxes"),
        H("main_sequence", {"t": In((), 0.05, 20), "mah": mah, "p": P, "fb": In((), 0.01, 1), "lgt0": In((), 0.9, 1.3)}, msk, ["main_sequence_kernels.sfh_ms_kernel"], "every galaxy and halo parameter"),
        H("quenching", {"lgt": In((), -1, 2), "qp": qp}, quench, ["quenching_kernels._quenching_kern"], "log time -1..2, parameters in their boxes"),
        H("sfh", G, sfh, ["sfh_model.calc_sfh_singlegal"], f"{nt} times, every parameter"),
        H("population", G2, pop, ["sfh_model.calc_sfh_galpop"], f"2 galaxies, {nt} times"),
        H("mass", {"t": In(3, 0.01, 20, increasing=True), "s": In(3, 0, 1e4)}, mass, ["utils.cumulative_mstar_formed"], "3 times"),
        H("smh", G, smh, ["sfh_model.calc_sfh_singlegal(return_smh)"], f"{nt} times"),
        H("gas", dict(G, t=In(3, 0.05, 20, increasing=True, gap=1e-3)), mgas, ["mgas_model.calc_mgas_singlegal"], "3 times"),
        H("delayed_rate", {"t": In(3, 0.05, 14, increasing=True, gap=1e-3), "m": In(3, 1, 1e12), "td": In((), 0.05, 3)}, fstar, ["utils.compute_fstar"], "3 times"),
        H("interpolation", {"x": In(2, 0, 10), "xt": In(3, 0, 10, increasing=True, gap=1e-3), "yt": In(3, -10, 10)}, interp, ["utils.jax_np_interp"], "3 knots"),
        H("fractions", dict(E, a=box(FQ), s=box(SQ), logmp=logmp, tp=tp), fracs, ["diffstarpop_mgash._diffstarpop_means_covs"], "every fraction and satellite parameter, halo mass, peak time and infall history"),
        H("moments_ms", {"a": box(MS_), "logmp": logmp, "tp": tp}, lambda h, a, logmp, tp: moments(h, a, logmp, tp, MS_), ["diffstarpop_mgash._diffstarpop_means_covs_cen"], f"{len(MS_)} parameters of the main sequence"),
        H("moments_q", {"a": box(QS), "logmp": logmp, "tp": tp}, lambda h, a, logmp, tp: moments(h, a, logmp, tp, QS), ["diffstarpop_mgash._diffstarpop_means_covs_cen"], f"{len(QS)} parameters of the quenched sequence"),
        H("histogram", {"x": In(2, 7, 13), "s": In(2, 0.1, 1), "y": In(2, -5, 5), "e": edges}, hist, ["sumstats.diffndhist.tw_ndhist_weighted"], "2 points, 2 bins"),
        H("smhm", {"x": In(2, 7, 13), "s": In(2, 0.1, 1), "y": In(2, 5, 12), "e": edges}, smhm, ["sumstats.smhm.compute_smhm"], "2 points, 2 bins"),
        H("distribution", {"x": In(2, 7, 13), "w": In(2, 0.01, 1), "bins": edges}, hist1, ["compute_diff_histograms_mstar_atmobs_z"], "2 points, 2 bins"),
        H("mse", {"a": In(4, -10, 10), "b": In(4, -10, 10)}, mse, ["_mse"], "4 values"),
        H("fitting_loss", {k: v for k, v in LI.items() if not q or k != "mah"}, loss, ["fitting_helpers.diffstar_fitting_helpers.loss_default_clipssfrh"], "1 snapshot, every galaxy parameter, target and weight" + (", one halo" if q else ", every halo"), budget=90, deadline=500),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C28", H, out, seed)
