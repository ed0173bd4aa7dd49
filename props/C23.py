"""Fitting a star formation history: targets, snapshot weights, loss, and what the fitter returns."""
import numpy as np

from props.C06 import gal_inputs
from props.C08 import spec as integral
from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from vlib.npshim import J, MArr, run_np

LEVEL = "other"
BIG = 1e10


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from jax import grad
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_singlehalo
    from diffstar import calc_sfh_singlegal
    from diffstar import defaults as dd
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh
    from diffstar.utils import compute_fstar

    M = DEFAULT_MAH_PARAMS._make
    q = tier == "quick"
    n = 4 if q else 6

    def weights(h, t, lsm, lfs, tdelay, dlogm, tmin, mmin):
        w, wf = run_np(h, dfh, dfh.get_weights, (t, lsm, lfs, tdelay, dlogm, tmin, mmin))
        w, wf = J(w), J(wf)
        n = len(t)
        cut = jnp.minimum(lsm[-1] - 0.5, mmin)
        fmax = jnp.max(lfs)
        for i in range(n):
            keep = (lsm[i] > lsm[-1] - dlogm) & (lsm[i] > cut) & (t[i] >= tmin)
            h.eq(w[i], jnp.where(keep, jnp.where(lsm[-1] - lsm[i] < 0.1, 0.5, 1.0), BIG), "mass weight: excluded snapshots do not count, those within 0.1 dex of the final mass count double")
            keepf = keep & (t[i] >= tdelay + 0.01)
            h.eq(wf[i], jnp.where(keepf, jnp.where(fmax - lfs[i] < 0.1, 0.5, 1.0), BIG), "rate weight: excluded snapshots and those within the delay do not count, those within 0.1 dex of the peak count double")

    def targets(h, t, sfh, mah, tdelay, floor, lgt0, fb, dlogm, tmin, mmin):
        kw = dict(dlogm_cut=dlogm, t_fit_min=tmin, mass_fit_min=mmin, fstar_tdelay=tdelay, ssfrh_floor=floor, lgt0=lgt0, fb=fb)
        (u0, err), data = run_np(h, dfh, dfh.get_loss_data_default, (t, sfh, M(mah)), kw)
        (t_, mah_, ms, lms, sfr, lfs, td, fl, w, wf, lgtmax, lg0, fb_) = data
        n = len(t)
        ms, lms, sfr, lfs = J(ms), J(lms), J(sfr), J(lfs)
        h.eq(J(t_), t, "times")
        h.eq(jnp.stack([J(x) for x in mah_]), mah, "halo parameters")
        for a, b, l in ((td, tdelay, "delay"), (fl, floor, "specific rate floor"), (lg0, lgt0, "present-day time"), (fb_, fb, "baryon fraction")):
            h.eq(J(a), b, f"the fit uses the caller's {l}")
        ref = integral(t, sfh)
        for i in range(n):
            h.eq(ms[i], ref[i], "target mass is the time integral of the target history")
            h.eq(lms[i], jnp.log10(ms[i]), "log mass")
            h.eq(sfr[i], jnp.maximum(sfh[i], dd.SFR_MIN), "target rate is the history above the smallest rate")
        # delayed-average rate: at least the floor times the mass, at least a thousandth of the peak
        fs = jnp.maximum(compute_fstar(t, ms, tdelay) / ms, floor) * ms
        mx = jnp.max(fs)
        for i in range(n):
            h.eq(lfs[i], jnp.log10(jnp.maximum(fs[i], mx / 1000.0)), "target delayed rate: floored at the specific rate floor and a thousandth of the peak", 1e-7)
        rw, rwf = run_np(h, dfh, dfh.get_weights, (t, lms, lfs, tdelay, dlogm, tmin, mmin))
        h.eq(J(w), J(rw), "mass weights from the caller's cuts")
        h.eq(J(wf), J(rwf), "rate weights from the caller's cuts")

    def peak(h, t, sfh, mah):
        _, data = run_np(h, dfh, dfh.get_loss_data_default, (t, sfh, M(mah)))
        lfs, lgtmax = J(data[5]), J(data[10])
        n = len(t)
        # first snapshot attaining the maximum
        ref = jnp.log10(t[n - 1])
        for i in reversed(range(n)):
            ismax = jnp.all(lfs <= lfs[i])
            ref = jnp.where(ismax, jnp.log10(t[i]), ref)
        h.eq(lgtmax, ref, "peak time of the delayed rate")
        h.eq(J(data[6]), dfh.FSTAR_TIME_DELAY, "default delay")
        h.eq(J(data[12]), dd.FB, "default baryon fraction")

    def guess(h, t, sfh, mah, lgt0):
        (u0, err), _ = run_np(h, dfh, dfh.get_loss_data_default, (t, sfh, M(mah)), dict(lgt0=lgt0))
        u0, err = J(u0), J(err)
        m0 = mah_singlehalo(M(mah), t, lgt0)[1][-1] - 11.0
        q0 = jnp.stack([J(x) for x in dd.DEFAULT_Q_PARAMS])
        P = dd.DiffstarUParams._make([u0[i] for i in range(u0.shape[0])])
        b = dd.get_bounded_diffstar_params(P)
        h.close(b.lgmcrit, jnp.clip(0.3 * m0 + 11.4, 11.0, 13.0), "initial guess of the critical mass follows the halo mass, clipped", 1e-6)
        h.close(b.lgy_at_mcrit, jnp.clip(0.2 * m0 - 9.7, -10.5, -9.2), "initial guess of the efficiency follows the halo mass, clipped", 1e-6)
        h.close(b.indx_lo, jnp.clip(0.7 * m0 - 0.3, 0.2, 3.0), "initial guess of the low-mass slope follows the halo mass, clipped", 1e-6)
        h.close(b.indx_hi, dd.DEFAULT_MS_PARAMS.indx_hi, "initial guess of the high-mass slope", 1e-6)
        for i, k in enumerate(dd.DEFAULT_Q_PARAMS._fields):
            h.close(getattr(b, k), q0[i], f"initial quenching guess {k}", 1e-5)
        h.finite(u0, "initial guess is finite")
        for i in range(err.shape[0]):
            h.lt(0.0, err[i], "widths of the random starts are positive")

    def data_of(h, I):
        return (I["t"], M(I["mah"]), 10.0 ** I["lsm"], I["lsm"], I["sfr"], I["lfs"], I["tdelay"], I["floor"], I["w"], I["wf"], I["lgtmax"], I["lgt0"], I["fb"])

    def terms(I):
        p = dd.get_bounded_diffstar_params(dd.DiffstarUParams._make(I["u"]))
        s, m = calc_sfh_singlegal(p, M(I["mah"]), I["t"], lgt0=I["lgt0"], fb=I["fb"], return_smh=True)
        low = m * I["floor"] / 10.0
        lf = jnp.log10(jnp.maximum(compute_fstar(I["t"], m, I["tdelay"]), low))
        dm = (jnp.log10(m) - I["lsm"]) / I["w"]
        df = lf - I["lfs"]
        ds = jnp.clip(1e8 * (jnp.maximum(s, low) - I["sfr"]) / 10.0 ** I["lsm"], -1.0, 1.0)
        ridge = 100.0 - 100.0 / (1.0 + jnp.exp(-50.0 * (p.lg_qt - I["lgtmax"])))
        return dm, df, ds, ridge

    def loss(h, signs=True, **I):
        L = dfh.loss_default_clipssfrh(I["u"], data_of(h, I))
        dm, df, ds, ridge = terms(I)
        k = dm.shape[0]
        ref = 30 * jnp.sum(dm**2) / k + jnp.sum((df / I["wf"]) ** 2) / k + jnp.sum((ds / I["w"]) ** 2) / k + 0.5 * df[-1] ** 2 + ridge
        h.close(L, ref, "loss: weighted squared residuals of mass, delayed rate and specific rate, the final delayed rate again, and the penalty for quenching before the peak", 1e-7)
        if signs:
            h.le(0.0, L, "never negative")
            h.le(ridge, L, "at least the early-quenching penalty")

    def match(h, **I):
        # target = the model itself
        p = dd.get_bounded_diffstar_params(dd.DiffstarUParams._make(I["u"]))
        s, m = calc_sfh_singlegal(p, M(I["mah"]), I["t"], lgt0=I["lgt0"], fb=I["fb"], return_smh=True)
        low = m * I["floor"] / 10.0
        f = jnp.maximum(compute_fstar(I["t"], m, I["tdelay"]), low)
        data = (I["t"], M(I["mah"]), m, jnp.log10(m), jnp.maximum(s, low), jnp.log10(f), I["tdelay"], I["floor"], I["w"], I["wf"], I["lgtmax"], I["lgt0"], I["fb"])
        L = dfh.loss_default_clipssfrh(I["u"], data)
        h.close(L, 100.0 / (1.0 + jnp.exp(50.0 * (p.lg_qt - I["lgtmax"]))), "a perfect match costs only the early-quenching penalty", 1e-7)

    def gradient(h, **I):
        d = data_of(h, I)
        g = J(run_np(h, dfh, dfh.loss_grad_default_clipssfrh_np, (I["u"], d)))
        r = grad(dfh.loss_default_clipssfrh)(I["u"], d)
        for i in range(8):
            h.close(g[i], r[i], "the gradient handed to the optimiser is the gradient of the loss", 1e-6)

    def fitter(h, t, sfh, mah, u, best, tdelay, floor, lgt0, fb, dlogm, tmin, mmin):
        kw = dict(dlogm_cut=dlogm, t_fit_min=tmin, mass_fit_min=mmin, fstar_tdelay=tdelay, ssfrh_floor=floor, lgt0=lgt0, fb=fb)
        calls = []

        def mw(loss, deriv, p0, data, *a, **k):
            calls.append((getattr(loss, "_orig", loss), deriv, p0, data))
            return (np.asarray(u) if h.concrete else MArr(u)), best, 1

        # the stand-in is shared by every way of reaching the optimiser
        p, l, s = run_np(h, dfh, dfh.diffstar_fitter, (t, sfh, M(mah)), kw, minimizer_wrapper=mw)
        ref = dd.get_bounded_diffstar_params(dd.DiffstarUParams._make(u))
        for k in ref._fields:
            h.eq(J(getattr(p, k)), getattr(ref, k), f"the fit returns the bounded form of the optimiser's point: {k}")
        h.eq(J(l), best, "the loss returned is the optimiser's")
        h.true(jnp.asarray(s == 1 and len(calls) == 1), "one optimisation, its flag returned")
        loss_, deriv, (p0, err), data = calls[0]
        (rp0, rerr), rdata = run_np(h, dfh, dfh.get_loss_data_default, (t, sfh, M(mah)), kw)
        if not (loss_ is dfh.loss_default_clipssfrh and getattr(deriv, "__name__", "") == "loss_grad_default_clipssfrh_np"):
            # other callables: what counts is that they compute the loss and its gradient
            d = jax.tree_util.tree_map(J, data)
            h.close(J(loss_(u, d)), dfh.loss_default_clipssfrh(u, d), "the default loss is minimised", 1e-7)
            g, r = J(run_np(h, dfh, deriv, (u, d))), grad(dfh.loss_default_clipssfrh)(u, d)
            for i in range(8):
                h.close(g[i], r[i], "its gradient guides the optimiser", 1e-6)
        h.eq(J(p0), J(rp0), "starts from the default guess")
        h.eq(J(err), J(rerr), "with the default widths")
        for i in range(len(rdata)):
            for a, b in zip(leaves(data[i]), leaves(rdata[i])):
                h.eq(J(a), J(b), f"fits the caller's data with the caller's options (slot {i})")

    def many(h, t0, dt, a, b, c, tmin, mmin, dlogm, tdelay, floor, w0, u, mah, lgtmax, lgt0, fb, *, NW):
        """long tables: known combinations of symbolic values"""
        k = np.arange(NW)
        t, lsm, sfr, lfs = t0 + dt * k, a + 0.0103 * k, c * (1.0 + k % 5), b + 0.7 * np.sin(k)
        w, wf = run_np(h, dfh, dfh.get_weights, (t, lsm, lfs, tdelay, dlogm, tmin, mmin))
        keep = (lsm > lsm[-1] - dlogm) & (lsm > jnp.minimum(lsm[-1] - 0.5, mmin)) & (t >= tmin)
        h.eq(J(w), jnp.where(keep, jnp.where(lsm[-1] - lsm < 0.1, 0.5, 1.0), BIG), "long table: mass weights")
        h.eq(J(wf), jnp.where(keep & (t >= tdelay + 0.01), jnp.where(jnp.max(lfs) - lfs < 0.1, 0.5, 1.0), BIG), "long table: rate weights")
        W, WF = jnp.where(k % 4 == 1, BIG, w0 + 0.1 * (k % 3)), jnp.where(k % 6 == 1, BIG, w0 + 0.1 * (k % 2))
        loss(h, False, t=t, lsm=lsm, sfr=sfr, lfs=lfs, w=W, wf=WF, tdelay=tdelay, floor=floor, u=u, mah=mah, lgtmax=lgtmax, lgt0=lgt0, fb=fb)

    def leaves(x):
        return [x] if not isinstance(x, tuple) else list(x)

    G = gal_inputs(n)
    T = In(n, 0.05, 14, increasing=True, gap=1e-3)
    kwI = dict(tdelay=In((), 0.05, 3), floor=In((), 1e-14, 1e-9), lgt0=G["lgt0"], fb=G["fb"], dlogm=In((), 0.1, 10), tmin=In((), 0, 10), mmin=In((), 3, 12))
    lsm, lfs = In(n, 0, 13), In(n, -8, 5)
    L = {"t": T, "mah": G["mah"], "u": In(8, -5, 5), "lsm": lsm, "sfr": In(n, 1e-14, 1e4), "lfs": lfs, "tdelay": kwI["tdelay"], "floor": kwI["floor"],
         "w": In(n, 0.1, 1e3), "wf": In(n, 0.1, 1e3), "lgtmax": In((), -1, 1.2), "lgt0": G["lgt0"], "fb": G["fb"]}
    sf = In(n, 1e-3, 1e4)
    F = "fitting_helpers.diffstar_fitting_helpers."
    b = f"{n} snapshots in [0.05,14] Gyr, every history value, halo parameter, cut and option symbolic"
    nl = 3 if q else 4
    Ls = {k: In(nl, v.lo[0], v.hi[0], increasing=v.increasing, gap=v.gap) if v.shape == (n,) else v for k, v in L.items()}
    return [
        Harness("weights", {"t": T, "lsm": lsm, "lfs": lfs, **{k: kwI[k] for k in ("tdelay", "dlogm", "tmin", "mmin")}}, weights, [F + "get_weights"], b),
        Harness("targets", {"t": T, "sfh": sf, "mah": G["mah"], **kwI}, targets, [F + "get_loss_data_default", F + "get_weights", "utils.compute_fstar", "utils.cumulative_mstar_formed"], b),
        Harness("peak", {"t": T, "sfh": sf, "mah": G["mah"]}, peak, [F + "get_loss_data_default"], b),
        Harness("guess", {"t": T, "sfh": sf, "mah": G["mah"], "lgt0": G["lgt0"]}, guess, [F + "get_loss_data_default", "defaults.get_bounded_diffstar_params"], b),
        Harness("loss", Ls, loss, [F + "loss_default_clipssfrh", "sfh_model.calc_sfh_singlegal", "utils.compute_fstar"], f"{nl} snapshots, every parameter, target and weight symbolic"),
        Harness("match", {k: Ls[k] for k in Ls if k not in ("lsm", "sfr", "lfs")}, match, [F + "loss_default_clipssfrh"], f"{nl} snapshots"),
        Harness("gradient", {k: In(2, v.lo[0], v.hi[0], increasing=v.increasing, gap=v.gap) if v.shape == (nl,) else v for k, v in Ls.items()}, gradient, [F + "loss_grad_default_clipssfrh_np"], "2 snapshots"),
        *[Harness(f"{tag}_{k}", {a: In(k, v.lo[0], v.hi[0], increasing=v.increasing, gap=v.gap) if v.shape == (n,) else v for a, v in d.items()}, f, [F + "get_loss_data_default"], f"{k} snapshots") for k in (1, 2) for tag, d, f in (
            ("targets", {"t": T, "sfh": sf, "mah": G["mah"], **kwI}, targets), ("peak", {"t": T, "sfh": sf, "mah": G["mah"]}, peak), ("guess", {"t": T, "sfh": sf, "mah": G["mah"], "lgt0": G["lgt0"]}, guess))],
        *wides({"t0": In((), 0.05, 1), "dt": In((), 1e-3, 0.1), "a": In((), 0, 10), "b": In((), -8, 5), "c": In((), 1e-3, 1e3), "w0": In((), 0.1, 1e3),
                **{k: L[k] for k in ("u", "mah", "lgtmax", "lgt0", "fb", "tdelay", "floor")}, **{k: kwI[k] for k in ("tmin", "mmin", "dlogm")}}, many, [F + "get_weights", F + "loss_default_clipssfrh"], "{NW} snapshots, known combinations of symbolic values", 150, 450, extra=1, deadline=500),
        Harness("fitter", {"t": T, "sfh": sf, "mah": G["mah"], "u": In(8, -20, 20), "best": In((), 0, 1e3), **kwI}, fitter, [F + "diffstar_fitter", F + "get_loss_data_default"], b + "; the optimiser is a stand-in returning any point and loss"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C23", H, out, seed)
