"""Population losses: normalised predicted distributions, fraction-weighted, compared by mean squared difference."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from props.C18 import ASSUMPTIONS as _A

LEVEL = "other"
ASSUMPTIONS = _A + ["diffsky's weighted triweight histogram is encoded from its installed source"]


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar.diffstarpop.kernels.defaults_mgash import DEFAULT_DIFFSTARPOP_U_PARAMS as DU, get_bounded_diffstarpop_params
    from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as L
    from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_sfh_galpop
    from diffstar.utils import cumulative_mstar_formed

    n = len(DU)
    ng = 2 if tier == "quick" else 3

    def cdf(z):
        v = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5
        return jnp.where(z > 3, 1.0, jnp.where(z < -3, 0.0, v))

    def binw(x, s, lo, hi):
        return cdf((x - lo) / s) - cdf((x - hi) / s)

    # ---------------------------------------------------------------- histograms
    def hist1(h, x, w, bins):
        p = L.compute_diff_histograms_mstar_atmobs_z(bins, x, w)
        s = (bins[-1] - bins[0]) / (len(bins) - 1)
        c = [sum(w[i] * binw(x[i], s, bins[k], bins[k + 1]) for i in range(len(x))) for k in range(len(bins) - 1)]
        tot = sum(c)
        h.assume(tot > 0)
        for k in range(len(c)):
            h.eq(p[k] * tot, c[k], "stellar-mass histogram is the weighted count of each bin over the total")
        h.eq(jnp.sum(p), 1.0, "stellar-mass distribution sums to one")

    def hist1_pos(h, x, w, bins, gx, gs, ga, gd):
        name = "cumulative kernel falls with the bin edge"
        h.lemma(cdf((gx - ga - gd) / gs), cdf((gx - ga) / gs), name)
        s = (bins[-1] - bins[0]) / (len(bins) - 1)
        F = [[cdf((x[i] - b) / s) for b in bins] for i in range(len(x))]
        for i in range(len(x)):
            for k in range(len(bins) - 1):
                h.use(F[i][k + 1], F[i][k], name)
        tot = sum(w[i] * (F[i][0] - F[i][-1]) for i in range(len(x)))
        h.assume(tot > 0)
        h.cut(*[f for r in F for f in r])
        p = L.compute_diff_histograms_mstar_atmobs_z(bins, x, w)
        for k in range(len(bins) - 1):
            h.between(p[k], 0.0, 1.0, "probability of a stellar-mass bin")

    def scale(h, x, w, bins, k):
        a = L.compute_diff_histograms_mstar_atmobs_z(bins, x, w)
        b = L.compute_diff_histograms_mstar_atmobs_z(bins, x, k * w)
        s = (bins[-1] - bins[0]) / (len(bins) - 1)
        h.assume(sum(w[i] * binw(x[i], s, bins[0], bins[-1]) for i in range(len(x))) > 0)
        for i in range(len(bins) - 1):
            h.eq(a[i], b[i], "a common factor of the weights does not matter")

    def grid(mb, sb):
        lo = jnp.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
        hi = jnp.array([[a, b] for a in mb[1:] for b in sb[1:]])
        return lo, hi

    def hist2(h, x, y, w, mb, sb):
        lo, hi = grid(mb, sb)
        p = L.compute_diff_histograms_mstar_ssfr_atz(x, y, w, lo, hi, mb, sb)
        sm, ss = (mb[-1] - mb[0]) / (len(mb) - 1), (sb[-1] - sb[0]) / (len(sb) - 1)
        c = [sum(w[i] * binw(x[i], sm, mb[a], mb[a + 1]) * binw(y[i], ss, sb[b], sb[b + 1]) for i in range(len(x))) for a in range(len(mb) - 1) for b in range(len(sb) - 1)]
        tot = sum(c)
        h.assume(tot > 0)
        for k in range(len(c)):
            h.eq(p[k] * tot, c[k], "mass-sSFR histogram is the weighted count of each cell over the total")
        h.eq(jnp.sum(p), 1.0, "mass-sSFR distribution sums to one")

    # ---------------------------------------------------------------------- mse
    def mse(h, a, b):
        h.eq(L._mse(a, b), sum((a[i] - b[i]) ** 2 for i in range(len(a))) / len(a), "mean squared difference")
        h.le(0.0, L._mse(a, b), "never negative")
        h.eq(L._mse(a, a), 0.0, "zero for a perfect match")
        h.eq(L._mse(a, b), L._mse(b, a), "symmetric")

    # ------------------------------------------------------------------ kernels
    def galaxies(u, i, mah, lgm, upid, lgmu, lgmh, gyr, key, tobs, lgt0, fb, n=None):
        p = get_bounded_diffstarpop_params(DU._make(u))
        t = jnp.logspace(-1, jnp.log10(tobs[i]), L.N_TIMES)
        r = mc_diffstar_sfh_galpop(p, DEFAULT_MAH_PARAMS._make(mah[i].T), lgm[i], upid[i], lgmu[i], lgmh[i], gyr[i], key[i], t, lgt0=lgt0, fb=fb)
        x, y, w = [], [], []
        for s, f in ((r.sfh_ms, 1 - r.frac_q), (r.sfh_q, r.frac_q)):
            for g in range(n or ng):
                m = cumulative_mstar_formed(t, s[g])[-1]
                x.append(jnp.log10(m))
                y.append(jnp.maximum(jnp.log10(s[g][-1]) - jnp.log10(m), -12.0))
                w.append(f[g])
        return jnp.stack(x), jnp.stack(y), jnp.stack(w)

    def many_points(h, x0, y0, w0, mb, sb, *, NW):
        k = np.arange(NW)
        x, y, w = x0 + 5.0 * (k % 83) / 83, y0 + 4.0 * (k % 89) / 89, w0 * (1.0 + k % 7)
        s, ss = (mb[-1] - mb[0]) / (len(mb) - 1), (sb[-1] - sb[0]) / (len(sb) - 1)
        c = [jnp.sum(w * binw(x, s, mb[a], mb[a + 1])) for a in range(len(mb) - 1)]
        c2 = [jnp.sum(w * binw(x, s, mb[a], mb[a + 1]) * binw(y, ss, sb[b], sb[b + 1])) for a in range(len(mb) - 1) for b in range(len(sb) - 1)]
        h.assume(sum(c) > 0)
        h.assume(sum(c2) > 0)
        p = L.compute_diff_histograms_mstar_atmobs_z(mb, x, w)
        q = L.compute_diff_histograms_mstar_ssfr_atz(x, y, w, *grid(mb, sb), mb, sb)
        for a in range(len(c)):
            h.close(p[a], c[a] / sum(c), "many points: stellar-mass histogram is the weighted count of each bin over the total", 1e-7)
        for a in range(len(c2)):
            h.close(q[a], c2[a] / sum(c2), "many points: mass-sSFR histogram is the weighted count of each cell over the total", 1e-7)

    def many_halos(h, u, bins, sb, mah, lgm, upid, lgmu, lgmh, gyr, key, tobs, lgt0, fb, *, NW):
        k = np.arange(NW) / NW
        d = dict(mah=(mah + 1e-3 * k[:, None])[None], lgm=(lgm + k)[None], upid=(upid + np.arange(NW) % 2)[None], lgmu=(lgmu - k)[None], lgmh=(lgmh + k)[None], gyr=(gyr + k)[None], key=key, tobs=tobs, lgt0=lgt0, fb=fb)
        x, y, w = galaxies(u, 0, n=NW, **d)
        U = DU._make(u)
        p = L.mstar_kern_tobs(U, (*pack(**d), bins, jnp.zeros((1, len(bins) - 1))))
        h.eq(p[0], L.compute_diff_histograms_mstar_atmobs_z(bins, x, w), "many halos: each counts as main-sequence and as quenched with its own fractions")
        lo, hi = grid(bins, sb)
        ld = (*pack(**d), lo, hi, bins, sb, jnp.ones((1, 1)), np.array([[0]]), np.array([0, 1]), jnp.zeros((1, 2, len(sb) - 1)))
        q = L.compute_diff_histograms_mstar_ssfr_atz(x, y, w, lo, hi, bins, sb).reshape(len(bins) - 1, len(sb) - 1)
        for tag, kern in (("central", L.mstar_ssfr_kern_tobs), ("satellite", L.mstar_ssfr_sat_kern_tobs)):
            r = kern(U, ld)
            for a in range(2):
                h.eq(r[0, a], q[a] / jnp.sum(q[a]), f"many halos, {tag}: predicted sSFR distribution")

    def pack(mah, lgm, upid, lgmu, lgmh, gyr, key, tobs, lgt0, fb):
        return (DEFAULT_MAH_PARAMS._make([mah[..., j] for j in range(5)]), lgm, upid, lgmu, lgmh, gyr, key, tobs, lgt0, fb)

    def mstar(h, u, bins, target, n=None, **d):
        ld = (*pack(**d), bins, target)
        p = L.mstar_kern_tobs(DU._make(u), ld)
        for i in range(len(p)):
            x, y, w = galaxies(u, i, n=n, **d)
            q = L.compute_diff_histograms_mstar_atmobs_z(bins, x, w)
            for k in range(len(bins) - 1):
                h.eq(p[i, k], q[k], "predicted mass distribution: each halo counts as main-sequence and as quenched with its own fractions, at the observation time")
        lo = L.loss_mstar_kern_tobs(DU._make(u), ld)
        h.eq(lo, 1000 * jnp.sum((p - target) ** 2) / p.size, "mass loss is a thousand times the mean squared difference from the target")
        h.eq(L.get_pred_mstar_data_wrapper(u, ld), p, "flat-parameter prediction is the same prediction")

    def mstar_grad(h, u, bins, target, **d):
        ld = (*pack(**d), bins, target)
        v, g = L.loss_mstar_kern_tobs_grad_wrapper(u, ld)
        h.eq(v, L.loss_mstar_kern_tobs(DU._make(u), ld), "value reported with the gradient is the mass loss")
        h.eq(g, jax.grad(lambda a: L.loss_mstar_kern_tobs(DU._make(a), ld))(u), "gradient entries follow the parameter order")

    def ssfr_ref(u, mb, sb, nm, idx, ids, d, nz):
        lo, hi = grid(mb, sb)
        na, nb = len(mb) - 1, len(sb) - 1
        P = []
        for i in range(nz):
            x, y, w = galaxies(u, i, **d)
            P.append(L.compute_diff_histograms_mstar_ssfr_atz(x, y, w, lo, hi, mb, sb).reshape(na, nb))
        P = jnp.stack(P)
        out = []
        for z in range(nm.shape[0]):
            mix = sum(nm[z, m] * P[idx[z][m]] for m in range(nm.shape[1]))
            out.append([mix[a] / jnp.sum(mix[a]) for a in ids])
        return jnp.array(out)

    IDX, IDS = np.array([[0, 2, 1], [2, 1, 1]]), np.array([2, 0])

    def ssfr(h, u, mb, sb, nm, target, **d):
        lo, hi = grid(mb, sb)
        ld = (*pack(**d), lo, hi, mb, sb, nm, IDX, IDS, target)
        want = ssfr_ref(u, mb, sb, nm, IDX, IDS, d, 3)
        for tag, kern, loss, pred in (("central", L.mstar_ssfr_kern_tobs, L.loss_mstar_ssfr_kern_tobs, L.get_pred_mstar_ssfr_data_wrapper), ("satellite", L.mstar_ssfr_sat_kern_tobs, L.loss_mstar_ssfr_sat_kern_tobs, L.get_pred_mstar_ssfr_sat_data_wrapper)):
            p = kern(DU._make(u), ld)
            h.true(p.shape == want.shape, "one distribution per target")
            for i in np.ndindex(*want.shape):
                h.eq(p[i], want[i], f"{tag}: predicted sSFR distribution per stellar-mass bin, mixed over halo mass with the given abundances")
            h.eq(loss(DU._make(u), ld), 1000 * jnp.sum((p - target) ** 2) / p.size, f"{tag}: sSFR loss is a thousand times the mean squared difference from the target")
            q = pred(u, ld)
            for i in np.ndindex(*want.shape):
                h.eq(q[i], p[i], f"{tag}: flat-parameter prediction is the same prediction")

    def combined(h, u, bins, t1, mb, sb, nm, t2, t3, **d):
        lo, hi = grid(mb, sb)
        U = DU._make(u)
        d1 = dict(d)
        A = (*pack(**d1), bins, t1)
        B = (*pack(**d), lo, hi, mb, sb, nm, IDX, IDS, t2)
        C = (*pack(**d), lo, hi, mb, sb, nm, IDX, IDS, t3)
        a, b, c = L.loss_mstar_kern_tobs(U, A), L.loss_mstar_ssfr_kern_tobs(U, B), L.loss_mstar_ssfr_sat_kern_tobs(U, C)
        h.eq(L.loss_combined_kern(U, A, B), a + b, "combined loss is the sum of its two parts")
        h.eq(L.loss_combined_3loss_kern(U, A, B, C), a + b + c, "combined loss is the sum of its three parts")

    def grads(h, u, bins, t1, mb, sb, nm, t2, t3, **d):
        lo, hi = grid(mb, sb)
        A = (*pack(**d), bins, t1)
        B = (*pack(**d), lo, hi, mb, sb, nm, IDX[:1] * 0, IDS, t2)
        C = (*pack(**d), lo, hi, mb, sb, nm, IDX[:1] * 0, IDS, t3)
        for tag, wrap, loss, args in (("sSFR", L.loss_mstar_ssfr_kern_tobs_grad_wrapper, L.loss_mstar_ssfr_kern_tobs, (B,)), ("satellite sSFR", L.loss_mstar_ssfr_sat_kern_tobs_grad_wrapper, L.loss_mstar_ssfr_sat_kern_tobs, (C,)),
                                      ("combined", L.loss_combined_wrapper, L.loss_combined_kern, (A, B)), ("three-part combined", L.loss_combined_3loss_wrapper, L.loss_combined_3loss_kern, (A, B, C))):
            v, g = wrap(u, *args)
            v2, g2 = jax.value_and_grad(lambda a: loss(DU._make(a), *args))(u)
            h.eq(v, v2, f"{tag}: value reported with the gradient is the loss")
            h.eq(g, g2, f"{tag}: gradient entries follow the parameter order")

    def D(nz, ng=ng):
        S = (nz, ng)
        return dict(mah=In(S + (5,), [8.0, -0.5, 1.0, 0.01, 0.5], [16.0, 1.2, 10.0, 3.0, 20.0]), lgm=In(S, 8, 16), upid=In(S, -1, 1e12, kind="int"), lgmu=In(S, -5, 0), lgmh=In(S, 8, 16), gyr=In(S, -100, 15), key=In((nz, 2), kind="key"), tobs=In(nz, 1, 14), lgt0=In((), 1, 1.2), fb=In((), 0.05, 0.3))

    def one_halo(d, **more):
        """the inputs of a single halo"""
        flat = ("key", "tobs", "lgt0", "fb")
        return {k: v if k in flat else In(v.shape[2:], v.lo[0, 0], v.hi[0, 0], kind=v.kind) for k, v in d.items()} | more

    U = In(n, -20, 20)
    npt, nb = (2, 2) if tier == "quick" else (3, 3)
    bins = lambda k: In(k + 1, 7, 12, increasing=True, gap=1e-3)
    sb = lambda k: In(k + 1, -13, -8, increasing=True, gap=1e-3)
    x, w = In(npt, 5, 13), In(npt, 0, 1)
    fs1 = ["compute_diff_histograms_mstar_atmobs_z", "_mse"]
    fs = ["mstar_ssfr_loss_mgash_anyz.mstar_kern_tobs", "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs", "loss_*", "get_pred_*_wrapper", "mc_diffstar_sfh_galpop_vmap", "calculate_obs_data"]
    b = f"{ng} halos per target, 20 times, every parameter, halo, bin edge and target symbolic"
    return [
        Harness("hist1", {"x": x, "w": w, "bins": bins(nb)}, hist1, fs1, f"{npt} points, {nb} bins"),
        Harness("hist1_pos", {"x": x, "w": w, "bins": bins(nb), "gx": In((), 5, 13), "gs": In((), 0.1, 5), "ga": In((), 7, 12), "gd": In((), 0.1, 5)}, hist1_pos, fs1, f"{npt} points, {nb} bins"),
        Harness("scale", {"x": x, "w": w, "bins": bins(nb), "k": In((), 0.01, 100)}, scale, fs1, f"{npt} points, {nb} bins"),
        Harness("hist2", {"x": x, "y": In(npt, -14, -7), "w": w, "mb": bins(2), "sb": sb(2)}, hist2, ["compute_diff_histograms_mstar_ssfr_atz"], f"{npt} points, 2x2 cells"),
        Harness("mse", {"a": In(4, -10, 10), "b": In(4, -10, 10)}, mse, fs1, "4 values"),
        Harness("mstar", dict(D(3), u=U, bins=bins(2), target=In((3, 2), 0, 1)), mstar, fs, b),
        Harness("mstar_1", dict(D(1, 1), u=U, bins=bins(1), target=In((1, 1), 0, 1)), lambda h, **k: mstar(h, **k, n=1), fs, "1 target, 1 halo, 1 bin"),
        Harness("mstar_grad", dict(D(1), u=U, bins=bins(2), target=In((1, 2), 0, 1)), mstar_grad, fs, b),
        Harness("ssfr", dict(D(3), u=U, mb=bins(3), sb=sb(2), nm=In((2, 3), 0, 1), target=In((2, 2, 2), 0, 1)), ssfr, fs, b),
        Harness("grads", dict(D(1, 1), u=U, bins=bins(2), t1=In((1, 2), 0, 1), mb=bins(3), sb=sb(2), nm=In((1, 3), 0, 1), t2=In((1, 2, 2), 0, 1), t3=In((1, 2, 2), 0, 1)), grads, fs, b),
        *wides({"x0": In((), 5, 9), "y0": In((), -14, -10), "w0": In((), 0.1, 1), "mb": bins(2), "sb": sb(2)}, many_points, fs1, "{NW} points, known combinations of three symbolic values", 1100, 4200, tag="wide_points"),
        *wides(one_halo(D(1), u=U, bins=bins(2), sb=sb(2)), many_halos, fs, "{NW} halos at known offsets of one symbolic halo, 20 times", 40, 130, extra=1),
        Harness("combined", dict(D(3), u=U, bins=bins(2), t1=In((3, 2), 0, 1), mb=bins(3), sb=sb(2), nm=In((2, 3), 0, 1), t2=In((2, 2, 2), 0, 1), t3=In((2, 2, 2), 0, 1)), combined, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C20", H, out, seed)
