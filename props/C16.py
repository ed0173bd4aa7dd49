"""Population means and covariances."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C15 import sig

LEVEL = "other"


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP, DIFFSTARPOP_PBOUNDS as PB
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dm
    from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp
    from diffstar.diffstarpop.utils import correlation_from_covariance, covariance_from_correlation, smoothly_clipped_line

    F = list(DP._fields)
    MS = [f for f in F if f.startswith(("mean_", "std_")) and "mseq" in f]
    QS = [f for f in F if f.startswith(("mean_", "std_", "delta_")) and "mseq" not in f]
    BV = sp.BOUNDING_VALS

    MARGIN = 1e-3

    def box(names):
        b = np.array([[float(v) for v in getattr(PB, f)] for f in names])
        m = MARGIN * (b[:, 1] - b[:, 0])
        return In(len(names), b[:, 0] + m, b[:, 1] - m)

    def pars(a, b):
        d = dict(zip(MS, a))
        d.update(zip(QS, b))
        return DP._replace(**d)

    def moments(p, logmp, tp):
        return dm._diffstarpop_means_covs_cen(p, logmp, tp)[2:]

    MSN = ("ulgm", "ulgy", "ul", "uh")
    QN = ("uqt", "uqs", "udrop", "urej")
    BLOCKS = [("main-sequence", 2, "mseq", MSN), ("quenched", 3, "qseq", MSN), ("quenching", 4, None, QN)]

    def stdname(seq, k):
        return f"std_{k}_{seq}" if seq else f"std_{k}"

    def covs(h, a, b, logmp, tp):
        r = moments(pars(a, b), logmp, tp)
        p = pars(a, b)
        for tag, j, seq, names in BLOCKS:
            c = r[j]
            for i, k in enumerate(names):
                lo, hi = getattr(BV, "std_" + k)
                s = smoothly_clipped_line(logmp, 12.5, getattr(p, stdname(seq, k) + "_int"), getattr(p, stdname(seq, k) + "_slp"), lo, hi)
                h.eq(c[i, i], s * s, f"{tag}: variance of {k} is the square of its clipped width")
                for l in range(4):
                    h.eq(c[i, l], c[l, i], f"{tag}: covariance symmetric")
                    if l != i:
                        h.eq(c[i, l], 0.0, f"{tag}: parameters are uncorrelated")

    def widths(h, a, b, logmp, tp):
        r = moments(pars(a, b), logmp, tp)
        for tag, j, seq, names in BLOCKS:
            for i, k in enumerate(names):
                lo, hi = (float(v) for v in getattr(BV, "std_" + k))
                h.le(lo, jnp.sqrt(r[j][i, i]), f"{tag}: width of {k} at least its lower bound", 1e-7)
                h.le(jnp.sqrt(r[j][i, i]), hi, f"{tag}: width of {k} at most its upper bound", 1e-7)
                h.lt(0.0, r[j][i, i], f"{tag}: variance of {k} strictly positive", 0.0)

    def slope(p, logmp, n):
        xtp = getattr(p, n + "_xtp")
        return getattr(p, n + "_ytp") + sig(logmp, xtp, 3.0, getattr(p, n + "_lo"), getattr(p, n + "_hi")) * (logmp - xtp)

    def means(h, a, b, logmp, tp):
        p = pars(a, b)
        r = moments(p, logmp, tp)
        for tag, mu, seq in (("main-sequence", r[0], "mseq"), ("quenched", r[1], "qseq")):
            h.eq(mu[0], slope(p, logmp, f"mean_ulgm_{seq}"), f"{tag}: mean critical mass trend")
            h.eq(mu[1], slope(p, logmp, f"mean_ulgy_{seq}"), f"{tag}: mean efficiency trend")
            for i, k in ((2, "ul"), (3, "uh")):
                lo, hi = getattr(BV, "mean_" + k)
                h.eq(mu[i], smoothly_clipped_line(logmp, 12.5, getattr(p, f"mean_{k}_{seq}_int"), getattr(p, f"mean_{k}_{seq}_slp"), lo, hi), f"{tag}: mean {k} is its clipped line")
        d = sig(tp, p.delta_uqt_x0, p.delta_uqt_k, p.delta_uqt_ylo, p.delta_uqt_yhi) + (logmp - 12.5) * p.delta_uqt_slope
        h.eq(r[1][4], slope(p, logmp, "mean_uqt") + d, "mean quenching time: mass trend plus peak-time shift")
        for i, k in ((5, "uqs"), (6, "udrop"), (7, "urej")):
            lo, hi = getattr(BV, "mean_" + k)
            h.eq(r[1][i], smoothly_clipped_line(logmp, 12.5, getattr(p, f"mean_{k}_int"), getattr(p, f"mean_{k}_slp"), lo, hi), f"mean {k} is its clipped line")

    def mean_bounds(h, a, b, logmp, tp):
        p = pars(a, b)
        r = moments(p, logmp, tp)
        for tag, mu in (("main-sequence", r[0]), ("quenched", r[1])):
            for i, k in ((2, "ul"), (3, "uh")):
                h.between(mu[i], *(float(v) for v in getattr(BV, "mean_" + k)), f"{tag}: mean {k} within its bounding values", 1e-7)
            for i in range(len(mu)):
                h.finite(mu[i], f"{tag}: means finite")
        for i, k in ((5, "uqs"), (6, "udrop"), (7, "urej")):
            h.between(r[1][i], *(float(v) for v in getattr(BV, "mean_" + k)), f"mean {k} within its bounding values", 1e-7)

    def indep(h, a, b, b2, logmp, tp, tp2):
        r, q = moments(pars(a, b), logmp, tp), moments(pars(a, b2), logmp, tp2)
        for x, y in zip(r[0], q[0]):
            h.eq(x, y, "main-sequence means ignore quenched-sequence parameters and peak time")
        h.eq(r[2], q[2], "main-sequence covariance ignores quenched-sequence parameters and peak time")

    def indep_q(h, a, a2, b, logmp, tp):
        r, q = moments(pars(a, b), logmp, tp), moments(pars(a2, b), logmp, tp)
        for x, y in zip(r[1], q[1]):
            h.eq(x, y, "quenched means ignore main-sequence parameters")
        h.eq(r[3], q[3], "quenched covariance ignores main-sequence parameters")
        h.eq(r[4], q[4], "quenching covariance ignores main-sequence parameters")

    def same(h, a, b, logmp, tp, lgmu, lgmh, gyr):
        p = pars(a, b)
        x = dm._diffstarpop_means_covs(p, logmp, tp, lgmu, lgmh, gyr)[2:]
        y = moments(p, logmp, tp)
        for u, v in zip(x, y):
            for s_, t_ in zip(u, v):
                h.eq(s_, t_, "infall history does not change means or covariances")

    nd = 3 if tier == "quick" else 5
    iu = np.triu_indices(nd, 1)

    def corr_of(r):
        c = jnp.eye(nd)
        for k, (i, l) in enumerate(zip(*iu)):
            c = c.at[i, l].set(r[k]).at[l, i].set(r[k])
        return c

    def corr(h, r, s):
        c = corr_of(r)
        v = covariance_from_correlation(c, s)
        for i in range(nd):
            for l in range(nd):
                h.eq(v[i, l], s[i] * s[l] * c[i, l], "covariance is width x width x correlation")
        h.eq(correlation_from_covariance(v), c, "correlation recovered from the covariance")

    def corr_inv(h, r, s):
        v = jnp.outer(s, s) * corr_of(r)
        c = correlation_from_covariance(v)
        h.eq(covariance_from_correlation(c, jnp.sqrt(jnp.diag(v))), v, "covariance recovered from the correlation")
        for i in range(nd):
            h.eq(c[i, i], 1.0, "unit diagonal")
            for l in range(nd):
                h.between(c[i, l], -1.0, 1.0, "correlations within [-1, 1]")

    a, b = box(MS), box(QS)
    logmp, tp = In((), 8, 17), In((), 0.1, 20)
    A = {"a": a, "b": b, "logmp": logmp, "tp": tp}
    fs = ["diffstarpop_mgash._diffstarpop_means_covs", "_diffstarpop_means_covs_cen", "sfh_pdf_mgash._get_mean_u_params_*", "sfh_pdf_mgash._get_covariance_*"]
    bd = f"{len(MS)}+{len(QS)} mean, width and shift parameters anywhere in their declared ranges less a margin of {MARGIN:g} of each range; mass 8..17, peak time 0.1..20"
    n = len(iu[0])
    R, S = In(n, -1, 1, special=(0.0,)), In(nd, 1e-2, 10)
    return [
        Harness("covariance", A, covs, fs, bd),
        Harness("widths", A, widths, fs, bd, budget=60, deadline=400),
        Harness("means", A, means, fs, bd),
        Harness("mean_bounds", A, mean_bounds, fs, bd, budget=60, deadline=400),
        Harness("independence", dict(A, b2=b, tp2=tp), indep, fs, bd),
        Harness("independence_q", dict(A, a2=a), indep_q, fs, bd),
        Harness("infall", dict(A, lgmu=In((), -8, 0), lgmh=In((), 8, 17), gyr=In((), -100, 20)), same, fs, bd),
        Harness("correlation", {"r": R, "s": S}, corr, ["diffstarpop.utils.correlation_from_covariance", "covariance_from_correlation"], f"{nd}x{nd}, any correlations in [-1,1], widths 0.01..10"),
        Harness("correlation_inverse", {"r": R, "s": S}, corr_inv, ["diffstarpop.utils.correlation_from_covariance", "covariance_from_correlation"], f"{nd}x{nd}, any correlations in [-1,1], widths 0.01..10"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C16", H, out, seed)
