"""Quenched fractions are probabilities; satellites are quenched at least as often."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"


def sig(x, x0, k, lo, hi):
    import jax.numpy as jnp

    return lo + (hi - lo) / (1 + jnp.exp(-k * (x - x0)))


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP, DIFFSTARPOP_PBOUNDS as PB
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dm
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq
    from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp

    F = list(DP._fields)
    FC = [f for f in F if f.startswith("frac_quench_cen")]
    FS = [f for f in F if f.startswith("frac_quench_sat")]
    SQ = list(sq.DEFAULT_SATQUENCHPOP_PARAMS._fields)

    def box(names):
        b = np.array([[float(v) for v in getattr(PB, f)] for f in names])
        return In(len(names), b[:, 0], b[:, 1])

    def full(**over):
        return DP._replace(**over)

    def pars(c, s, q):
        d = dict(zip(FC, c))
        d.update(zip(FS, s))
        d.update(zip(SQ, q))
        return full(**d)

    def fr(p, logmp, tp, lgmu=-1.0, lgmh=13.0, gyr=1.0):
        r = dm._diffstarpop_means_covs(p, logmp, tp, lgmu, lgmh, gyr)
        return r[0], r[1]

    def fr_cen(p, logmp, tp):
        r = dm._diffstarpop_means_covs_cen(p, logmp, tp)
        return r[0], r[1]

    def prob(h, c, s, q, logmp, tp, lgmu, lgmh, gyr):
        fc, fs = fr(pars(c, s, q), logmp, tp, lgmu, lgmh, gyr)
        h.between(fc, 0.0, 1.0, "central quenched fraction is a probability")
        h.between(fs, 0.0, 1.0, "satellite quenched fraction is a probability")
        h.finite(fc, "central fraction finite")
        h.finite(fs, "satellite fraction finite")

    def boost(h, c, s, q, logmp, tp, lgmu, lgmh, gyr):
        p = pars(c, s, q)
        base = fr_cen(p, logmp, tp)[1]
        fs = fr(p, logmp, tp, lgmu, lgmh, gyr)[1]
        h.le(base, fs, "infall never lowers the quenching probability")
        h.le(fs, 1.0, "infall never raises it above one")

    def boost_kern(h, q, lgmu, lgmh, gyr, qc):
        p = sq.SatQuenchPopParams(*q)
        f = sq.get_qprob_sat(p, lgmu, lgmh, gyr, qc)
        h.le(qc, f, "satellite probability not below the reference probability")
        h.le(f, 1.0, "satellite probability at most one")
        d = sq.predict_sat_frac_delta_qprob(p, lgmu, lgmh, gyr)
        h.between(d, 0.0, 1.0, "environmental quenching efficiency within [0, 1]")
        h.eq(f, qc + d * (1 - qc), "efficiency is the converted fraction of the star-forming ones")

    def time(h, q, lgmu, lgmh, gyr, dt, qc):
        p = sq.SatQuenchPopParams(*q)
        h.le(sq.get_qprob_sat(p, lgmu, lgmh, gyr, qc), sq.get_qprob_sat(p, lgmu, lgmh, gyr + dt, qc), "quenching probability never falls with time since infall")

    def fall(h, q, lgmu, lgmh, gyr, qc, dq):
        p = sq.SatQuenchPopParams(*q)
        h.le(sq.get_qprob_sat(p, lgmu, lgmh, gyr, qc), sq.get_qprob_sat(p, lgmu, lgmh, gyr, qc + dq), "order in the reference probability is preserved")

    def sentinel(h, q, qc):
        # the documented values for centrals switch the environmental effect off
        p = sq.SatQuenchPopParams(*q)
        h.close(sq.get_qprob_sat(p, 0.0, 0.0, -100.0, qc), qc, "central sentinel leaves the probability unchanged", 1e-6)

    def satlaw(h, q, lgmu, lgmh, gyr):
        P = dict(zip(SQ, q))
        hi_lo = sig(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_lo"], P["lgmu_hi_mh_lo"])
        hi_hi = sig(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_hi"], P["lgmu_hi_mh_hi"])
        qhi = sig(lgmh, P["qp_lgmh_crit"], 5.0, hi_lo, hi_hi)
        td = sig(lgmh, P["td_lgmhc"], 5.0, P["td_mlo"], P["td_mhi"])
        h.eq(sq.predict_sat_frac_delta_qprob(sq.SatQuenchPopParams(*q), lgmu, lgmh, gyr), sig(gyr, td, 5.0, 0.0, qhi), "delayed onset reaching the mass-dependent plateau")

    def law(h, c, s, q, logmp, tp):
        p = pars(c, s, q)
        fc, fs = fr_cen(p, logmp, tp)
        for tag, f in (("cen", fc), ("sat", fs)):
            g = lambda k: getattr(p, f"frac_quench_{tag}_{k}")
            x0 = sig(tp, g("x0_tpeak"), g("k_tpeak"), g("x0_ylotpeak"), g("x0_yhitpeak"))
            lo = sig(tp, g("x0_tpeak"), g("k_tpeak"), g("ylo_ylotpeak"), g("ylo_yhitpeak"))
            h.eq(f, sig(logmp, x0, g("k"), lo, g("yhi")), f"{tag}: sigmoid in mass with peak-time dependent midpoint and floor")

    def mono(h, c, s, q, logmp, dm_, tp):
        p = pars(c, s, q)
        f0, f1 = fr_cen(p, logmp, tp), fr_cen(p, logmp + dm_, tp)
        for k, tag in enumerate(("cen", "sat")):
            g = lambda n: getattr(p, f"frac_quench_{tag}_{n}")
            up = (g("yhi") >= g("ylo_ylotpeak")) & (g("yhi") >= g("ylo_yhitpeak"))
            h.le(jnp.where(up, f0[k], 0.0), jnp.where(up, f1[k], 0.0), f"{tag}: rises with mass when the plateau is above the floor")

    def indep(h, c, s, s2, q, q2, logmp, tp, lgmu, lgmh, gyr, lgmu2, lgmh2, gyr2):
        a = fr(pars(c, s, q), logmp, tp, lgmu, lgmh, gyr)[0]
        b = fr(pars(c, s2, q2), logmp, tp, lgmu2, lgmh2, gyr2)[0]
        h.eq(a, b, "central fraction ignores satellite parameters and infall history")
        h.eq(a, fr_cen(pars(c, s2, q), logmp, tp)[0], "central-only evaluation gives the same central fraction")

    def sat_indep(h, c, c2, s, q, logmp, tp, lgmu, lgmh, gyr):
        h.eq(fr(pars(c, s, q), logmp, tp, lgmu, lgmh, gyr)[1], fr(pars(c2, s, q), logmp, tp, lgmu, lgmh, gyr)[1], "satellite fraction ignores the central parameters")

    c, s, q = box(FC), box(FS), box(SQ)
    logmp, tp = In((), 8, 17), In((), 0.1, 20)
    lgmu, lgmh, gyr = In((), -8, 0), In((), 8, 17), In((), -100, 20)
    qc = In((), 0, 1)
    A = {"c": c, "s": s, "q": q, "logmp": logmp, "tp": tp}
    E = {"lgmu": lgmu, "lgmh": lgmh, "gyr": gyr}
    fs = ["diffstarpop_mgash._diffstarpop_means_covs", "_diffstarpop_means_covs_cen", "sfh_pdf_mgash._frac_quench_cen/_sat",
          "satquenchpop_model.get_qprob_sat", "satquenchpop_model.predict_sat_frac_delta_qprob"]
    b = "all fraction and satellite parameters anywhere in their declared ranges; mass 8..17, peak time 0.1..20, mass ratio -8..0, host 8..17, time since infall -100..20"
    return [
        Harness("probability", dict(A, **E), prob, fs, b, budget=40),
        Harness("boost", dict(A, **E), boost, fs, b, budget=40),
        Harness("boost_kernel", dict(E, q=q, qc=qc), boost_kern, fs, b, budget=40),
        Harness("time", dict(E, q=q, qc=qc, dt=In((), 0, 50)), time, fs, b, budget=40),
        Harness("order", dict(E, q=q, qc=In((), 0, 0.5), dq=In((), 0, 0.5)), fall, fs, b, budget=40),
        Harness("sentinel", {"q": q, "qc": qc}, sentinel, fs, b, budget=40),
        Harness("satellite_law", dict(E, q=q), satlaw, fs, b),
        Harness("law", A, law, fs, b),
        Harness("monotone", dict(A, dm_=In((), 0, 9)), mono, fs, b, budget=60),
        Harness("central_independence", dict(A, s2=s, q2=q, **E, lgmu2=lgmu, lgmh2=lgmh, gyr2=gyr), indep, fs, b),
        Harness("satellite_independence", dict(A, c2=c, **E), sat_indep, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C15", H, out, seed)
