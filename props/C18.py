"""Monte Carlo draws: Gaussian with the population's moments, flagged quenched with the population's probability."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"
ASSUMPTIONS = ["jax.random is trusted: its outputs are uninterpreted functions of the key, the shape and the slot; uniform and normal transforms are encoded"]


def pop_box():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP, DIFFSTARPOP_PBOUNDS as PB

    b = np.array([[float(v) for v in getattr(PB, f)] for f in DP._fields])
    m = 1e-3 * (b[:, 1] - b[:, 0])
    return In(len(b), b[:, 0] + m, b[:, 1] - m)


# halo: logmp, tpeak, lgmu, lgmhost, gyr
HALO_LO, HALO_HI = [8.0, 0.1, -8.0, 8.0, -100.0], [17.0, 20.0, 0.0, 17.0, 20.0]


def harnesses(tier):
    import jax.numpy as jnp
    from jax import random as jran
    from diffstar.defaults import DEFAULT_Q_U_PARAMS_UNQUENCHED, DiffstarUParams, DiffstarParams, get_bounded_diffstar_params
    from diffstar.kernels.quenching_kernels import _quenching_kern
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP
    from diffstar.diffstarpop import mc_diffstarpop_mgash as mc
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dm

    UN, BN = DiffstarUParams._fields, DiffstarParams._fields

    def moments(p, halo, upid):
        r = dm._diffstarpop_means_covs(DP._make(p), halo[0], halo[1], halo[2], halo[3], halo[4])
        return jnp.where(upid == -1, r[0], r[1]), r[2:]

    def call(f, p, halo, upid, key):
        return f(DP._make(p), halo[0], halo[1], upid, halo[2], halo[3], halo[4], key)

    def scaled(cov, key):
        return jnp.sqrt(jnp.diag(cov)) * jran.normal(key, (4,))

    def gaussian(h, p, halo, upid, key):
        _, (mu_ms, mu_q, c_ms, c_q, c_qq) = moments(p, halo, upid)
        k = jran.split(key, 4)
        ms, q, _, _ = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        d_ms, d_q, d_qq = scaled(c_ms, k[0]), scaled(c_q, k[1]), scaled(c_qq, k[2])
        h.true(list(ms._fields) == list(UN) and list(q._fields) == list(UN), "draws carry every field by name")
        for i in range(4):
            h.eq(getattr(ms, UN[i]), mu_ms[i] + d_ms[i], "main-sequence draw is mean plus width times its own standard normal")
            h.eq(getattr(q, UN[i]), mu_q[i] + d_q[i], "quenched draw is mean plus width times its own standard normal")
            h.eq(getattr(q, UN[4 + i]), mu_q[4 + i] + d_qq[i], "quenching draw is mean plus width times its own standard normal")
            h.eq(getattr(ms, UN[4 + i]), 1.0 * DEFAULT_Q_U_PARAMS_UNQUENCHED[i], "main-sequence galaxy has the unquenched parameters")

    def flag(h, p, halo, upid, key):
        f, _ = moments(p, halo, upid)
        _, _, fq, isq = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        u = jran.uniform(jran.split(key, 4)[3])
        h.eq(fq, f, "reported fraction is the central one for centrals and the satellite one otherwise")
        h.true(isq == (u < f), "flagged quenched exactly when the uniform draw falls below the fraction")

    def flag_sure(h, p, halo, upid, key):
        _, _, fq, isq = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        h.true(jnp.where(fq <= 0.0, ~isq, True), "never quenched when the fraction is zero")
        h.true(jnp.where(fq >= 1.0, isq, True), "always quenched when the fraction is one")

    def flag_monotone(h, p, halo, p2, halo2, upid, key):
        _, _, f1, q1 = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        _, _, f2, q2 = call(mc.mc_diffstar_u_params_singlegal, p2, halo2, upid, key)
        h.true(jnp.where((f1 <= f2) & q1, q2, True), "raising the fraction never un-quenches a galaxy")

    def central(h, p, halo, halo2, key):
        a = call(mc.mc_diffstar_u_params_singlegal, p, halo, -1, key)
        b = dm.mc_diffstar_u_params_singlegal_kernel_cen(DP._make(p), halo[0], halo[1], key)
        c = call(mc.mc_diffstar_u_params_singlegal, p, jnp.concatenate([halo[:2], halo2[2:]]), -1, key)
        for x, y, z in zip(a[0] + a[1], b[0] + b[1], c[0] + c[1]):
            h.eq(x, y, "central-only generator gives the same galaxy")
            h.eq(x, z, "a central ignores the infall inputs")
        h.eq(a[2], b[2], "central-only generator gives the same fraction")
        h.eq(a[2], c[2], "a central's fraction ignores the infall inputs")
        h.true(a[3] == b[3], "central-only generator gives the same flag")
        h.true(a[3] == c[3], "a central's flag ignores the infall inputs")

    def sat_same(h, p, halo, upid, key):
        a = call(mc.mc_diffstar_u_params_singlegal, p, halo, -1, key)
        b = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        for x, y in zip(a[0] + a[1], b[0] + b[1]):
            h.eq(x, y, "being a satellite changes the fraction only, not the drawn parameters")

    def bounded(h, p, halo, upid, key):
        u = call(mc.mc_diffstar_u_params_singlegal, p, halo, upid, key)
        b = call(mc.mc_diffstar_params_singlegal, p, halo, upid, key)
        h.true(b._fields == ("diffstar_params_ms", "diffstar_params_q", "frac_q", "mc_is_q"), "result names")
        for tag, uu, bb in (("main-sequence", u[0], b.diffstar_params_ms), ("quenched", u[1], b.diffstar_params_q)):
            want = get_bounded_diffstar_params(uu)
            for k in BN:
                h.eq(getattr(bb, k), getattr(want, k), f"{tag}: bounded draw is the transform of the unbounded draw")
        h.eq(b.frac_q, u[2], "bounded and unbounded generators report the same fraction")
        h.true(b.mc_is_q == u[3], "bounded and unbounded generators report the same flag")

    def unquenched(h, lgt):
        p = get_bounded_diffstar_params(tuple(DEFAULT_Q_U_PARAMS_UNQUENCHED) * 2)
        h.le(1.0 - 1e-5, _quenching_kern(lgt, *p[4:]), "main-sequence galaxies are never quenched")

    P, H = pop_box(), In(5, HALO_LO, HALO_HI)
    upid, key = In((), -1, 1e12, kind="int"), In(2, kind="key")
    A = {"p": P, "halo": H, "upid": upid, "key": key}
    fs = ["mc_diffstarpop_mgash.mc_diffstar_u_params_singlegal", "mc_diffstar_params_singlegal", "diffstarpop_mgash.mc_diffstar_u_params_singlegal_kernel[_cen]", "_diffstarpop_means_covs"]
    b = "every population parameter within 1e-3 of its range's edges, any halo (mass 8..17, peak time 0.1..20, infall history), any host id, any key"
    return [
        Harness("gaussian", A, gaussian, fs, b),
        Harness("flag", A, flag, fs, b),
        Harness("flag_sure", A, flag_sure, fs, b),
        Harness("flag_monotone", dict(A, p2=P, halo2=H), flag_monotone, fs, b + "; two populations and halos with the same key"),
        Harness("central", {"p": P, "halo": H, "halo2": H, "key": key}, central, fs, b),
        Harness("satellite", A, sat_same, fs, b),
        Harness("bounded", A, bounded, fs, b),
        Harness("unquenched", {"lgt": In((), -3, 1.5)}, unquenched, ["defaults.DEFAULT_Q_U_PARAMS_UNQUENCHED", "_quenching_kern"], "log time -3..1.5"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C18", H, out, seed)
