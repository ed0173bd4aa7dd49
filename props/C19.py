"""Monte Carlo populations: each galaxy is an independent single draw, with its own star formation history."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from props.C04 import MAH_LO, MAH_HI
from props.C18 import ASSUMPTIONS, pop_box

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from jax import random as jran
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar.defaults import DiffstarParams, DiffstarUParams
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as DP
    from diffstar.diffstarpop import mc_diffstarpop_mgash as mc
    from diffstar.sfh_model import calc_sfh_singlegal

    MAH = DEFAULT_MAH_PARAMS._make
    ng = 3 if tier == "quick" else 4
    nt = 3 if tier == "quick" else 4

    def rows(h, p, lgm, tp, upid, lgmu, lgmh, gyr, key):
        P = DP._make(p)
        ng = len(lgm)
        ks = jran.split(key, ng)
        u = mc.mc_diffstar_u_params_galpop(P, lgm, tp, upid, lgmu, lgmh, gyr, key)
        b = mc.mc_diffstar_params_galpop(P, lgm, tp, upid, lgmu, lgmh, gyr, key)
        for i in range(ng):
            a = (P, lgm[i], tp[i], upid[i], lgmu[i], lgmh[i], gyr[i], ks[i])
            su, sb = mc.mc_diffstar_u_params_singlegal(*a), mc.mc_diffstar_params_singlegal(*a)
            for tag, j in (("main-sequence", 0), ("quenched", 1)):
                for k in DiffstarUParams._fields:
                    h.eq(getattr(u[j], k)[i], getattr(su[j], k), f"population row is the single draw with the galaxy's own key ({tag}, unbounded)")
                for k in DiffstarParams._fields:
                    h.eq(getattr(b[j], k)[i], getattr(sb[j], k), f"population row is the single draw with the galaxy's own key ({tag})")
            for r, s, t in ((u, su, "unbounded"), (b, sb, "bounded")):
                h.eq(r[2][i], s[2], f"quenched fraction row ({t})")
                h.true(r[3][i] == s[3], f"quenched flag row ({t})")

    def wide(h, p, logmp, tpk, upid, inf, key, *, NW):
        """a large catalogue: every halo differs from the others by known offsets of symbolic values"""
        P = DP._make(p)
        k = np.arange(NW) / NW
        A = (logmp + k, tpk + k, upid + np.arange(NW) % 2, *(inf[:, None] + 1e-3 * k))
        u = mc.mc_diffstar_u_params_galpop(P, *A, key)
        su = jax.vmap(lambda *a: mc.mc_diffstar_u_params_singlegal(P, *a))(*A, jran.split(key, NW))
        for tag, j in (("main-sequence", 0), ("quenched", 1)):
            for f in DiffstarUParams._fields:
                h.eq(getattr(u[j], f), getattr(su[j], f), f"large population: row is the single draw with the galaxy's own key ({tag})")
        h.eq(u[2], su[2], "large population: quenched fraction row")
        h.true(u[3] == su[3], "large population: quenched flag row")

    def comp(r, mah, t, lgt0, fb, h, tag):
        for i, x in ((0, r.sfh_ms), (1, r.sfh_q)):
            want = calc_sfh_singlegal(r[i], MAH(mah), t, lgt0=lgt0, fb=fb)
            for j in range(len(t)):
                h.eq(x[j], want[j], f"{tag}: the reported history is that of the reported parameters ({'quenched' if i else 'main-sequence'})")

    def sfh_single(h, p, mah, lgm, upid, inf, key, t, lgt0, fb):
        P = DP._make(p)
        r = mc.mc_diffstar_sfh_singlegal(P, MAH(mah), lgm, upid, *inf, key, t, lgt0=lgt0, fb=fb)
        h.true(r._fields == ("diffstar_params_ms", "diffstar_params_q", "sfh_ms", "sfh_q", "frac_q", "mc_is_q"), "result names")
        comp(r, mah, t, lgt0, fb, h, "single")
        w = mc.mc_diffstar_params_singlegal(P, lgm, mah[4], upid, *inf, key)
        for x, y in zip(r[0] + r[1], w[0] + w[1]):
            h.eq(x, y, "the drawn parameters use the halo's own peak time")
        h.eq(r.frac_q, w.frac_q, "same fraction as the parameter generator")
        h.true(r.mc_is_q == w.mc_is_q, "same flag as the parameter generator")

    def sfh_pop(h, p, mah, lgm, upid, inf, key, t, lgt0, fb):
        P = DP._make(p)
        r = mc.mc_diffstar_sfh_galpop(P, MAH(mah.T), lgm, upid, *inf, key, t, lgt0=lgt0, fb=fb)
        ng, nt = len(lgm), len(t)
        ks = jran.split(key, ng)
        h.true(r.sfh_ms.shape == (ng, nt) and r.sfh_q.shape == (ng, nt), "one row per galaxy, one column per time")
        for i in range(ng):
            s = mc.mc_diffstar_sfh_singlegal(P, MAH(mah[i]), lgm[i], upid[i], *inf[:, i], ks[i], t, lgt0=lgt0, fb=fb)
            for j in range(nt):
                h.eq(r.sfh_ms[i, j], s.sfh_ms[j], "population main-sequence history row is the galaxy's own")
                h.eq(r.sfh_q[i, j], s.sfh_q[j], "population quenched history row is the galaxy's own")
            for k in DiffstarParams._fields:
                h.eq(getattr(r.diffstar_params_ms, k)[i], getattr(s.diffstar_params_ms, k), "population parameters row")
                h.eq(getattr(r.diffstar_params_q, k)[i], getattr(s.diffstar_params_q, k), "population parameters row (quenched)")
            h.eq(r.frac_q[i], s.frac_q, "population fraction row")
            h.true(r.mc_is_q[i] == s.mc_is_q, "population flag row")

    Ppop = pop_box()
    key = In(2, kind="key")
    fs = ["mc_diffstarpop_mgash.mc_diffstar_[u_]params_galpop", "mc_diffstar_[u_]params_singlegal", "mc_diffstar_sfh_singlegal", "mc_diffstar_sfh_galpop"]
    b = f"{ng} galaxies, {nt} times; every population, halo and infall parameter symbolic; any key"
    v = lambda lo, hi: In(ng, lo, hi)
    ilo, ihi = np.array([-8.0, 8.0, -100.0]), np.array([0.0, 17.0, 20.0])
    T = {"t": In(nt, 0.05, 20), "lgt0": In((), 0.5, 1.5), "fb": In((), 0.01, 1)}
    w = lambda k, lo, hi: In(k, lo, hi)
    return [
        *[Harness(f"rows_{k}", {"p": Ppop, "lgm": w(k, 8, 17), "tp": w(k, 0.1, 20), "upid": In(k, -1, 1e12, kind="int"), "lgmu": w(k, -8, 0), "lgmh": w(k, 8, 17), "gyr": w(k, -100, 20), "key": key}, rows, fs, f"{k} galaxies") for k in (1, 2)],
        *[Harness(f"sfh_pop_{k}_{c}", dict(T, t=In(c, 0.05, 20), p=Ppop, mah=In((k, 5), MAH_LO, MAH_HI), lgm=w(k, 8, 17), upid=In(k, -1, 1e12, kind="int"), inf=In((3, k), ilo[:, None], ihi[:, None]), key=key), sfh_pop, fs, f"{k} galaxies, {c} times") for k, c in ((1, 1), (2, 2))],
        Harness("rows", {"p": Ppop, "lgm": v(8, 17), "tp": v(0.1, 20), "upid": In(ng, -1, 1e12, kind="int"), "lgmu": v(-8, 0), "lgmh": v(8, 17), "gyr": v(-100, 20), "key": key}, rows, fs, b),
        *wides({"p": Ppop, "logmp": In((), 8, 16), "tpk": In((), 0.1, 19), "upid": In((), -1, 0, kind="int"), "inf": In(3, ilo, ihi), "key": key}, wide, fs, "{NW} halos, known offsets of one symbolic halo", 1100, 2200),
        Harness("sfh_single", dict(T, p=Ppop, mah=In(5, MAH_LO, MAH_HI), lgm=In((), 8, 17), upid=In((), -1, 1e12, kind="int"), inf=In(3, ilo, ihi), key=key), sfh_single, fs, b),
        Harness("sfh_pop", dict(T, p=Ppop, mah=In((ng, 5), MAH_LO, MAH_HI), lgm=v(8, 17), upid=In(ng, -1, 1e12, kind="int"), inf=In((3, ng), ilo[:, None], ihi[:, None]), key=key), sfh_pop, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C19", H, out, seed)
