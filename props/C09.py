"""Gas budget."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C06 import gal_inputs
from props.C08 import spec as integral

LEVEL = "other"


def harnesses(tier):
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_singlehalo
    from diffstar import calc_sfh_singlegal
    from diffstar.defaults import DiffstarParams, FB, LGT0
    from diffstar.mgas_model import calc_mgas_galpop, calc_mgas_singlegal

    M = DEFAULT_MAH_PARAMS._make

    def budget(h, t, p, mah, fb, lgt0):
        P = DiffstarParams(*p)
        g = calc_mgas_singlegal(P, M(mah), t, lgt0, fb)
        ref = calc_sfh_singlegal(P, M(mah), t, lgt0=lgt0, fb=fb, return_smh=True)
        h.eq(g.sfh, ref.sfh, "gas model reports the model SFH")
        h.eq(g.smh, ref.smh, "gas model reports the model mass history")
        dmhdt, _ = mah_singlehalo(M(mah), t, lgt0)
        acc = integral(t, fb * dmhdt)
        for i in range(t.shape[0]):
            h.eq(g.mgash[i] + g.smh[i], acc[i], "gas plus stars equals the accreted baryons")

    def rate(h, t, p, mah, fb, lgt0):
        g = calc_mgas_singlegal(DiffstarParams(*p), M(mah), t, lgt0, fb)
        m = g.mgash
        n = t.shape[0]
        for i in range(1, n - 1):
            h.eq(g.dmgash[i] * (t[i + 1] - t[i - 1]) * 1e9, m[i + 1] - m[i - 1], "interior gas rate is the centred difference of the gas mass per year", 1e-6)
        h.eq(g.dmgash[0] * (t[1] - t[0]) * 1e9, m[1] - m[0], "first gas rate is the forward difference", 1e-6)

    def defaults(h, t, p, mah):
        P = DiffstarParams(*p)
        a = calc_mgas_singlegal(P, M(mah), t)
        b = calc_mgas_singlegal(P, M(mah), t, LGT0, FB)
        for k in a._fields:
            h.eq(getattr(a, k), getattr(b, k), f"default cosmology used for {k} when none is given")
        P2 = DiffstarParams(*jnp.stack((p, p), axis=1))
        c = calc_mgas_galpop(P2, M(jnp.stack((mah, mah), axis=1)), t)
        for k in a._fields:
            h.eq(getattr(c, k)[1], getattr(a, k), f"population default cosmology for {k}")

    n = 3 if tier == "quick" else 4
    I = dict(gal_inputs(n), t=In(n, 0.05, 20, increasing=True, gap=1e-4))
    I2 = {k: I[k] for k in ("t", "p", "mah")}
    two = dict(gal_inputs(2), t=In(2, 0.05, 20, increasing=True, gap=1e-4))
    fs = ["mgas_model.calc_mgas_singlegal", "mgas_model.calc_mgas_galpop", "utils._jax_get_dt_array", "utils.cumulative_mstar_formed",
          "diffmah.mah_singlehalo (inlined, trusted)"]
    b = f"{n} increasing times in [0.05,20] Gyr, every galaxy, halo and cosmology parameter symbolic"
    return [
        Harness("budget", I, budget, fs, b),
        Harness("rate", I, rate, fs, b),
        Harness("budget2", two, budget, fs, "2 times"),
        Harness("rate2", two, rate, fs, "2 times"),
        Harness("defaults", I2, defaults, fs, b + "; default cosmology"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C09", H, out, seed)
