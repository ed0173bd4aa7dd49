"""The star formation history is the floored product of quenching and main sequence."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from props.C01 import BOUNDS, NAMES
from props.C04 import MAH_HI, MAH_LO

LEVEL = "other"
P_LO = [BOUNDS[k][0] for k in NAMES]
P_HI = [BOUNDS[k][1] for k in NAMES]
# the numerical floor of every SFH
FLOOR = 1e-14


def gal_inputs(nt, tlo=0.01):
    return {"t": In(nt, tlo, 20), "p": In(8, P_LO, P_HI), "mah": In(5, MAH_LO, MAH_HI),
            "fb": In((), 0.01, 1.0), "lgt0": In((), 0.9, 1.3)}


def spec_sfh(t, p, mah, fb, lgt0):
    """the documented model, written from the model description"""
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, _log_mah_kern

    lgm = jnp.stack([_log_mah_kern(DEFAULT_MAH_PARAMS._make(mah), ti, lgt0) for ti in t])
    lgmcrit, lgy, ilo, ihi, lgqt, qlglgdt, drop, rej = p
    slope = ilo + (ihi - ilo) / (1 + jnp.exp(-9.0 * (lgm - lgmcrit)))
    ms = fb * 10**lgm * 10 ** (lgy + slope * (lgm - lgmcrit))

    def cdf(z):
        v = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5
        return jnp.where(z < -3, 0.0, jnp.where(z > 3, 1.0, v))

    y = (jnp.log10(t) - lgqt) / (10**qlglgdt / 12)
    lq = jnp.where(y < 0, drop * cdf(y + 3), drop + (rej - drop) * cdf(y - 3))
    return jnp.maximum(FLOOR, ms * 10**lq), ms


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar import calc_sfh_singlegal
    from diffstar.defaults import DiffstarParams

    def call(t, p, mah, fb, lgt0, **kw):
        return calc_sfh_singlegal(DiffstarParams(*p), DEFAULT_MAH_PARAMS._make(mah), t, lgt0=lgt0, fb=fb, **kw)

    def law(h, t, p, mah, fb, lgt0):
        s = call(t, p, mah, fb, lgt0)
        h.true(jnp.array(getattr(s, "shape", None) == t.shape), "only the rates are returned by default, one per time")
        s = getattr(s, "sfh", s)
        want, _ = spec_sfh(t, p, mah, fb, lgt0)
        for i in range(t.shape[0]):
            h.eq(s[i], want[i], "SFR equals max(floor, quenching x main sequence) at the matching time")
            h.le(FLOOR, s[i], "SFR never below the floor", 1e-20)
            h.finite(s[i], "SFR finite")
        both = call(t, p, mah, fb, lgt0, return_smh=True)
        ok = getattr(both, "_fields", ()) == ("sfh", "smh") and both.sfh.shape == both.smh.shape == t.shape
        h.true(jnp.array(ok), "rates and masses are returned exactly when both are requested")
        if ok:
            h.eq(both.sfh, s, "same SFH when the mass history is also requested")

    def bound(h, t, p, mah, fb, lgt0):
        h.assume(p[6] <= p[7])
        s = call(t, p, mah, fb, lgt0)
        _, ms = spec_sfh(t, p, mah, fb, lgt0)
        for i in range(t.shape[0]):
            h.le(s[i], jnp.maximum(ms[i], FLOOR), "quenching never raises the SFR above main sequence")

    def unq(h, t, p, mah, fb, lgt0):
        q = p.at[6].set(0.0).at[7].set(0.0)
        s = call(t, q, mah, fb, lgt0)
        _, ms = spec_sfh(t, p, mah, fb, lgt0)
        for i in range(t.shape[0]):
            h.eq(s[i], jnp.maximum(ms[i], FLOOR), "with no drop the galaxy stays on its main sequence")

    def pointwise(h, t, p, mah, fb, lgt0):
        s = call(t, p, mah, fb, lgt0)
        n = t.shape[0]
        h.eq(call(t[::-1], p, mah, fb, lgt0), s[::-1], "each SFR depends only on its own time (reversed table)")
        for i in range(n):
            h.eq(call(t[i:i + 1], p, mah, fb, lgt0)[0], s[i], "each SFR depends only on its own time (one-entry table)")

    def wide(h, t0, p, mah, fb, lgt0, *, NW):
        t = t0 + 0.01 * np.arange(NW)
        one = jax.vmap(lambda x: call(x[None], p, mah, fb, lgt0)[0])(t)
        r = call(t, p, mah, fb, lgt0, return_smh=True)
        h.eq(call(t, p, mah, fb, lgt0), one, "each SFR depends only on its own time (long table)")
        h.eq(r.sfh, one, "same SFH when the mass history is also requested (long table)")

    nt = 2 if tier == "quick" else 5
    fs = ["sfh_model.calc_sfh_singlegal", "history_kernel_builders._sfh_singlegal_kern", "main_sequence_kernels.sfh_ms_kernel",
          "quenching_kernels._quenching_kern", "diffmah._log_mah_kern (inlined, trusted)"]
    b = f"{nt} times in [0.01,20] Gyr, all galaxy parameters in their ranges, halo parameters in {MAH_LO}..{MAH_HI}"
    I = gal_inputs(nt)
    return [
        Harness("law", I, law, fs, b),
        Harness("law_one_time", gal_inputs(1), law, fs, "1 time"),
        Harness("bounded_by_ms", gal_inputs(1), bound, fs, b),
        Harness("unquenched", I, unq, fs, b),
        *wides({k: v for k, v in dict(I, t0=In((), 0.01, 5)).items() if k != "t"}, wide, fs, "{NW} times at known offsets of one symbolic time", 1100, 4200),
        Harness("pointwise", gal_inputs(max(nt, 3)), pointwise, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C06", H, out, seed)
