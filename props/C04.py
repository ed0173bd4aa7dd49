"""Main-sequence star formation law."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C01 import BOUNDS, NAMES

LEVEL = "other"
MS_LO = [BOUNDS[k][0] for k in NAMES[:4]]
MS_HI = [BOUNDS[k][1] for k in NAMES[:4]]
# diffmah parameters: logmp, logtc, early_index, late_index, t_peak
MAH_LO, MAH_HI = [8.0, -0.5, 1.0, 0.01, 0.5], [16.0, 1.2, 10.0, 3.0, 20.0]


def harnesses(tier):
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, _log_mah_kern
    from diffstar.kernels import main_sequence_kernels as ms

    MAH = DEFAULT_MAH_PARAMS._make

    def law(h, lgm, p):
        eff = ms._sfr_eff_plaw(lgm, *p)
        s = p[2] + (p[3] - p[2]) / (1 + jnp.exp(-9.0 * (lgm - p[0])))
        h.eq(eff, p[1] + s * (lgm - p[0]), "log efficiency is lgy + slope(lgm) (lgm - lgmcrit)")
        h.between(s, p[3], p[2], "slope between late and early index")

    def peak(h, lgm, p):
        eff = ms._sfr_eff_plaw(lgm, *p)
        h.eq(ms._sfr_eff_plaw(p[0], *p), p[1], "efficiency at the critical mass is lgy_at_mcrit")
        h.finite(eff, "efficiency finite")

    def sides(h, a, p):
        # power laws away from the transition
        lo, hi = p[0] - a, p[0] + a
        h.le(ms._sfr_eff_plaw(lo, *p), p[1] - 0.5 * (p[2] + p[3]) * a, "below the critical mass efficiency falls at least like the mean index")
        h.le(ms._sfr_eff_plaw(hi, *p), p[1] + 0.5 * (p[2] + p[3]) * a, "above the critical mass efficiency falls at least like the mean index")

    def sfr(h, t, mah, p, fb, lgt0):
        m = MAH(mah)
        got = ms.sfh_ms_kernel(t, m, p, lgt0, fb)
        lgm = _log_mah_kern(m, t, lgt0)
        s = p[2] + (p[3] - p[2]) / (1 + jnp.exp(-9.0 * (lgm - p[0])))
        want = fb * 10**lgm * 10 ** (p[1] + s * (lgm - p[0]))
        h.eq(got, want, "SFR = fb Mhalo(t) 10**log_efficiency")
        h.lt(0.0, got, "main-sequence SFR positive")
        got2 = ms.sfh_ms_kernel(t, m, p, lgt0, 2 * fb)
        h.eq(got2, 2 * got, "SFR proportional to the baryon fraction")

    def scal(h, t, mah, p, fb, lgt0):
        m = MAH(mah)
        q = p.at[1].set(p[1] + 1.0)
        h.eq(ms.sfh_ms_kernel(t, m, q, lgt0, fb), 10 * ms.sfh_ms_kernel(t, m, p, lgt0, fb), "one dex of normalisation is a factor of ten in SFR")
        h.eq(ms.sfh_ms_kernel(t, m, p, lgt0, fb), ms.sfh_ms_kernel(t, m._replace(t_peak=m.t_peak), p, lgt0, fb), "deterministic")

    nt = 3 if tier == "quick" else 6

    def vm(h, t, mah, p, fb, lgt0):
        m = MAH(mah)
        got = ms.sfh_ms_kernel_vmap(t, m, p, lgt0, fb)
        for i in range(nt):
            h.eq(got[i], ms.sfh_ms_kernel(t[i], m, p, lgt0, fb), "vectorised kernel equals the scalar kernel at each time")

    fs = ["main_sequence_kernels._sfr_eff_plaw", "main_sequence_kernels.sfh_ms_kernel[_vmap]", "utils._sigmoid"]
    P = In(4, MS_LO, MS_HI)
    common = {"mah": In(5, MAH_LO, MAH_HI), "p": P, "fb": In((), 0.01, 1.0), "lgt0": In((), 0.9, 1.3)}
    bt = "t in [0.05,20] Gyr, halo and galaxy parameters over their full ranges, fb in [0.01,1]"
    return [
        Harness("efficiency_law", {"lgm": In((), 5, 16), "p": P}, law, fs, "lgm in [5,16], parameters in their boxes"),
        Harness("peak", {"lgm": In((), 5, 16), "p": P}, peak, fs, "same"),
        Harness("sides", {"a": In((), 0, 3), "p": P}, sides, fs, "same, offset up to 3 dex"),
        Harness("sfr_law", {"t": In((), 0.05, 20), **common}, sfr, fs, bt),
        Harness("scaling", {"t": In((), 0.05, 20), **common}, scal, fs, bt),
        Harness("vmap", {"t": In(nt, 0.05, 20), **common}, vm, fs, bt + f", {nt} times"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C04", H, out, seed)
