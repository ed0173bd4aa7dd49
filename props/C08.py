"""Cumulative stellar mass is the time integral of the SFH."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from props.C06 import gal_inputs

LEVEL = "other"
T0, S0, YR = 0.001, 1e-14, 1e9


def spec(t, s):
    import jax.numpy as jnp

    tt = [T0, *t]
    ss = [S0, *s]
    out, acc = [], 0.0
    for i in range(1, len(tt)):
        acc = acc + 0.5 * (tt[i] - tt[i - 1]) * (ss[i] + ss[i - 1])
        out.append(acc * YR)
    return jnp.stack(out)


def harnesses(tier):
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar import calc_sfh_singlegal
    from diffstar.defaults import DiffstarParams
    from diffstar.utils import cumtrapz, cumulative_mstar_formed, cumulative_mstar_formed_galpop

    n = 5 if tier == "quick" else 10

    def integral(h, t, s):
        m = cumulative_mstar_formed(t, s)
        h.eq(m, spec(t, s), "mass is the trapezoidal integral from the birth epoch, in Msun")
        h.eq(cumulative_mstar_formed_galpop(t, s[None, :])[0], spec(t, s), "population integral is the same integral")

    def mono(h, t, s):
        m = cumulative_mstar_formed(t, s)
        n = t.shape[0]
        h.lt(0.0, m[0], "first entry positive", 0.0)
        for i in range(n - 1):
            h.le(m[i], m[i + 1], "mass never decreases")
        h.finite(m, "mass finite")

    def causal(h, t, s, r):
        m = cumulative_mstar_formed(t, s)
        for k in range(1, n):
            s2 = jnp.concatenate((s[:k], r[k:]))
            h.eq(cumulative_mstar_formed(t, s2)[:k], m[:k], "mass at a time does not depend on later star formation")
            h.eq(cumulative_mstar_formed(t[:k], s[:k]), m[:k], "extending the time table leaves earlier masses unchanged")

    def linear(h, t, s, r, a):
        zero = cumulative_mstar_formed(t, jnp.zeros(n))
        f = lambda x: cumulative_mstar_formed(t, x) - zero
        h.eq(f(s + r), f(s) + f(r), "mass is additive in the SFH")
        h.eq(f(a * s), a * f(s), "mass scales with the SFH")

    def more(h, t, s, r):
        h.assume(jnp.all(s <= r))
        a, b = cumulative_mstar_formed(t, s), cumulative_mstar_formed(t, r)
        for i in range(n):
            h.le(a[i], b[i], "more star formation never means less mass")

    def trapz(h, t, s):
        c = cumtrapz(t, s)
        h.eq(c[0], 0.0, "integral starts at zero")
        for i in range(n - 1):
            h.eq(c[i + 1] - c[i], 0.5 * (t[i + 1] - t[i]) * (s[i] + s[i + 1]), "increment is the trapezoid between neighbours")

    def smh(h, t, p, mah, fb, lgt0):
        g = calc_sfh_singlegal(DiffstarParams(*p), DEFAULT_MAH_PARAMS._make(mah), t, lgt0=lgt0, fb=fb, return_smh=True)
        h.eq(g.smh, spec(t, g.sfh), "returned mass history integrates the returned SFH")
        for i in range(t.shape[0] - 1):
            h.le(g.smh[i], g.smh[i + 1], "returned mass history never decreases")

    def wide(h, t0, dt, s0, c, *, NW):
        k = np.arange(NW)
        t, s = t0 + dt * k, s0 + c * np.cos(k) ** 2
        h.eq(cumulative_mstar_formed(t, s), spec(t, s), "long table: mass is the trapezoidal integral")
        two = cumulative_mstar_formed_galpop(t, jnp.stack([s, 2 * s]))
        h.eq(two[0], spec(t, s), "long table: population integral is the same integral")

    t = In(n, 0.01, 20, increasing=True)
    s = In(n, 0, 1e6)
    gi = dict(gal_inputs(3), t=In(3, 0.01, 20, increasing=True))
    fs = ["utils.cumulative_mstar_formed", "utils.cumulative_mstar_formed_galpop", "utils.cumtrapz", "sfh_model.calc_sfh_singlegal(return_smh)"]
    b = f"tables of {n} increasing times in [0.01,20] Gyr, SFR in [0,1e4]"
    return [
        Harness("integral", {"t": t, "s": s}, integral, fs, b),
        Harness("monotone", {"t": t, "s": s}, mono, fs, b),
        Harness("causal", {"t": t, "s": s, "r": s}, causal, fs, b),
        Harness("linear", {"t": t, "s": s, "r": s, "a": In((), 0, 100)}, linear, fs, b),
        Harness("order", {"t": t, "s": s, "r": s}, more, fs, b),
        Harness("cumtrapz", {"t": t, "s": In(n, -1e4, 1e4)}, trapz, fs, b),
        *[Harness(f"integral_{k}", {"t": In(k, 0.01, 20, increasing=True), "s": In(k, 0, 1e6)}, integral, fs, f"{k} times") for k in (1, 2)],
        Harness("integers", {"t": In(n, 1, 20, kind="int", increasing=True), "s": In(n, 0, 1000, kind="int")}, integral, fs, f"{n} whole times and rates stored as integers"),
        *wides({"t0": In((), 0.01, 1), "dt": In((), 1e-3, 0.02), "s0": In((), 0, 1e4), "c": In((), 0, 1e4)}, wide, fs, "{NW} times, known multiples of four symbolic values", 600, 2100),
        Harness("smh", gi, smh, fs, "3 times, all galaxy and halo parameters symbolic"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C08", H, out, seed)
