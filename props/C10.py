"""Delayed-average star formation rate (fstar)."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides

LEVEL = "other"


def harnesses(tier):
    import numpy as np
    import jax.numpy as jnp
    from diffstar.utils import compute_fstar

    n = 4 if tier == "quick" else 6

    def ref_interp(x, t, m):
        # linear interpolation with constant extrapolation to the left
        y = m[0]
        for j in range(len(t) - 1):
            y = jnp.where((x >= t[j]) & (x <= t[j + 1]), m[j] + (m[j + 1] - m[j]) * (x - t[j]) / (t[j + 1] - t[j]), y)
        return y

    def formula(h, t, m, tau):
        h.assume(jnp.all(m[1:] >= m[:-1]))
        f = compute_fstar(t, m, tau)
        h.true(jnp.asarray(f.shape == t.shape), "one rate per time")
        for i in range(len(t)):
            low = ref_interp(t[i] - tau, t, m)
            h.eq(f[i] * tau * 1e9, m[i] - low, "fstar x delay is the mass formed during the delay", 1e-7)

    def signs(h, t, m, tau):
        f = compute_fstar(t, m, tau)
        for i in range(n):
            h.le(0.0, f[i], "never negative")
        h.eq(f[0], 0.0, "nothing formed before the first time")
        h.finite(f, "finite")

    def constant(h, t, tau, r, m0):
        # constant SFR r (Msun/yr): mass grows by r 1e9 per Gyr
        m = m0 + r * 1e9 * (t - t[0])
        f = compute_fstar(t, m, tau)
        for i in range(len(t)):
            h.eq(f[i] * tau, r * jnp.minimum(tau, t[i] - t[0]), "constant SFR is recovered once the delay fits in the table", 1e-7)

    def upper(h, t, m, tau):
        h.assume(jnp.all(m[1:] >= m[:-1]))
        f = compute_fstar(t, m, tau)
        for i in range(n):
            h.le(f[i] * tau * 1e9, m[i] - m[0], "never more than the mass formed since the first time", 1e-7)

    def shift(h, t, m, tau, a):
        h.assume(jnp.all(m[1:] >= m[:-1]))
        h.eq(compute_fstar(t, m + a, tau), compute_fstar(t, m, tau), "insensitive to a constant mass offset", 1e-7)

    def whole(h, t, m, extra):
        h.assume(jnp.all(m[1:] >= m[:-1]))
        tau = t[n - 1] - t[0] + extra
        f = compute_fstar(t, m, tau)
        for i in range(n):
            h.eq(f[i] * tau * 1e9, m[i] - m[0], "a delay longer than the table averages all mass formed in it", 1e-7)

    def wide(h, m0, r, *, NW):
        k = np.arange(NW)
        t = 0.5 + 0.045 * k
        m = m0 + r * (t - 0.3 * np.sin(t))
        f = compute_fstar(t, m, 1.0)
        x = np.clip(np.searchsorted(t, t - 1.0, side="right") - 1, 0, NW - 2)
        w = np.clip((t - 1.0 - t[x]) / (t[x + 1] - t[x]), 0.0, 1.0)
        h.close(f * 1e9, m - ((1 - w) * m[x] + w * m[x + 1]), "long table: fstar x delay is the mass formed during the delay", 1e-6)

    t = In(n, 0.01, 20, increasing=True, gap=1e-6)
    m = In(n, 0, 1e13)
    tau = In((), 1e-2, 5)
    fs = ["utils.compute_fstar", "jax.numpy.interp (inlined, trusted)"]
    b = f"{n} increasing times, masses in [0,1e13], delay in [0.01,5] Gyr"
    return [
        Harness("formula", {"t": t, "m": m, "tau": tau}, formula, fs, b, budget=40),
        Harness("signs", {"t": t, "m": m, "tau": tau}, signs, fs, b),
        Harness("constant", {"t": t, "tau": tau, "r": In((), 0, 1e4), "m0": In((), 0, 1e12)}, constant, fs, b, budget=40),
        Harness("upper", {"t": t, "m": m, "tau": tau}, upper, fs, b, budget=40),
        Harness("offset", {"t": t, "m": m, "tau": tau, "a": In((), 0, 1e12)}, shift, fs, b, budget=40),
        Harness("constant_2", {"t": In(2, 0.01, 20, increasing=True, gap=1e-6), "tau": tau, "r": In((), 0, 1e4), "m0": In((), 0, 1e12)}, constant, fs, "2 times"),
        *[Harness(f"formula_{k}", {"t": In(k, 0.01, 20, increasing=True, gap=1e-6), "m": In(k, 0, 1e13), "tau": tau}, formula, fs, f"{k} times") for k in (1, 2)],
        Harness("integers", {"t": In(3, 1, 20, kind="int", increasing=True, gap=1), "m": In(3, 0, 10**12, kind="int"), "tau": In((), 1, 5, kind="int")}, formula, fs, "3 whole times, masses and a whole delay stored as integers"),
        *wides({"m0": In((), 0, 1e12), "r": In((), 1e3, 1e12)}, wide, fs, "{NW} known times, masses linear in two symbolic values, delay 1 Gyr", 300, 2100),
        Harness("whole", {"t": t, "m": m, "extra": In((), 0, 10)}, whole, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C10", H, out, seed)
