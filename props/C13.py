"""Triweight cumulative kernel and bin weights: a probability distribution, in every copy."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffstar import utils
    from diffstar.diffstarpop import utils as putils
    from diffstar.diffstarpop.sumstats import diffndhist as nd

    C = {"utils": utils.tw_cuml_jax_kern, "diffstarpop": putils._tw_cuml_lax_kern, "ndhist": nd._tw_cuml_lax_kern}
    # weight of the bin [lo, hi] for a point at x of width sig
    B = {
        "utils": lambda x, s, lo, hi: utils.tw_bin_jax_kern(x, s, lo, hi),
        "diffstarpop": putils._tw_bin_weight_lax_kern,
        "ndhist": nd._tw_bin_weight_lax_kern,
    }

    def spec(z):
        # integral of the triweight density 35/96 (1 - (z/3)^2)^3 from -3 to z
        w = z / 3
        v = 0.5 + 35.0 / 32.0 * (w - w**3 + 3 * w**5 / 5 - w**7 / 7)
        return jnp.where(w < -1, 0.0, jnp.where(w > 1, 1.0, v))

    def law(h, x, m, s):
        for k, F in C.items():
            h.eq(F(x, m, s), spec((x - m) / s), f"{k}: integral of the triweight density", 1e-9)

    def tails(h, x, m, s):
        for k, F in C.items():
            v = F(x, m, s)
            h.eq(jnp.where(x < m - 3 * s, v, 0.0), 0.0 * v, f"{k}: zero more than three widths below")
            h.eq(jnp.where(x > m + 3 * s, v, 1.0), 1.0 + 0 * v, f"{k}: one more than three widths above")

    def bounds(h, x, m, s):
        for k, F in C.items():
            h.between(F(x, m, s), 0.0, 1.0, f"{k}: within [0, 1]")
            h.finite(F(x, m, s), f"{k}: finite")

    def mono(h, x, d, m, s):
        for k, F in C.items():
            h.le(F(x, m, s), F(x + d, m, s), f"{k}: non-decreasing")

    def sym(h, d, m, s):
        for k, F in C.items():
            h.eq(F(m + d, m, s) + F(m - d, m, s), 1.0, f"{k}: symmetric about the centre")
            h.eq(F(m, m, s), 0.5, f"{k}: one half at the centre")

    def density(h, x, m, s):
        z = (x - m) / s
        dens = 35.0 / 96.0 * (1 - (z / 3) ** 2) ** 3 / s
        ins = (z > -3) & (z < 3)
        h.assume((z != 3) & (z != -3))
        for k, F in C.items():
            g = jax.grad(F)(x, m, s)
            h.eq(g, jnp.where(ins, dens, 0.0), f"{k}: derivative is the triweight density")

    def binw(h, x, s, lo, d1, d2):
        mid, hi = lo + d1, lo + d1 + d2
        for k, W in B.items():
            h.le(0.0, W(x, s, lo, mid), f"{k}: bin weight not negative")
            h.le(W(x, s, lo, mid), 1.0, f"{k}: bin weight at most one")
            h.eq(W(x, s, lo, mid) + W(x, s, mid, hi), W(x, s, lo, hi), f"{k}: adjacent bins add up")

    def binlaw(h, x, s, lo, d1):
        for k, W in B.items():
            F = C[k]
            h.eq(W(x, s, lo, lo + d1), F(lo + d1, x, s) - F(lo, x, s), f"{k}: bin weight is the cumulative kernel's increment over the bin", 1e-9)

    def cover(h, x, s, a, b):
        for k, W in B.items():
            h.eq(W(x, s, x - 3 * s - a, x + 3 * s + b), 1.0, f"{k}: a bin containing the support has weight one")
            h.eq(W(x, s, x + 3 * s + a, x + 3 * s + a + b), 0.0, f"{k}: a bin above the support has weight zero")
            h.eq(W(x, s, x - 3 * s - a - b, x - 3 * s - a), 0.0, f"{k}: a bin below the support has weight zero")

    x, m, s = In((), -100, 100), In((), -100, 100), In((), 1e-3, 50)
    d = In((), 0, 100)
    fs = ["utils.tw_cuml_jax_kern", "utils.tw_bin_jax_kern", "diffstarpop.utils._tw_cuml_lax_kern", "diffstarpop.utils._tw_bin_weight_lax_kern",
          "sumstats.diffndhist._tw_cuml_lax_kern", "sumstats.diffndhist._tw_bin_weight_lax_kern"]
    b = "position and centre in [-100,100], width in [1e-3,50]"
    X = {"x": x, "m": m, "s": s}
    return [
        Harness("law", X, law, fs, b),
        Harness("tails", X, tails, fs, b),
        Harness("bounds", X, bounds, fs, b),
        Harness("monotone", dict(X, d=d), mono, fs, b + ", any step up to 100"),
        Harness("symmetric", {"d": d, "m": m, "s": s}, sym, fs, b),
        Harness("density", X, density, fs, b + ", away from the two edges of the support"),
        Harness("bins", {"x": x, "s": s, "lo": x, "d1": d, "d2": d}, binw, fs, b + ", bin widths up to 100"),
        Harness("bin_law", {"x": x, "s": s, "lo": x, "d1": d}, binlaw, fs, b),
        Harness("cover", {"x": x, "s": s, "a": In((), 1e-6, 50), "b": In((), 1e-6, 50)}, cover, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C13", H, out, seed)
