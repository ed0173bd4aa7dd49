"""Clipped lines stay inside their bounds and follow the line in between."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffstar.diffstarpop.kernels.sfh_pdf_mgash import line_model
    from diffstar.diffstarpop.utils import smoothly_clipped_line as f

    def clip(h, x, x0, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        y = f(x, x0, y0, m, ylo, yhi)
        h.le(ylo, y, "not below the lower bound")
        h.le(y, yhi, "not above the upper bound")

    def finite(h, x, x0, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        h.finite(f(x, x0, y0, m, ylo, yhi), "finite")

    def flat(h, x, x0, ylo, d0, d1):
        # a flat line returns its intercept (up to the 1 per cent soft margin at the bounds)
        y0, yhi = ylo + d0, ylo + d0 + d1
        y = f(x, x0, y0, 0.0, ylo, yhi)
        h.le(y0 - 1e-3 * d0, y, "a flat line is not pulled below its value")
        h.le(y, y0 + 1e-3 * d1, "a flat line is not pushed above its value")
        h.finite(y, "a flat line is finite")

    def pivot(h, x0, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        y = f(x0, x0, y0, m, ylo, yhi)
        h.le(y0 - 1e-3 * d0, y, "passes through its reference point (lower)")
        h.le(y, y0 + 1e-3 * d1, "passes through its reference point (upper)")

    def inside(h, x, x0, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        line = y0 + m * (x - x0)
        h.assume(line >= ylo + 0.05 * d0)
        h.assume(line <= yhi - 0.05 * d1)
        y = f(x, x0, y0, m, ylo, yhi)
        h.le(line - 1e-3 * (d0 + d1), y, "follows the line away from the bounds (lower)", 1e-6)
        h.le(y, line + 1e-3 * (d0 + d1), "follows the line away from the bounds (upper)", 1e-6)

    def outside(h, x, x0, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        line = y0 + m * (x - x0)
        y = f(x, x0, y0, m, ylo, yhi)
        far = 0.5
        h.le(jnp.where(line < ylo - far * d0, y, ylo), ylo + 0.02 * (d0 + d1), "held at the lower bound below it")
        h.le(yhi - 0.02 * (d0 + d1), jnp.where(line > yhi + far * d1, y, yhi), "held at the upper bound above it")

    def model(h, x, ylo, d0, d1, m):
        y0, yhi = ylo + d0, ylo + d0 + d1
        h.eq(line_model(x, y0, m, ylo, yhi), f(x, 12.5, y0, m, ylo, yhi), "the mass trend is the clipped line pivoted at 12.5")

    x, x0 = In((), 5, 18), In((), 11, 14)
    ylo, d, m = In((), -10, 10), In((), 1e-2, 20), In((), -20, 20, special=(0.0,))
    A = {"x": x, "x0": x0, "ylo": ylo, "d0": d, "d1": d, "m": m}
    nox = {k: v for k, v in A.items() if k != "x"}
    nom = {k: v for k, v in A.items() if k != "m"}
    fs = ["diffstarpop.utils.smoothly_clipped_line", "sfh_pdf_mgash.line_model"]
    b = "abscissa 5..18, pivot 11..14, slope -20..20 including 0, intercept at least 0.01 inside bounds up to 40 apart"
    return [
        Harness("clip", A, clip, fs, b, budget=60),
        Harness("finite", A, finite, fs, b),
        Harness("flat", nom, flat, fs, b, budget=30),
        Harness("pivot", nox, pivot, fs, b, budget=30),
        Harness("inside", A, inside, fs, b + "; line at least 5 per cent of the half-range from either bound", budget=60),
        Harness("outside", A, outside, fs, b, budget=60),
        Harness("model", {k: v for k, v in A.items() if k != "x0"}, model, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C17", H, out, seed)
