"""Shape of the quenching function."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C01 import BOUNDS, NAMES

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffstar.kernels import quenching_kernels as q

    def lgq(lgt, qt, w, drop, rej):
        return jnp.log10(q._quenching_kern(lgt, qt, w, drop, rej))

    def rng(h, lgt, qt, w, drop, rej):
        h.assume(drop <= rej)
        f = q._quenching_kern(lgt, qt, w, drop, rej)
        h.le(f, 1.0, "never boosts the main sequence")
        h.le(10**drop, f, "never below the quenching floor")
        h.lt(0.0, f, "strictly positive")
        h.finite(f, "finite")

    def before(h, a, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.close(q._quenching_kern(qt - w / 2 - a, qt, w, drop, rej), 1.0, "no quenching before the event starts")

    def at(h, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.eq(q._quenching_kern(qt, qt, w, drop, rej), 10**drop, "floor reached at the event centre")

    def after(h, a, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.close(q._quenching_kern(qt + w / 2 + a, qt, w, drop, rej), 10**rej, "rejuvenated level after the event ends")

    def fall(h, x, y, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.assume(x <= y)
        h.assume(y <= qt)
        h.le(q._quenching_kern(y, qt, w, drop, rej), q._quenching_kern(x, qt, w, drop, rej), "never recovers before the event centre")

    def rise(h, x, y, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.assume(x <= y)
        h.assume(qt <= x)
        h.le(q._quenching_kern(x, qt, w, drop, rej), q._quenching_kern(y, qt, w, drop, rej), "never falls after the event centre")
        h.le(q._quenching_kern(y, qt, w, drop, rej), 10**rej, "never above the rejuvenated level after the centre")

    def mid(h, qt, w, drop, rej):
        h.assume(drop <= rej)
        h.eq(lgq(qt - w / 4, qt, w, drop, rej), 0.5 * drop, "half of the drop a quarter of the duration before the centre")
        h.eq(lgq(qt + w / 4, qt, w, drop, rej), 0.5 * (drop + rej), "half of the recovery a quarter of the duration after the centre")

    def sym(h, a, qt, w, drop):
        h.eq(q._quenching_kern(qt - a, qt, w, drop, 0.0), q._quenching_kern(qt + a, qt, w, drop, 0.0), "symmetric in log time when rejuvenation is complete")

    def u_kern(h, lgt, u):
        b = q._get_bounded_q_params(*u)
        h.eq(q._quenching_kern_u_params(lgt, *u), q._quenching_kern(lgt, b[0], 10 ** b[1], b[2], b[3]), "unbounded-parameter form equals the bounded form with duration 10**qlglgdt")

    def neutral(h, lgt, qt, w):
        h.eq(q._quenching_kern(lgt, qt, w, 0.0, 0.0), 1.0, "zero drop means no quenching at all")

    qt = In((), 0.1, 2.0)
    w = In((), 1e-3, 10**-0.01)
    d = In((), -3, 0)
    base = {"qt": qt, "w": w, "drop": d, "rej": d}
    fs = ["quenching_kernels._quenching_kern", "quenching_kernels._jax_tw", "quenching_kernels._jax_partial_u_tw_kern",
          "quenching_kernels._quenching_kern_u_params"]
    b = "log time in [-3,3], parameters over their declared ranges, floor <= rejuvenated level"
    t = In((), -3, 3)
    return [
        Harness("range", {"lgt": t, **base}, rng, fs, b),
        Harness("before", {"a": In((), 0, 3), **base}, before, fs, b),
        Harness("centre", base, at, fs, b),
        Harness("after", {"a": In((), 0, 3), **base}, after, fs, b),
        Harness("falling", {"x": t, "y": t, **base}, fall, fs, b),
        Harness("rising", {"x": t, "y": t, **base}, rise, fs, b),
        Harness("midpoints", base, mid, fs, b),
        Harness("symmetry", {"a": In((), 0, 3), "qt": qt, "w": w, "drop": d}, sym, fs, b),
        Harness("unbounded_form", {"lgt": t, "u": In(4, -100, 100)}, u_kern, fs, "unbounded parameters in [-100,100]"),
        Harness("neutral", {"lgt": t, "qt": qt, "w": w}, neutral, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C05", H, out, seed)
