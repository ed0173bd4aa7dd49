"""Time-step arrays tile the time axis."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from vlib import pysym
from vlib.npshim import MArr, shimmed
from vlib.pysym import NP, dual, patched, replay_with, same, sym_float

LEVEL = "other"


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar import utils

    n = 5 if tier == "quick" else 9

    def np_dt(h, t):
        if h.concrete:
            return jnp.asarray(utils._get_dt_array(np.asarray(t)))
        with shimmed(utils):
            return utils._get_dt_array(MArr(t)).a

    def cells(h, t):
        n_ = t.shape[0]
        for name, d in (("loop", np_dt(h, t)), ("vectorised", utils._jax_get_dt_array(t))):
            for i in range(1, n_ - 1):
                h.eq(d[i], 0.5 * (t[i + 1] - t[i - 1]), f"{name}: interior step spans between neighbouring midpoints")
            h.eq(d[0], t[1] - t[0], f"{name}: first step is the first spacing")
            # last cell reaches half of its preceding step beyond the last time
            h.eq(d[n_ - 1], 0.5 * (t[n_ - 1] - t[n_ - 2]) + 0.5 * d[n_ - 2], f"{name}: last step extends by half the previous step")

    def agree(h, t):
        h.eq(np_dt(h, t), utils._jax_get_dt_array(t), "both implementations agree")

    def positive(h, t):
        for name, d in (("loop", np_dt(h, t)), ("vectorised", utils._jax_get_dt_array(t))):
            for i in range(n):
                h.lt(0.0, d[i], f"{name}: steps are positive", 1e-12)
            tot = d[0]
            for i in range(1, n):
                tot = tot + d[i]
            h.le(t[n - 1] - t[0], tot, f"{name}: steps cover the whole table")

    def uniform(h, a, dx):
        t = a + dx * jnp.arange(n)
        h.eq(utils._jax_get_dt_array(t), dx * jnp.ones(n), "uniform table has uniform steps")
        h.eq(np_dt(h, t), dx * jnp.ones(n), "uniform table has uniform steps (loop)")

    def scale(h, t, a, b):
        h.eq(utils._jax_get_dt_array(b * t + a), b * utils._jax_get_dt_array(t), "affine equivariance")

    def wide(h, t0, b, *, NW):
        cells(h, t0 + b * jnp.asarray(np.arange(NW) ** 1.1))

    t = In(n, -1e3, 1e3)
    ti = In(n, 0.01, 20, increasing=True)
    fs = ["utils._get_dt_array", "utils._jax_get_dt_array"]
    b = f"{n} times"
    return [
        Harness("cells", {"t": t}, cells, fs, b),
        *wides({"t0": In((), 0.01, 1), "b": In((), 1e-3, 1)}, wide, fs, "{NW} times, known offsets of two symbolic values", 1100, 4200),
        Harness("cells3", {"t": In(3, -1e3, 1e3)}, cells, fs, "3 times"),
        Harness("cells2", {"t": In(2, -1e3, 1e3)}, cells, fs, "2 times"),
        Harness("integers", {"t": In(n, -1000, 1000, kind="int")}, cells, fs, f"{n} whole-numbered times stored as integers"),
        Harness("agree", {"t": t}, agree, fs, b),
        Harness("positive", {"t": ti}, positive, fs, b + ", increasing"),
        Harness("uniform", {"a": In((), 0.01, 10), "dx": In((), 1e-3, 2)}, uniform, fs, b),
        Harness("affine", {"t": t, "a": In((), -10, 10), "b": In((), 0, 10)}, scale, fs, b),
    ]


def hs(tier):
    from diffstar import utils

    n = 3 if tier == "quick" else 4

    def spec(t):
        d = [None] * n
        d[0] = t[1] - t[0]
        for i in range(1, n - 1):
            d[i] = (t[i + 1] - t[i - 1]) * 0.5
        d[n - 1] = (t[n - 1] - t[n - 2]) * 0.5 + d[n - 2] * 0.5
        return pysym.oa(d) if any(pysym.hassym(x) for x in d) else np.array(d)

    def history(v):
        """tables one after another, the first again, and a result changed by its owner"""
        names = dict(np=NP(), float=sym_float) if v.symbolic else {}
        ts = [v.reals(f"t{k}", n, -1e3, 1e3) for k in range(2)]
        out = []
        with patched(utils, **names):
            for k in (0, 1, 0):
                t = ts[k].copy()
                d = utils._get_dt_array(t)
                out.append(("steps are those of the table given, whatever was asked before", same(d, spec(ts[k]), rtol=1e-6)))
                out.append(("the table is left as it was", same(t, ts[k])))
                d[:] = d * 0.0 - 1.0  # the caller's business
        return out

    return [dual("history", history, ["utils._get_dt_array"], f"two tables of any {n} times, three calls", 200 if tier == "quick" else 1500)]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C11", H, out, seed)
    for H in hs(tier):
        pysym.run_harness("C11", H, out, seed)


def replay(d):
    return replay_with(hs(d.get("tier", "quick")), d)
