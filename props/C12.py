"""Table interpolation."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides

LEVEL = "other"


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar.diffstarpop.utils import jax_np_interp_vmap
    from diffstar.utils import jax_np_interp

    k = 4 if tier == "quick" else 7
    nx = 2

    def inside(h, x, xt, j):
        k, nx = len(xt), len(x)
        # the caller's contract: index of the upper bracketing knot
        for a in range(nx):
            h.assume((j[a] >= 1) & (j[a] <= k - 1))
            h.assume(xt[j[a] - 1] <= x[a])
            h.assume(x[a] <= xt[j[a]])

    def lin(h, x, xt, yt, j):
        k, nx = len(xt), len(x)
        inside(h, x, xt, j)
        y = jax_np_interp(x, xt, yt, j)
        for a in range(nx):
            for i in range(1, k):
                w = (x[a] - xt[i - 1]) / (xt[i] - xt[i - 1])
                h.eq(jnp.where(j[a] == i, y[a], 0.0), jnp.where(j[a] == i, (1 - w) * yt[i - 1] + w * yt[i], 0.0), "linear interpolation between the bracketing knots")

    def rng(h, x, xt, yt, j):
        inside(h, x, xt, j)
        y = jax_np_interp(x, xt, yt, j)
        for a in range(nx):
            lo, hi = yt[j[a] - 1], yt[j[a]]
            h.le(jnp.minimum(lo, hi), y[a], "not below both bracketing values")
            h.le(y[a], jnp.maximum(lo, hi), "not above both bracketing values")
        h.finite(y, "finite")

    def knots(h, xt, yt):
        idx = jnp.arange(1, len(xt))
        h.eq(jax_np_interp(xt[1:], xt, yt, idx), yt[1:], "exact at the upper knot")
        h.eq(jax_np_interp(xt[:-1], xt, yt, idx), yt[:-1], "exact at the lower knot")

    def searchsorted(h, x, xt, yt):
        for a in range(nx):
            h.assume(xt[0] < x[a])
            h.assume(x[a] <= xt[k - 1])
        idx = jnp.searchsorted(xt, x)
        h.eq(jax_np_interp(x, xt, yt, idx), jnp.interp(x, xt, yt), "equals numpy-style interpolation with a searchsorted index")

    def pop(h, x, xt, yt, j):
        for g in range(2):
            for a in range(nx):
                h.assume((j[g, a] >= 1) & (j[g, a] <= k - 1))
        y = jax_np_interp_vmap(x, xt, yt, j)
        for g in range(2):
            h.eq(y[g], jax_np_interp(x[g], xt[g], yt, j[g]), "population interpolation row equals the single one")

    def wide(h, a, d, c, w, *, NW):
        i = np.arange(NW)
        xt, yt = a + d * i, c + w * np.sin(i)
        f = np.linspace(0.1, 0.9, NW - 1)
        y = jax_np_interp(xt[:-1] + f * d, xt, yt, jnp.arange(1, NW))
        h.close(y, (1 - f) * yt[:-1] + f * yt[1:], "long table: linear interpolation between the bracketing knots", 1e-9)

    xt = In(k, -100, 100, increasing=True, gap=1e-6)
    yt = In(k, -1e15, 1e15)
    x = In(nx, -100, 100)
    j = In(nx, 0, k, kind="int")
    fs = ["utils.jax_np_interp", "diffstarpop.utils.jax_np_interp_vmap"]
    b = f"{k} increasing knots, {nx} abscissae, symbolic bracketing index"
    return [
        Harness("linear", {"x": x, "xt": xt, "yt": yt, "j": j}, lin, fs, b, budget=40),
        Harness("range", {"x": x, "xt": xt, "yt": yt, "j": j}, rng, fs, b, budget=40),
        *wides({"a": In((), -100, 100), "d": In((), 0.01, 1), "c": In((), -100, 100), "w": In((), 1, 100)}, wide, fs, "{NW} knots, linear in four symbolic values", 1100, 4200),
        Harness("knots", {"xt": xt, "yt": yt}, knots, fs, b),
        Harness("knots_2", {"xt": In(2, -100, 100, increasing=True, gap=1e-6), "yt": In(2, -1e15, 1e15)}, knots, fs, "2 knots"),
        Harness("linear_2_1", {"x": In(1, -100, 100), "xt": In(2, -100, 100, increasing=True, gap=1e-6), "yt": In(2, -1e15, 1e15), "j": In(1, 0, 2, kind="int")}, lin, fs, "2 knots, 1 abscissa"),
        Harness("linear_square", {"x": In(3, -100, 100), "xt": In(3, -100, 100, increasing=True, gap=1e-6), "yt": In(3, -1e15, 1e15), "j": In(3, 0, 3, kind="int")}, lin, fs, "3 knots, 3 abscissae", budget=40),
        Harness("integers", {"x": In(2, -100, 100, kind="int"), "xt": In(3, -100, 100, increasing=True, gap=1, kind="int"), "yt": In(3, -1000, 1000, kind="int"), "j": In(2, 0, 3, kind="int")}, lin, fs, "3 knots, whole numbers stored as integers", budget=40),
        Harness("searchsorted", {"x": x, "xt": xt, "yt": yt}, searchsorted, fs, b, budget=60),
        Harness("population", {"x": In((2, nx), -100, 100), "xt": In((2, k), -100, 100, increasing=True, gap=1e-6), "yt": yt, "j": In((2, nx), 0, k, kind="int")}, pop, fs, b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C12", H, out, seed)
