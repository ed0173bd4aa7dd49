"""Differentiable histograms and the stellar-to-halo-mass relation."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist, tw_ndhist_weighted
    from diffstar.diffstarpop.sumstats.smhm import compute_smhm
    from diffstar.diffstarpop.sumstats.diffndhist import _tw_bin_weight_lax_kern as binw, _tw_cuml_lax_kern as cuml

    n, nb = (2, 3) if tier == "quick" else (3, 4)

    def hist(x, s, e):
        return tw_ndhist(x[:, None], s[:, None], e[:-1, None], e[1:, None])

    def histw(x, s, y, e):
        return tw_ndhist_weighted(x[:, None], s[:, None], y, e[:-1, None], e[1:, None])

    def edges(e0, d):
        return e0 + jnp.concatenate([jnp.zeros(1), jnp.cumsum(d)])

    def cdf(h, x, s, e, G):
        """cut at the values of the cumulative kernel, with the facts decided for them"""
        gx, gs, ga, gd = G
        fa, fb = cuml(gx, ga, gs), cuml(gx, ga + gd, gs)
        names = "cumulative kernel falls with the bin edge", "cumulative kernel not negative", "cumulative kernel at most one"
        h.lemma(fb, fa, names[0])
        h.lemma(0.0, fa, names[1])
        h.lemma(fa, 1.0, names[2])
        for i in range(n):
            f = [cuml(x[i], q, s[i]) for q in e]
            for a, b in zip(f, f[1:]):
                h.use(b, a, names[0])
            h.use(0.0, f[-1], names[1])
            h.use(f[0], 1.0, names[2])
            h.cut(*f)

    def count(h, x, s, e0, d, gx, gs, ga, gd):
        G = gx, gs, ga, gd
        e = edges(e0, d)
        cdf(h, x, s, e, G)
        c = hist(x, s, e)
        for b in range(nb):
            h.le(0.0, c[b], "counts are not negative")
            h.le(c[b], 1.0 * n, "a bin holds at most all the points")
        tot = sum(c[b] for b in range(nb))
        h.le(tot, 1.0 * n, "all bins together hold at most all the points")
        h.eq(tot, hist(x, s, jnp.stack([e[0], e[nb]]))[0], "counts of adjacent bins add up to the merged bin")

    def law(h, x, s, y, e0, d):
        e = edges(e0, d)
        n, nb = len(x), len(d)
        c, w = hist(x, s, e), histw(x, s, y, e)
        h.true(jnp.asarray(c.shape == w.shape == (nb,)), "one count per bin")
        for b in range(nb):
            ws = [binw(x[i], s[i], e[b], e[b + 1]) for i in range(n)]
            h.eq(c[b], sum(ws), "count is the sum over points of their bin weight")
            h.eq(w[b], sum(wi * y[i] for i, wi in enumerate(ws)), "weighted histogram is the weighted sum over points")

    def ones(h, x, s, k, e0, d):
        e = edges(e0, d)
        h.eq(histw(x, s, jnp.ones(n), e), hist(x, s, e), "unit weights reproduce the counts")
        h.eq(histw(x, s, k * jnp.ones(n), e), k * hist(x, s, e), "the weighted histogram is linear in the weights")

    def two_d(h, x, s, y, lo, dl):
        hi = lo + dl
        # two points in two dimensions, one bin: product of the one-dimensional weights
        c = tw_ndhist(x, s, lo[None, :], hi[None, :])[0]
        w = tw_ndhist_weighted(x, s, y, lo[None, :], hi[None, :])[0]
        p = [binw(x[i, 0], s[i, 0], lo[0], hi[0]) * binw(x[i, 1], s[i, 1], lo[1], hi[1]) for i in range(2)]
        h.eq(c, p[0] + p[1], "multi-dimensional weight is the product over dimensions")
        h.eq(w, p[0] * y[0] + p[1] * y[1], "weighted multi-dimensional histogram")

    def perm(h, x, s, y, e0, d):
        e = edges(e0, d)
        h.eq(hist(x[::-1], s[::-1], e), hist(x, s, e), "order of the points does not matter")
        h.eq(histw(x[::-1], s[::-1], y[::-1], e), histw(x, s, y, e), "order of the points does not matter (weighted)")

    def smhm(h, x, s, y, e0, d):
        e = edges(e0, d)
        m = compute_smhm(x, y, s, e)
        nb = len(d)
        h.true(jnp.asarray(m.shape == (nb,)), "one mean per bin")
        m = m.reshape(-1)
        c = hist(x, s, e)
        w = histw(x, s, y, e)
        for b in range(nb):
            h.eq(jnp.where(c[b] > 1e-6, m[b] * c[b], w[b]), w[b], "mean times count is the weighted sum")

    def smhm_range(h, x, s, y, e0, d, gx, gs, ga, gd):
        G = gx, gs, ga, gd
        e = e0 + jnp.stack([0 * d[0], d[0]])
        m = compute_smhm(x, y, s, e).reshape(-1)[0]
        c = hist(x, s, e)[0]
        h.assume(c > 1e-3)
        cdf(h, x, s, e, G)
        h.le(jnp.min(y), m, "mean stellar mass not below every galaxy", 1e-7)
        h.le(m, jnp.max(y), "mean stellar mass not above every galaxy", 1e-7)
        h.finite(m, "finite in a bin that holds galaxies")

    def smhm_const(h, x, s, k, e0, d):
        e = e0 + jnp.stack([0 * d[0], d[0]])
        c = hist(x, s, e)[0]
        h.assume(c > 1e-3)
        h.eq(compute_smhm(x, k * jnp.ones(n), s, e).reshape(-1)[0], k, "equal galaxies give their common value")

    def wide(h, x0, s0, y0, e0, d, *, NW):
        k = np.arange(NW) / NW
        x, s, y, e = x0 + 3 * k, s0 + k, y0 - k, edges(e0, d)
        ws = [jax.vmap(lambda a, b: binw(a, b, e[q], e[q + 1]))(x, s) for q in range(2)]
        c, w = hist(x, s, e), histw(x, s, y, e)
        for q in range(2):
            h.eq(c[q], jnp.sum(ws[q]), "many points: count is the sum over points of their bin weight")
            h.eq(w[q], jnp.sum(ws[q] * y), "many points: weighted histogram is the weighted sum over points")

    x = In(n, 9, 16)
    s = In(n, 1e-2, 2)
    y = In(n, 5, 13)
    e0, d = In((), 9, 15), In(nb, 1e-2, 3)
    fs = ["sumstats.tw_ndhist", "sumstats.tw_ndhist_weighted", "sumstats.compute_smhm"]
    b = f"{n} points, {nb} adjacent bins; positions 9..16, widths 0.01..2, bin widths 0.01..3"
    P = {"x": x, "s": s, "e0": e0, "d": d}
    GV = {"gx": In((), 9, 16), "gs": In((), 1e-2, 2), "ga": In((), 9, 15 + 3 * nb), "gd": In((), 0, 3 * nb)}
    two = In((2, 2), -5, 5)
    return [
        Harness("count", dict(P, **GV), count, fs, b, budget=40),
        Harness("law", dict(P, y=y), law, fs, b),
        Harness("linear", dict(P, k=In((), -10, 10)), ones, fs, b),
        *[Harness(f"{tag}_{a}_{c}", {"x": In(a, 9, 16), "s": In(a, 1e-2, 2), "y": In(a, 5, 13), "e0": e0, "d": In(c, 1e-2, 3)}, f, fs, f"{a} points, {c} adjacent bins") for a, c in ((1, 1), (1, 2), (2, 2), (3, 1)) for tag, f in (("law", law), ("smhm", smhm))],
        *wides({"x0": In((), 9, 13), "s0": In((), 0.1, 1), "y0": In((), 5, 13), "e0": e0, "d": In(2, 1e-2, 3)}, wide, fs, "{NW} points at known offsets, two bins", 300, 2100),
        Harness("two_d", {"x": two, "s": In((2, 2), 1e-2, 2), "y": In(2, -5, 5), "lo": In(2, -5, 5), "dl": In(2, 1e-2, 3)}, two_d, fs, "two points, two dimensions, one bin"),
        Harness("permute", dict(P, y=y), perm, fs, b),
        Harness("smhm_law", dict(P, y=y), smhm, fs, b),
        Harness("smhm_range", dict(P, y=y, **GV), smhm_range, fs, f"{n} galaxies, one bin holding total weight > 1e-3", budget=60),
        Harness("smhm_const", dict(P, k=In((), 5, 13)), smhm_const, fs, f"{n} galaxies, one bin holding total weight > 1e-3", budget=40),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C14", H, out, seed)
