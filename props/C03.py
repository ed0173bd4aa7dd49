"""Population-model parameters: declared ranges, inverses and name bookkeeping."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"
U = 300.0
W = 60.0


def harnesses(tier):
    import jax.numpy as jnp
    from collections import namedtuple
    from diffstar.diffstarpop import (DEFAULT_DIFFSTARPOP_PARAMS as DP, DEFAULT_DIFFSTARPOP_U_PARAMS as DU,
                                      DIFFSTARPOP_PBOUNDS as PB, DiffstarPopParams, DiffstarPopUParams,
                                      get_bounded_diffstarpop_params as gb, get_unbounded_diffstarpop_params as gu)
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq, sfh_pdf_mgash as sp
    from diffstar.diffstarpop.param_utils import get_all_diffstarpop_u_params, get_all_params_from_varied

    F = list(DP._fields)
    n = len(F)
    lo = np.array([float(getattr(PB, f)[0]) for f in F])
    hi = np.array([float(getattr(PB, f)[1]) for f in F])
    prob = [f for f in F if "frac_quench" in f and ("_ylo_" in f or f.endswith("_yhi"))] + [f for f in F if f.startswith("lgmu_")]
    std = [f for f in F if f.startswith("std_") and f.endswith("_int")]

    def in_bounds(h, u):
        p = gb(DiffstarPopUParams(*u))
        for i, f in enumerate(F):
            h.between(getattr(p, f), lo[i], hi[i], f"{f} within its declared range")
            h.finite(getattr(p, f), f"{f} finite")
        for f in prob:
            h.between(getattr(p, f), 0.0, 1.0, f"{f} is a probability")
        for f in std:
            h.le(0.0, getattr(p, f), f"{f} is a positive width")

    def names(h, u):
        # every bounded parameter is a function of the unbounded one of the same name only,
        # reached with the range declared under that name
        p = gb(DiffstarPopUParams(*u))
        for i, f in enumerate(F):
            b = getattr(PB, f)
            ref = lo[i] + (hi[i] - lo[i]) / (1 + jnp.exp(-0.1 * (getattr(DiffstarPopUParams(*u), "u_" + f) - 0.5 * (lo[i] + hi[i]))))
            h.eq(getattr(p, f), ref, f"{f} is the bounded image of u_{f}")

    def rt_u(h, u):
        r = gu(gb(DiffstarPopUParams(*u)))
        for i, f in enumerate(F):
            h.eq(getattr(r, "u_" + f), u[i], f"u_{f} recovered", 1e-4)

    eps = 1e-3 * (hi - lo)

    def rt_b(h, p):
        v = gu(DiffstarPopParams(*p))
        r = gb(v)
        for i, f in enumerate(F):
            h.eq(getattr(r, f), p[i], f"{f} recovered", 1e-7)
            h.finite(getattr(v, "u_" + f), f"u_{f} finite inside the range")

    def parts(h, u):
        full = DiffstarPopUParams(*u)
        p = gb(full)
        a = sp.get_bounded_sfh_pdf_params(sp.QseqUParams(*[getattr(full, k) for k in sp.QseqUParams._fields]))
        b = sq.get_bounded_satquenchpop_params(sq.SatQuenchPopUParams(*[getattr(full, k) for k in sq.SatQuenchPopUParams._fields]))
        for f in a._fields:
            h.eq(getattr(a, f), getattr(p, f), f"component transform of {f} agrees")
        for f in b._fields:
            h.eq(getattr(b, f), getattr(p, f), f"component transform of {f} agrees")
        ra, rb, r = sp.get_unbounded_sfh_pdf_params(a), sq.get_unbounded_satquenchpop_params(b), gu(p)
        for f in ra._fields:
            h.eq(getattr(ra, f), getattr(r, f), f"component inverse of {f} agrees", 1e-5)
        for f in rb._fields:
            h.eq(getattr(rb, f), getattr(r, f), f"component inverse of {f} agrees", 1e-5)

    UF = list(DU._fields)
    subsets = [UF[0::7], UF[3::5][::-1], UF[-9:], UF[:1], UF]

    def varied(h, v):
        for s, names_ in enumerate(subsets):
            T = namedtuple("T", names_)
            t = T(*[v[UF.index(k)] for k in names_])
            full = get_all_diffstarpop_u_params(t)
            full2 = get_all_params_from_varied(t, DU)
            h.true(jnp.array(tuple(full._fields) == tuple(UF)), "all fields present in order")
            for k in UF:
                want = v[UF.index(k)] if k in names_ else getattr(DU, k)
                h.eq(getattr(full, k), want, f"override of {k}: given value if varied, default otherwise")
                h.eq(getattr(full2, k), want, f"generic override of {k}")

    def arrays(h, v):
        """values per galaxy: each column is what it is alone"""
        p = gb(DiffstarPopUParams(*v))
        r = gu(p)
        one = [gb(DiffstarPopUParams(*v[:, j])) for j in range(v.shape[1])]
        inv = [gu(o) for o in one]
        for f in F:
            h.true(jnp.array(jnp.shape(getattr(p, f)) == (v.shape[1],)), "one value per column")
            for j in range(v.shape[1]):
                h.eq(getattr(p, f)[j], getattr(one[j], f), f"{f} of a column is its own transform")
                h.eq(getattr(r, "u_" + f)[j], getattr(inv[j], "u_" + f), f"u_{f} of a column is its own inverse", 1e-5)
        names_ = subsets[0]
        full = get_all_diffstarpop_u_params(namedtuple("T", names_)(*[v[UF.index(k)] for k in names_]))
        for k in names_:
            h.eq(getattr(full, k), v[UF.index(k)], "array-valued override kept whole")

    def order(h, u):
        """parameters are found by name, whatever the order of the container and whatever else it holds"""
        full = dict(zip(UF, u))
        p0 = gb(DiffstarPopUParams(*u))
        for perm in (UF[::-1], UF[7:] + UF[:7]):
            t = namedtuple("T", perm + ["spare"])(*[full[k] for k in perm], 3.0)
            p = gb(t)
            back = gu(namedtuple("B", [k[2:] for k in perm] + ["spare"])(*[getattr(p0, k[2:]) for k in perm], 3.0))
            ref = gu(p0)
            a, b = sp.get_bounded_sfh_pdf_params(t), sq.get_bounded_satquenchpop_params(t)
            for f in F:
                h.eq(getattr(p, f), getattr(p0, f), f"{f} found by name")
                h.eq(getattr(back, "u_" + f), getattr(ref, "u_" + f), f"{f} found by name (inverse)", 1e-5)
            for q in (a, b):
                for f in q._fields:
                    h.eq(getattr(q, f), getattr(p0, f), f"{f} found by name (component)")

    def defaults(h, x):
        q = gb(DU)
        for i, f in enumerate(F):
            h.between(getattr(DP, f) + 0 * x, lo[i], hi[i], f"default {f} inside its range")
            h.close(getattr(q, f) + 0 * x, getattr(DP, f), f"default {f} equals its transformed unbounded default", 1e-6)

    fs = ["diffstarpop.get_bounded_diffstarpop_params", "diffstarpop.get_unbounded_diffstarpop_params",
          "sfh_pdf_mgash.get_(un)bounded_sfh_pdf_params", "satquenchpop_model.get_(un)bounded_satquenchpop_params",
          "param_utils.get_all_params_from_varied, get_all_diffstarpop_u_params"]
    b = f"all {n} unbounded parameters symbolic in [-{U:g}, {U:g}]"
    return [
        Harness("in_bounds", {"u": In(n, -U, U)}, in_bounds, fs, b),
        Harness("names", {"u": In(n, -U, U)}, names, fs, b),
        Harness("u_to_b_to_u", {"u": In(n, -W, W)}, rt_u, fs, f"[-{W:g},{W:g}]"),
        Harness("b_to_u_to_b", {"p": In(n, lo + eps, hi - eps)}, rt_b, fs, "open box, margin 1e-3 of each width"),
        Harness("components", {"u": In(n, -W, W)}, parts, fs, f"[-{W:g},{W:g}]"),
        Harness("varied", {"v": In(n, -U, U)}, varied, fs, f"{len(subsets)} subsets of names, values symbolic"),
        Harness("arrays", {"v": In((n, 2), -W, W)}, arrays, fs, f"two columns of every parameter in [-{W:g},{W:g}]"),
        Harness("order", {"u": In(n, -W, W)}, order, fs, "reversed and rotated field order, an extra field"),
        Harness("defaults", {"x": In((), 0, 1)}, defaults, fs, "constants"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C03", H, out, seed)
