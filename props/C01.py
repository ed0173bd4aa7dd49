"""Bounded SFH parameters stay inside their documented ranges."""
import numpy as np

from vlib.harness import Harness, In, run_harness

LEVEL = "other"

# documented ranges (docs and bounds tables of the model paper), independent of the code
BOUNDS = dict(
    lgmcrit=(9.0, 13.5), lgy_at_mcrit=(-12.0, -8.0), indx_lo=(0.0, 5.0), indx_hi=(-5.0, 0.0),
    lg_qt=(0.1, 2.0), qlglgdt=(-3.0, -0.01), lg_drop=(-3.0, 0.0), lg_rejuv=(-3.0, 0.0),
)
NAMES = list(BOUNDS)
U = 1000.0


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar import defaults as D
    from diffstar.kernels import main_sequence_kernels as ms, quenching_kernels as q

    lo = np.array([BOUNDS[k][0] for k in NAMES])
    hi = np.array([BOUNDS[k][1] for k in NAMES])

    def get(u):
        return D.get_bounded_diffstar_params(D.DiffstarUParams(*u))

    def in_bounds(h, u):
        p = get(u)
        for i, k in enumerate(NAMES):
            h.between(getattr(p, k), lo[i], hi[i], f"{k} within its documented range")
            h.finite(getattr(p, k), f"{k} finite")
        h.le(p.lg_drop, p.lg_rejuv, "rejuvenation level not below the quenching floor")
        h.le(p.lg_rejuv, 0.0, "rejuvenation level not above main sequence")

    def monotone(h, u, v):
        p, r = get(u), get(v)
        for i, k in enumerate(NAMES[:7]):
            # raising one unbounded parameter raises its own bounded one and no other
            w = u.at[i].set(jnp.maximum(u[i], v[i]))
            h.le(getattr(get(u), k), getattr(get(w), k), f"{k} non-decreasing in its own parameter")
            for j, kk in enumerate(NAMES):
                if j != i and not (k == "lg_drop" and kk == "lg_rejuv"):
                    h.eq(getattr(get(u), kk), getattr(get(w), kk), f"{kk} independent of u_{k}")

    def rejuv(h, u, v):
        w = u.at[7].set(jnp.maximum(u[7], v[7]))
        a, b = get(u), get(w)
        h.le(a.lg_rejuv, b.lg_rejuv, "lg_rejuv non-decreasing in its own parameter")
        for kk in NAMES[:7]:
            h.eq(getattr(a, kk), getattr(b, kk), f"{kk} independent of u_lg_rejuv")

    def scalars(h, u):
        p = get(u)
        h.eq(q._get_bounded_lg_drop(u[6]), p.lg_drop, "scalar helper for lg_drop agrees")
        h.eq(q._get_bounded_qt(u[4]), p.lg_qt, "scalar helper for lg_qt agrees")
        h.eq(q._get_bounded_lg_rejuv(u[7], p.lg_drop), p.lg_rejuv, "scalar helper for lg_rejuv agrees")
        m = ms._get_bounded_sfr_params(*u[:4])
        qq = q._get_bounded_q_params(*u[4:])
        for i, (k, val) in enumerate(zip(NAMES, [*m, *qq])):
            h.eq(val, getattr(p, k), f"component transform of {k} agrees with the full transform")

    def galpop(h, um, uq):
        m = ms._get_bounded_sfr_params_vmap(um)
        qq = q._get_bounded_q_params_vmap(uq)
        for g in range(um.shape[0]):
            p = get(jnp.concatenate((um[g], uq[g])))
            for i in range(4):
                h.eq(m[g, i], p[i], f"population transform of {NAMES[i]} equals the single-galaxy one")
                h.eq(qq[g, i], p[4 + i], f"population transform of {NAMES[4+i]} equals the single-galaxy one")

    def defaults(h, u):
        # default parameter tables are consistent and interior
        for k in NAMES:
            val = getattr(D.DEFAULT_DIFFSTAR_PARAMS, k)
            h.lt(BOUNDS[k][0], val + 0 * u, f"default {k} inside its range", 0.0)
            h.lt(val + 0 * u, BOUNDS[k][1], f"default {k} inside its range (hi)", 0.0)
        for k, val in zip(NAMES, get(jnp.array(D.DEFAULT_DIFFSTAR_U_PARAMS))):
            h.close(val + 0 * u, getattr(D.DEFAULT_DIFFSTAR_PARAMS, k), f"default {k} equals its transformed unbounded default", 1e-6)
        un = D.DEFAULT_Q_PARAMS_UNQUENCHED
        for k in NAMES[4:]:
            h.between(getattr(un, k) + 0 * u, BOUNDS[k][0], BOUNDS[k][1], f"unquenched {k} in range")

    fs = ["diffstar.defaults.get_bounded_diffstar_params",
          "diffstar.kernels.main_sequence_kernels._get_bounded_sfr_params[_vmap]",
          "diffstar.kernels.quenching_kernels._get_bounded_q_params[_vmap], _get_bounded_lg_rejuv, _get_bounded_lg_drop, _get_bounded_qt",
          "diffstar.utils._sigmoid"]
    b = f"all 8 unbounded parameters symbolic in [-{U:g}, {U:g}]"
    ng = 3 if tier == "quick" else 5
    return [
        Harness("in_bounds", {"u": In(8, -U, U)}, in_bounds, fs, b),
        Harness("monotone", {"u": In(8, -U, U), "v": In(8, -U, U)}, monotone, fs, b + " (two copies)"),
        Harness("rejuv", {"u": In(8, -U, U), "v": In(8, -U, U)}, rejuv, fs, b + " (two copies)"),
        Harness("scalars", {"u": In(8, -U, U)}, scalars, fs, b),
        Harness("galpop", {"um": In((ng, 4), -U, U), "uq": In((ng, 4), -U, U)}, galpop, fs, f"{ng} galaxies, " + b),
        Harness("defaults", {"u": In((), 0, 1)}, defaults, ["diffstar.defaults constants"], "constants"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C01", H, out, seed)
