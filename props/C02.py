"""Bounded and unbounded parameters of the SFH model are mutual inverses."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from props.C01 import BOUNDS, NAMES

LEVEL = "other"


def harnesses(tier):
    import jax.numpy as jnp
    from diffstar import defaults as D
    from diffstar.kernels import main_sequence_kernels as ms, quenching_kernels as q

    lo = np.array([BOUNDS[k][0] for k in NAMES])
    hi = np.array([BOUNDS[k][1] for k in NAMES])

    def rt_u(h, u):
        b = D.get_bounded_diffstar_params(D.DiffstarUParams(*u))
        r = D.get_unbounded_diffstar_params(b)
        for i, k in enumerate(NAMES):
            h.eq(r[i], u[i], f"u_{k} recovered from its bounded value", 1e-5)

    def rt_b(h, p):
        h.assume(p[6] + 1e-3 < p[7])
        u = D.get_unbounded_diffstar_params(D.DiffstarParams(*p))
        r = D.get_bounded_diffstar_params(u)
        for i, k in enumerate(NAMES):
            h.eq(r[i], p[i], f"{k} recovered from its unbounded value", 1e-7)
            h.finite(u[i], f"u_{k} finite inside the box")

    def order(h, p):
        h.assume(p[6] + 1e-3 < p[7])
        u = D.get_unbounded_diffstar_params(D.DiffstarParams(*p))
        for i, k in enumerate(NAMES):
            # the field named u_<k> depends on <k>: midpoint maps to the centre of the sigmoid
            h.eq(getattr(u, "u_" + k), u[i], f"field u_{k} is at position {i}")
        m = ms._get_unbounded_sfr_params(*p[:4])
        qq = q._get_unbounded_q_params(*p[4:])
        for i, val in enumerate([*m, *qq]):
            h.eq(val, u[i], f"component inverse of {NAMES[i]} agrees with the full inverse")
        h.eq(q._get_unbounded_lg_drop(p[6]), u[6], "scalar inverse of lg_drop agrees")
        h.eq(q._get_unbounded_qrejuv(p[7], p[6]), u[7], "scalar inverse of lg_rejuv agrees")

    ng = 2 if tier == "quick" else 4

    def galpop(h, p):
        h.assume(jnp.all(p[:, 6] + 1e-3 < p[:, 7]))
        um = ms._get_unbounded_sfr_params_vmap(p[:, :4])
        uq = q._get_unbounded_q_params_vmap(p[:, 4:])
        bm = ms._get_bounded_sfr_params_vmap(um)
        bq = q._get_bounded_q_params_vmap(uq)
        for g in range(ng):
            u = D.get_unbounded_diffstar_params(D.DiffstarParams(*p[g]))
            for i in range(4):
                h.eq(um[g, i], u[i], f"population inverse of {NAMES[i]} equals the single-galaxy one")
                h.eq(uq[g, i], u[4 + i], f"population inverse of {NAMES[4+i]} equals the single-galaxy one")
                h.eq(bm[g, i], p[g, i], f"population round trip of {NAMES[i]}", 1e-7)
                h.eq(bq[g, i], p[g, 4 + i], f"population round trip of {NAMES[4+i]}", 1e-7)

    def gal_u(h, um, uq):
        bm = ms._get_bounded_sfr_params_vmap(um)
        bq = q._get_bounded_q_params_vmap(uq)
        rm = ms._get_unbounded_sfr_params_vmap(bm)
        rq = q._get_unbounded_q_params_vmap(bq)
        for i in range(4):
            h.eq(rm[:, i], um[:, i], f"population u_{NAMES[i]} round trip", 1e-5)
            h.eq(rq[:, i], uq[:, i], f"population u_{NAMES[4+i]} round trip", 1e-5)

    eps = 1e-3 * (hi - lo)
    fs = ["diffstar.defaults.get_bounded_diffstar_params", "diffstar.defaults.get_unbounded_diffstar_params",
          "main_sequence_kernels._get_(un)bounded_sfr_params[_vmap]", "quenching_kernels._get_(un)bounded_q_params[_vmap]",
          "diffstar.utils._sigmoid, _inverse_sigmoid"]
    W = 12.0  # |u| <= 12: beyond that the float64 inverse loses all digits (sigmoid saturates)
    B = {"p": In(8, lo + eps, hi - eps)}
    return [
        Harness("u_to_b_to_u", {"u": In(8, -W, W)}, rt_u, fs, f"8 unbounded parameters in [-{W},{W}]"),
        Harness("b_to_u_to_b", B, rt_b, fs, "8 bounded parameters in their open box (margin 1e-3 of the width), lg_drop+1e-3 < lg_rejuv"),
        Harness("components", B, order, fs, "same box"),
        Harness("galpop", {"p": In((ng, 8), lo + eps, hi - eps)}, galpop, fs, f"{ng} galaxies, same box"),
        Harness("galpop_u", {"um": In((ng, 4), -W, W), "uq": In((ng, 4), -W, W)}, gal_u, fs, f"{ng} galaxies"),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C02", H, out, seed)
