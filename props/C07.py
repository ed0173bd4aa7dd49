"""A population call gives every galaxy exactly what it gets alone."""
import numpy as np

from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from props.C04 import MAH_HI, MAH_LO
from props.C06 import P_HI, P_LO

LEVEL = "other"


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffstar import calc_sfh_galpop, calc_sfh_singlegal
    from diffstar import mgas_model
    from diffstar.defaults import DiffstarParams
    from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop

    M = DEFAULT_MAH_PARAMS._make
    ng, nt = (3, 2) if tier == "quick" else (4, 4)

    def sfh(h, t, p, mah, fb, lgt0):
        ng, nt = p.shape[0], t.shape[0]
        pop = calc_sfh_galpop(DiffstarParams(*p.T), M(mah.T), t, lgt0=lgt0, fb=fb)
        h.true(jnp.array(getattr(pop, "shape", None) == (ng, nt)), "population table has one row per galaxy")
        pop = getattr(pop, "sfh", pop)
        for g in range(ng):
            one = calc_sfh_singlegal(DiffstarParams(*p[g]), M(mah[g]), t, lgt0=lgt0, fb=fb)
            h.eq(pop[g], one, "population SFH row equals the single-galaxy SFH")

    def smh(h, t, p, mah, fb, lgt0):
        ng, nt = p.shape[0], t.shape[0]
        pop = calc_sfh_galpop(DiffstarParams(*p.T), M(mah.T), t, lgt0=lgt0, fb=fb, return_smh=True)
        ok = getattr(pop, "_fields", ()) == ("sfh", "smh") and pop.sfh.shape == pop.smh.shape == (ng, nt)
        h.true(jnp.array(ok), "rates and masses are returned when both are requested, one row per galaxy")
        if not ok:
            return
        for g in range(ng):
            one = calc_sfh_singlegal(DiffstarParams(*p[g]), M(mah[g]), t, lgt0=lgt0, fb=fb, return_smh=True)
            h.eq(pop.sfh[g], one.sfh, "population SFH row equals the single-galaxy SFH (with mass history)")
            h.eq(pop.smh[g], one.smh, "population mass-history row equals the single-galaxy one")

    def mstar(h, t, s):
        pop = cumulative_mstar_formed_galpop(t, s)
        h.true(jnp.array(pop.shape == s.shape), "one mass per galaxy and time")
        for g in range(s.shape[0]):
            h.eq(pop[g], cumulative_mstar_formed(t, s[g]), "population mass integral row equals the single-galaxy one")

    def gas(h, t, p, mah, fb, lgt0):
        pop = mgas_model.calc_mgas_galpop(DiffstarParams(*p.T), M(mah.T), t, lgt0, fb)
        for g in range(p.shape[0]):
            one = mgas_model.calc_mgas_singlegal(DiffstarParams(*p[g]), M(mah[g]), t, lgt0, fb)
            for k in one._fields:
                h.eq(getattr(pop, k)[g], getattr(one, k), f"population {k} row equals the single-galaxy one")

    def wide(h, t, p, mah, fb, lgt0, *, NW):
        """a large catalogue: every row differs from the others by known offsets of symbolic values"""
        k = np.arange(NW) / NW
        P, H = p[:, None] + 1e-3 * k, mah[:, None] + 1e-3 * k
        pop = calc_sfh_galpop(DiffstarParams(*P), M(H), t, lgt0=lgt0, fb=fb, return_smh=True)
        h.true(jnp.array(pop.sfh.shape == (NW, 1) and pop.smh.shape == (NW, 1)), "large population table has one row per galaxy")
        one = jax.vmap(lambda a, b: calc_sfh_singlegal(DiffstarParams(*a), M(b), t, lgt0=lgt0, fb=fb, return_smh=True))(P.T, H.T)
        h.eq(pop.sfh, one.sfh, "large population: SFH row equals the single-galaxy SFH")
        h.eq(pop.smh, one.smh, "large population: mass row equals the single-galaxy one")

    def I(ng, nt, incr=False):
        return {"t": In(nt, 0.05, 20, increasing=incr), "p": In((ng, 8), P_LO, P_HI), "mah": In((ng, 5), MAH_LO, MAH_HI),
                "fb": In((), 0.01, 1.0), "lgt0": In((), 0.9, 1.3)}

    b = f"{ng} galaxies x {nt} times, every parameter symbolic over its full range"
    fs = ["sfh_model.calc_sfh_galpop", "sfh_model.calc_sfh_singlegal", "history_kernel_builders._sfh_galpop_kern",
          "utils.cumulative_mstar_formed[_galpop]", "mgas_model.calc_mgas_galpop", "mgas_model.calc_mgas_singlegal"]
    return [
        Harness("sfh", I(ng, nt), sfh, fs, b),
        Harness("smh", I(ng, nt), smh, fs, b),
        Harness("mstar", {"t": In(nt + 2, 0.01, 20), "s": In((ng, nt + 2), 0, 1e4)}, mstar, fs, b),
        Harness("gas", I(2, 3), gas, fs, "2 galaxies x 3 times"),
        *[Harness(f"smh_{a}_{c}", I(a, c), smh, fs, f"{a} galaxies x {c} times") for a, c in ((1, 1), (1, 3), (3, 3), (2, 1))],
        *[Harness(f"sfh_{a}_{c}", I(a, c), sfh, fs, f"{a} galaxies x {c} times") for a, c in ((1, 1), (3, 3))],
        *[Harness(f"mstar_{a}_{c}", {"t": In(c, 0.01, 20), "s": In((a, c), 0, 1e4)}, mstar, fs, f"{a} galaxies x {c} times") for a, c in ((1, 1), (3, 3), (1, 4), (4, 1))],
        *[Harness(f"gas_{a}_{c}", I(a, c), gas, fs, f"{a} galaxies x {c} times") for a, c in ((1, 2), (3, 3))],
        *wides(dict(I(ng, 1), p=In(8, P_LO, P_HI), mah=In(5, MAH_LO, MAH_HI)), wide, fs, "{NW} galaxies x 1 time, offsets of one symbolic galaxy", 1100, 4200),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C07", H, out, seed)
