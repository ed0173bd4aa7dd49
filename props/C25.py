"""Simulation loaders: histories, integrated masses, peak masses and fit masks."""
import types

import numpy as np

from props.C04 import MAH_HI, MAH_LO
from props.C08 import spec as integral
from vlib.fakeio import FS, Dataset, Group
from vlib.harness import Harness, In, run_harness
from vlib.sizes import wides
from vlib.npshim import NP, J, MArr, run_np
from vlib.pysym import patched

LEVEL = "other"


class Cols(dict):
    """a structured array as read from a .npy file: columns by name, number of rows by len"""

    def __len__(self):
        return next(iter(self.values())).shape[0]

    @property
    def dtype(self):
        return types.SimpleNamespace(names=tuple(self))

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)


def harnesses(tier):
    import jax
    import jax.numpy as jnp
    from diffmah import diffmah_kernels as dk
    from diffstar.data_loaders import load_galacticus_sfh as lg
    from diffstar.data_loaders import load_smah_data as ls
    from diffstar.data_loaders import utils as du

    q = tier == "quick"
    ng, nt = (2, 3) if q else (3, 5)

    def A(h, x):
        return np.asarray(x) if h.concrete else MArr(x)

    def call(h, mod, f, args, fs, kw=None, **over):
        """f with the in-memory file layer under numpy, h5py and the catalogue reader"""
        if h.concrete:
            with patched(np, load=fs.load, loadtxt=fs.load, genfromtxt=fs.load), patched(mod, h5py=fs.h5(), **over), patched(du, h5py=fs.h5()):
                return run_np(h, mod, f, args, kw)
        with patched(du, h5py=fs.h5()):
            return run_np(h, mod, f, args, kw, h5py=fs.h5(), np=NP(load=fs.load, loadtxt=fs.load, genfromtxt=fs.load), load_flat_hdf5=du.load_flat_hdf5, **over)

    def common(h, res, ids, sfh, t, who):
        halo_ids, lsm, s, tt = res[:4]
        ng, nt = sfh.shape
        h.eq(J(halo_ids), ids, f"{who}: halo ids in catalogue order", 0)
        h.eq(J(s), sfh, f"{who}: star formation rates as stored")
        h.eq(J(tt), t, f"{who}: cosmic times as stored")
        for g in range(ng):
            ref = integral(t, sfh[g])
            for i in range(nt):
                h.eq(J(lsm)[g, i], jnp.log10(ref[i]), f"{who}: log mass of a galaxy is the integral of its own history", 1e-7)

    UM = [("load_bolshoi_data", "bpl_diffmah_{}.npy", "bpl_cosmic_time.npy"), ("load_bolshoi_small_data", "um_histories_subsample_dr1_bpl_{}_diffmah.npy", "bpl_cosmic_time.npy"),
          ("load_mdpl_data", "mdpl2_diffmah_{}.npy", "mdpl2_cosmic_time.npy"), ("load_mdpl_small_data", "um_histories_dr1_mdpl2_small_{}.npy", "mdpl2_cosmic_time.npy")]

    def um(h, t, sfh, other, ids):
        for name, pat, tfn in UM:
            for kind in ("cens", "sats"):
                fs = FS()
                # files of the other galaxy type hold other histories
                for k in ("cens", "sats"):
                    x = sfh if k == kind else other
                    fs.files["dir/" + pat.format(k)] = Cols(halo_id=A(h, ids), sfr_history_main_prog=A(h, x))
                fs.files["dir/" + tfn] = A(h, t)
                common(h, call(h, ls, getattr(ls, name), (kind, "dir"), fs), ids, sfh, t, name)

    def runmax(x, g, i):
        m = x[g, 0]
        for k in range(1, i + 1):
            m = jnp.maximum(m, x[g, k])
        return m

    def tng(h, t, sfh, lgm):
        fs = FS()
        fs.files["dir/tng_diffmah.npy"] = Cols(mpeak=A(h, lgm[:, -1]), sfh=A(h, sfh), mpeakh=A(h, lgm))
        fs.files["dir/tng_small.npy"] = Cols(mpeak=A(h, lgm[:, -1]), sfh=A(h, sfh))
        fs.files["dir/tng_cosmic_time.npy"] = A(h, t)
        ids = jnp.arange(len(sfh)) * 1.0
        res = call(h, ls, ls.load_tng_data, ("dir",), fs)
        common(h, res, ids, sfh, t, "load_tng_data")
        lm, m0 = J(res[4]), J(res[5])
        ng, nt = sfh.shape
        for g in range(ng):
            for i in range(nt):
                h.eq(lm[g, i], runmax(lgm, g, i) - np.log10(ls.H_TNG), "TNG halo mass history: largest mass so far, little h removed")
            h.eq(m0[g], lm[g, nt - 1], "TNG present-day peak mass is the last of the history")
            for i in range(nt - 1):
                h.le(lm[g, i], lm[g, i + 1], "TNG halo mass never decreases")
        common(h, call(h, ls, ls.load_tng_small_data, ("cens", "dir"), fs), ids, sfh, t, "load_tng_small_data")

    def smdpl(h, t, sfh, all_, mh, ids):
        for name, col in (("load_SMDPL_nomerging_data", "sfr_history_main_prog"), ("load_SMDPL_DR1_data", "sfr_history_all_prog")):
            fs = FS()
            fs.files["dir/smdpl_cosmic_time.txt"] = A(h, t)
            asked = []
            cols = dict(halo_id=ids, mpeak_history_main_prog=mh, sfr_history_main_prog=sfh, sfr_history_all_prog=all_)

            def mock(subvols, root_dirname=None, galprops=(), **k):
                asked.append((list(subvols), root_dirname))
                return Cols({k: A(h, cols[k]) for k in galprops})

            res = call(h, ls, getattr(ls, name), ([3, 7], "dir"), fs, HAS_UM_LOADER=True, load_mock_from_binaries=mock)
            h.true(jnp.asarray(asked == [([3, 7], "dir")]), f"{name}: reads the requested subvolumes of the requested directory, once")
            common(h, res, ids, cols[col], t, name)
            lm, m0 = J(res[4]), J(res[5])
            ng, nt = sfh.shape
            lg_ = jnp.where(mh < 1e7, 0.0, jnp.log10(mh))
            for g in range(ng):
                for i in range(nt):
                    h.eq(lm[g, i], runmax(lg_, g, i), f"{name}: halo mass history is the largest mass so far, unresolved masses count as none")
                h.eq(m0[g], lm[g, nt - 1], f"{name}: present-day peak mass is the last of the history")

    F = ("logm0", "logtc", "early_index", "late_index", "t_peak")

    def fits(h, mah, loss, npts, t0, nmin):
        def go(istart, iend):
            fs = FS()
            g = Group()
            for i, k in enumerate(F):
                g[k] = Dataset(A(h, mah[:, i]))
            g["loss"], g["n_points_per_fit"] = Dataset(A(h, loss)), Dataset(A(h, npts))
            fs.files["dir/fits.h5"] = g
            kw = dict(npts_fit_min=nmin, istart=istart, iend=iend)
            a = call(h, ls, ls.load_smdpl_diffmah_fits, ("fits.h5",), fs, dict(data_drn="dir", t0=t0, **kw))
            b = call(h, ls, ls.load_precomputed_diffmah_fits, ("dir/fits.h5", t0), fs, kw)
            return a, b

        n = mah.shape[0]
        for istart, iend in ((0, None), (1, n)):
            for p, m0, lo, npp in go(istart, iend):
                rows = range(n)[istart:iend]
                h.true(jnp.asarray(J(m0).shape == (len(rows),) and tuple(p._fields) == tuple(dk.DEFAULT_MAH_PARAMS._fields)), "one entry per halo of the block, in named fields")
                for r, g in enumerate(rows):
                    no = (loss[g] < 0) | (npts[g] < nmin)
                    for i, k in enumerate(F):
                        h.eq(J(getattr(p, k))[r], jnp.where(no, -1.0, mah[g, i]), f"{k}: the stored fit, or -1 for a halo without a usable fit")
                    h.eq(J(lo)[r], loss[g], "loss as stored")
                    h.eq(J(npp)[r], npts[g], "number of fitted points as stored")
                    pp = dk.DEFAULT_MAH_PARAMS._make([jnp.where(no, d, mah[g, i]) for i, d in enumerate(dk.DEFAULT_MAH_PARAMS)])
                    ref = dk.mah_singlehalo(pp, jnp.zeros(1) + t0, jnp.log10(t0))[1][0]
                    h.close(J(m0)[r], ref, "present-day mass of the fit (of the default halo without a usable fit)", 1e-7)

    def galcus(h, t, bi, di, bt, dt_, cen):
        fs = FS()
        for k, x in (("tarr_bulge", t), ("delta_mstar_in_situ_bulge", bi), ("delta_mstar_in_situ_disk", di), ("delta_mstar_tot_bulge", bt), ("delta_mstar_tot_disk", dt_)):
            fs.files[f"d/{k}.npy"] = A(h, x)
        g = Group()
        g["Outputs/Output1/nodeData/nodeIsIsolated"] = Dataset(A(h, cen))
        fs.files["d/" + lg.BN_GALCUS] = g
        r = call(h, lg, lg.load_galacticus_sfh_target_data, ("d",), fs)
        h.true(jnp.asarray(set(r) == {"tarr", "sfh_in_situ", "sfh_tot", "is_cen"}), "columns of the target data")
        h.eq(J(r["tarr"]), t, "times as stored")
        h.eq(J(r["is_cen"]), cen, "central flags as stored")
        ng, nt = bi.shape
        for g_ in range(ng):
            for i in range(nt):
                step = t[i] - (t[i - 1] if i else 0.0)
                h.eq(J(r["sfh_in_situ"])[g_, i] * step * 1e9, bi[g_, i] + di[g_, i], "in-situ rate times the time step is the bulge plus disk mass formed in it", 1e-6)
                h.eq(J(r["sfh_tot"])[g_, i] * step * 1e9, bt[g_, i] + dt_[g_, i], "total rate times the time step is the bulge plus disk mass formed in it", 1e-6)

    def galall(h, a, b, c, t, bi, di, bt, dt_, cen):
        fs = FS()
        for k, x in (("tarr_bulge", t), ("delta_mstar_in_situ_bulge", bi), ("delta_mstar_in_situ_disk", di), ("delta_mstar_tot_bulge", bt), ("delta_mstar_tot_disk", dt_)):
            fs.files[f"d/{k}.npy"] = A(h, x)
        g = Group()
        g["Outputs/Output1/nodeData/nodeIsIsolated"] = Dataset(A(h, cen))
        fs.files["d/" + lg.BN_GALCUS] = g
        for fn, x in (("mah/" + lg.BN_DIFFMAH, a), ("star/" + lg.BN_DIFFSTAR_IN_SITU, b), ("star/" + lg.BN_DIFFSTAR_IN_PLUS_EX_SITU, c)):
            gg = Group()
            gg["x"] = Dataset(A(h, x))
            fs.files[fn] = gg
        r = call(h, lg, lg.load_galacticus_diffstar_data, ("d",), fs, dict(diffstar_drn="star", diffmah_drn="mah"))
        h.eq(J(r.diffmah_fit_data["x"]), a, "halo fits come from the halo fit file")
        h.eq(J(r.diffstar_in_situ_fit_data["x"]), b, "in-situ fits come from the in-situ file")
        h.eq(J(r.diffstar_in_plus_ex_situ_fit_data["x"]), c, "total fits come from the total file")
        h.eq(J(r.galcus_sfh_data["sfh_tot"]) * 1.0, J(call(h, lg, lg.load_galacticus_sfh_target_data, ("d",), fs)["sfh_tot"]), "target histories")

    def many(h, t, s0, c, i0, l0, *, NW):
        """large catalogues: rows are known combinations of symbolic values"""
        k = np.arange(NW)
        sfh = (s0 * (1.0 + k % 7) + c * k)[:, None] * jnp.array([1.0, 2.0])
        ids = i0 + k
        lgm = l0 + (k[:, None] % 11) * 0.1 + np.array([0.3, 0.1]) * (k[:, None] % 3)
        fs = FS()
        fs.files["dir/" + UM[0][1].format("cens")] = fs.files["dir/" + UM[2][1].format("cens")] = Cols(halo_id=A(h, ids), sfr_history_main_prog=A(h, sfh))
        fs.files["dir/" + UM[1][1].format("cens")] = fs.files["dir/" + UM[3][1].format("cens")] = Cols(halo_id=A(h, ids), sfr_history_main_prog=A(h, sfh))
        for fn in ("bpl_cosmic_time.npy", "mdpl2_cosmic_time.npy", "tng_cosmic_time.npy", "smdpl_cosmic_time.txt"):
            fs.files["dir/" + fn] = A(h, t)
        fs.files["dir/tng_diffmah.npy"] = Cols(mpeak=A(h, lgm[:, -1]), sfh=A(h, sfh), mpeakh=A(h, lgm))
        fs.files["dir/tng_small.npy"] = Cols(mpeak=A(h, lgm[:, -1]), sfh=A(h, sfh))
        mh = 1e9 + 1e7 * l0 * (1.0 + k[:, None] + np.array([5.0, 0.0]) * (k[:, None] % 3))
        cols = dict(halo_id=ids, mpeak_history_main_prog=mh, sfr_history_main_prog=sfh, sfr_history_all_prog=sfh)
        up = lambda x: jnp.stack([x[:, 0], jnp.maximum(x[:, 0], x[:, 1])], axis=1)
        mock = lambda subvols, root_dirname=None, galprops=(), **kk: Cols({c_: A(h, cols[c_]) for c_ in galprops})
        U = dict(HAS_UM_LOADER=True, load_mock_from_binaries=mock)
        lsm = jnp.log10(integral(t, sfh.T)).T
        for name, args, over, want_ids, lm in [(u[0], ("cens", "dir"), {}, ids, None) for u in UM] + [
                ("load_tng_data", ("dir",), {}, jnp.arange(NW) * 1.0, up(lgm) - np.log10(ls.H_TNG)), ("load_tng_small_data", ("cens", "dir"), {}, jnp.arange(NW) * 1.0, None),
                ("load_SMDPL_nomerging_data", ([3], "dir"), U, ids, up(jnp.log10(mh))), ("load_SMDPL_DR1_data", ([3], "dir"), U, ids, up(jnp.log10(mh)))]:
            res = call(h, ls, getattr(ls, name), args, fs, **over)
            h.eq(J(res[0]), want_ids, f"{name}: halo ids in catalogue order (large catalogue)", 0)
            h.eq(J(res[2]), sfh, f"{name}: star formation rates as stored (large catalogue)")
            h.eq(J(res[1]), lsm, f"{name}: log mass of a galaxy is the integral of its own history (large catalogue)", 1e-7)
            if lm is not None:
                h.eq(J(res[4]), lm, f"{name}: halo mass history is the largest mass so far (large catalogue)")
                h.eq(J(res[5]), lm[:, 1], f"{name}: present-day peak mass is the last of the history (large catalogue)")

    def many_fits(h, mah, loss, npts, t0, nmin, *, NW):
        k = np.arange(NW)
        m = mah + 1e-4 * (k % 53)[:, None]
        lo, npp = jnp.where(k % 5 == 1, -1.0, loss + 0.01 * k), npts + k % 3
        fs = FS()
        g = Group()
        for i, f in enumerate(F):
            g[f] = Dataset(A(h, m[:, i]))
        g["loss"], g["n_points_per_fit"] = Dataset(A(h, lo)), Dataset(A(h, npp))
        fs.files["dir/fits.h5"] = g
        a = NW // 3
        p, m0, l_, n_ = call(h, ls, ls.load_smdpl_diffmah_fits, ("fits.h5",), fs, dict(data_drn="dir", t0=t0, npts_fit_min=nmin, istart=a, iend=None))
        no = ((lo < 0) | (npp < nmin))[a:]
        for i, f in enumerate(F):
            h.eq(J(getattr(p, f)), jnp.where(no, -1.0, m[a:, i]), f"{f}: the stored fit, or -1 for a halo without a usable fit (large catalogue)")
        h.eq(J(l_), lo[a:], "loss as stored (large catalogue)")
        h.eq(J(n_), npp[a:], "number of fitted points as stored (large catalogue)")
        pp = dk.DEFAULT_MAH_PARAMS._make([jnp.where(no, d, m[a:, i]) for i, d in enumerate(dk.DEFAULT_MAH_PARAMS)])
        ref = jax.vmap(lambda *q_: dk.mah_singlehalo(dk.DEFAULT_MAH_PARAMS._make(q_), jnp.zeros(1) + t0, jnp.log10(t0))[1][0])(*pp)
        h.close(J(m0), ref, "present-day mass of the fit (large catalogue)", 1e-7)

    t = In(nt, 0.05, 14, increasing=True, gap=1e-3)
    S = In((ng, nt), 1e-3, 1e4)
    ids = In(ng, 1, 1e12, kind="int")
    D = In((ng, nt), 0, 1e11)
    MB = dict(t=t, bi=D, di=D, bt=D, dt_=D, cen=In(ng, 0, 1))
    b = f"{ng} galaxies, {nt} times, every stored value symbolic"
    P = "data_loaders.load_smah_data."
    G = "data_loaders.load_galacticus_sfh."
    nf = 2 if q else 3
    return [
        Harness("universemachine", {"t": t, "sfh": S, "other": S, "ids": ids}, um, [P + k for k, _, _ in UM] + ["utils.cumulative_mstar_formed_galpop"], b),
        Harness("tng", {"t": t, "sfh": S, "lgm": In((ng, nt), 0, 16)}, tng, [P + "load_tng_data", P + "load_tng_small_data"], b),
        Harness("smdpl", {"t": t, "sfh": S, "all_": S, "mh": In((ng, nt), 0, 1e15), "ids": ids}, smdpl, [P + "load_SMDPL_nomerging_data", P + "load_SMDPL_DR1_data"], b),
        Harness("fits", {"mah": In((nf, 5), np.broadcast_to(MAH_LO, (nf, 5)), np.broadcast_to(MAH_HI, (nf, 5))), "loss": In(nf, -1, 10), "npts": In(nf, 0, 100, kind="int"), "t0": In((), 5, 14), "nmin": In((), 1, 20, kind="int")},
                fits, [P + "load_smdpl_diffmah_fits", P + "load_precomputed_diffmah_fits", "data_loaders.utils.load_flat_hdf5"], f"{nf} halos, every fit value, loss, number of points and threshold symbolic"),
        *[Harness(f"{tag}_{a}_{c}", {k: In({(ng, nt): (a, c), (nt,): (c,), (ng,): (a,)}[v.shape], v.lo.flat[0], v.hi.flat[0], kind=v.kind, increasing=v.increasing, gap=v.gap) for k, v in d.items()}, f, [P + "load_*"], f"{a} galaxies, {c} times")
          for a, c in ((1, 1), (3, 3), (1, 2)) for tag, d, f in (("universemachine", {"t": t, "sfh": S, "other": S, "ids": ids}, um), ("tng", {"t": t, "sfh": S, "lgm": In((ng, nt), 0, 16)}, tng),
                                                                  ("smdpl", {"t": t, "sfh": S, "all_": S, "mh": In((ng, nt), 0, 1e15), "ids": ids}, smdpl), ("galacticus", MB, galcus))],
        *wides({"t": In(2, 0.05, 14, increasing=True, gap=1e-3), "s0": In((), 1e-3, 1e3), "c": In((), 0, 1), "i0": In((), 1, 1e12, kind="int"), "l0": In((), 8, 14)}, many, [P + k for k, _, _ in UM], "{NW} galaxies, two times, known combinations of symbolic values", 1100, 5000),
        *wides({"mah": In(5, MAH_LO, MAH_HI), "loss": In((), 0, 1), "npts": In((), 5, 30, kind="int"), "t0": In((), 5, 14), "nmin": In((), 1, 33, kind="int")}, many_fits, [P + "load_smdpl_diffmah_fits"], "{NW} halos at known offsets of one symbolic halo", 1100, 5000, tag="wide_fits"),
        Harness("galacticus", MB, galcus, [G + "load_galacticus_sfh_target_data"], b),
        Harness("galacticus_all", dict(MB, a=In(2, -9, 9), b=In(2, -9, 9), c=In(2, -9, 9)), galall, [G + "load_galacticus_diffstar_data"], b),
    ]


def run(out, tier, seed):
    for H in harnesses(tier):
        run_harness("C25", H, out, seed)
