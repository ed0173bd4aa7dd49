"""Parallel fitting runs record every galaxy once, in order, with its own fit."""
import inspect
import io
import math
import os

import numpy as np
import z3

from props.C26 import near
from vlib.fakeio import FS, Dataset, Group
from vlib.pysym import NP, SI, SV, OA, dual, flat, genfromtxt, patched, replay_with, run_harness, same, sym_float, tosv
from vlib.ranks import World, run_script

LEVEL = "other"
ASSUMPTIONS = ["MPI ranks communicate only through barriers, reductions and files", "the fit of one galaxy is an uninterpreted function of its arguments", "files, h5py and the shell's rm are in-memory stand-ins"]
EXPLANATION = (
    "The real scripts ran with all their ranks for every number of ranks and galaxies within the bounds, with symbolic catalogues; z3 decided that each row of the collated file "
    "is its own galaxy's fit, an uninterpreted function of that galaxy's data and the command-line options. Barrier epochs decide the file accesses for every interleaving. "
    "Counterexamples were replayed with numbers."
)
T = z3.BoolVal
TT = [1.5, 13.5]
OPTS = dict(fstar_tdelay=1.75, mass_fit_min=8.25, ssfrh_floor=3e-13)
MPMIN = 11.25


def num(v, x):
    x = tosv(x) if v.symbolic else float(x)
    return x.v if v.symbolic else x


def fitter(v, real):
    """stand-in for the fit of one galaxy: an unknown function of all its arguments"""
    from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS

    sig = inspect.signature(real)
    calls = []

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        xs = [num(v, y) for n in sig.parameters for y in flat(b.arguments[n] if n != "mah_params" else list(b.arguments[n]))]
        calls.append(1)
        n = len(DEFAULT_DIFFSTAR_PARAMS)
        if v.symbolic:
            g = lambda i: SV(z3.Function(f"fit{i}_{len(xs)}", *[z3.RealSort()] * (len(xs) + 1))(*xs))
            ok = SI(z3.Function(f"ok_{len(xs)}", *[z3.RealSort()] * len(xs), z3.IntSort())(*xs))
        else:
            g = lambda i: math.fmod(sum(math.sin(1.7 * (i + 1) * (j + 1)) * 3.1 * x for j, x in enumerate(xs)), 97.0)
            ok = 1
        return DEFAULT_DIFFSTAR_PARAMS._make([g(i) for i in range(n)]), g(n), ok

    f.calls = calls
    return f


def catalogue(v, tag, n, levels=False, usable=False):
    from diffmah.defaults import DEFAULT_MAH_PARAMS

    ids = np.empty(n, dtype=object)
    for g in range(n):
        ids[g] = v.int(f"{tag}id{g}", 0, 10**12)
    mah = [v.reals(f"{tag}mah{i}_", n, -20, 20) for i in range(5)]
    c = dict(ids=ids.view(OA) if v.symbolic else ids.astype(int), mah=DEFAULT_MAH_PARAMS._make(mah), logmp0=v.reals(f"{tag}mp", n, 8, 16), loss=v.reals(f"{tag}ml", n, -1, 5), npts=v.reals(f"{tag}np", n, 0, 100))
    if usable:
        c["logmp0"] = np.full(n, 15.5)
        c["loss"] = np.full(n, 0.5)
    if not levels:
        c["sfh"] = v.reals(f"{tag}s", (n, 2), 0, 1e4)
        c["lgm"] = v.reals(f"{tag}m", (n, 2), 0, 13)
    else:
        # concrete rates, one distinct level per galaxy, so that the mass cut is decided by the level
        hi = [True if usable else v.bool(f"{tag}massive{g}") for g in range(n)]
        c["big"] = hi
        c["sfh"] = np.array([[(5.0 if h else 1e-6) * (1 + 0.1 * g), (9.0 if h else 2e-6) * (1 + 0.2 * g)] for g, h in enumerate(hi)]).reshape(n, 2)
    return c


def asv(x):
    """an integer value as a real"""
    return SV(z3.ToReal(x.e)) if isinstance(x, SI) else x if isinstance(x, SV) else float(x)


def script(name):
    return os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts", name)


def truth(v, c):
    if v.symbolic:
        return bool(c)
    return bool(c)


def launch(v, name, argv, n, fs, mods):
    """the script with n ranks; mods: [(module, {attribute: stand-in})]"""
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    w = World(fs, n)
    if v.symbolic:
        from types import SimpleNamespace

        def accumulate(x, **k):
            r = []
            for y in x:
                r.append(y if not r or bool(y > r[-1]) else r[-1])
            return np.array(r, dtype=object).view(OA)

        npx = NP(genfromtxt=genfromtxt(fs), loadtxt=genfromtxt(fs), maximum=SimpleNamespace(accumulate=accumulate))
    else:
        class Npx:
            def __getattr__(self, a):
                return getattr(np, a)

            def genfromtxt(self, fn, **k):
                return np.genfromtxt(io.StringIO(fs.open(fn).read()), **k)

        npx = Npx()
    fit = fitter(v, dfh.diffstar_fitter)

    # the module that writes the collated file shares the logged file layer
    class H5:
        def __getattr__(self, a):
            return getattr(box["h5"], a)

    box = {}
    import contextlib

    from vlib import ranks

    with contextlib.ExitStack() as st:
        over = dict(h5py=H5(), diffstar_fitter=fit)
        if v.symbolic:
            over.update(np=NP(), float=sym_float)
        st.enter_context(patched(dfh, **over))
        for m, names in mods:
            st.enter_context(patched(m, **names))
        log_h5 = fs.h5()
        File = log_h5.File

        class LFile(File):
            def __init__(self, fn, mode="r", *a, **k):
                w.access("r" if mode == "r" else "w", fn)
                super().__init__(fn, mode, *a, **k)

        log_h5.File = LFile
        box["h5"] = log_h5
        run_script(script(name), argv, w, {"numpy": npx})
    return w, fit


def judge(v, fs, w, fit, before, outfile, c, expect, t0, fb, colnames, tag=""):
    """obligations on the collated file of one catalogue"""
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    n = len(c["ids"])
    d = fs.files.get(fs.key(outfile))
    cols = tuple(dfh.get_header()[1])
    ok = d is not None and tuple(sorted(d)) == tuple(sorted(cols)) and all(np.shape(d[k][:]) == (n,) for k in cols)
    out = [("one row per galaxy of the catalogue in the collated file", T(bool(ok)))]
    if not ok:
        return out
    ref = fitter(v, dfh.diffstar_fitter)
    for g in range(n):
        lab = "row of a fitted galaxy: " if expect[g] else "row of a galaxy without a fit: "
        out.append((lab + "its own halo id", same(asv(d["halo_id"][g]), asv(c["ids"][g]))))
        if expect[g]:
            p, lo, s = ref(np.array(TT), c["sfh"][g], [x[g] for x in c["mah"]], lgt0=np.log10(t0), fb=fb, **OPTS)
        else:
            p, lo, s = [-99.0] * (len(cols) - 3), -1.0, -1
        for k, x in zip(cols[1:-2], p):
            out.append((lab + "parameters of the fit to its own history and halo with the command-line options", near(d[k][g], x)))
        out.append((lab + "loss", near(d["loss"][g], lo)))
        sc = d["success"][g]
        out.append((lab + "success code", same(asv(sc), asv(s))))
    return out


def common(v, fs, w, fit, nfit, before, outs):
    out = [("no barrier is left waiting", T(not w.deadlock)), ("every galaxy is fitted at most once", T(len(fit.calls) == nfit))]
    out.append(("file accesses of different ranks are ordered by barriers in every schedule", T(not w.races())))
    left = set(fs.files) - set(before) - {fs.key(o) for o in outs}
    out.append(("temporary files of the run are removed", T(not left)))
    out.append(("no other file is touched", T(all(f in fs.files for f in before))))
    return out


def hs(tier):
    import importlib

    dl = importlib.import_module("diffstar.data_loaders")
    ls = importlib.import_module("diffstar.data_loaders.load_smah_data")
    lg = importlib.import_module("diffstar.data_loaders.load_galacticus_sfh")
    q = tier == "quick"
    argv_opts = [x for k, val in OPTS.items() for x in (f"-{k}", repr(val))]

    def rows(c, a, b):
        return slice(a, b)

    def um(v, name, sim, nsub, rmax, nmax, usable=False, rmin=1, nmin=1):
        fs = FS()
        nr = int(v.int("nranks", rmin, rmax))
        cats = {}
        for s in range(nsub):
            n = int(v.int(f"n{s}", nmin, nmax))
            cats[s] = catalogue(v, f"v{s}", n, usable=usable)
        fs.files["out/keep.dat"] = "other data"
        before = list(fs.files)
        bad = []

        def sfh(subvols, drn):
            if list(subvols) not in [[s] for s in cats] or "/" not in str(drn):
                bad.append(subvols)
            c = cats[int(subvols[0])]
            return c["ids"].copy(), c["lgm"], c["sfh"], np.array(TT), None, None

        def fits(bn, data_drn=None, **k):
            # the number in the file name is the subvolume
            import re

            m = re.findall(r"\d+", os.path.splitext(str(bn))[0])
            s = int(m[0])
            if s not in cats or len(m) != 1:
                bad.append(bn)
            c = cats[s]
            return c["mah"]._make([x.copy() for x in c["mah"]]), c["logmp0"].copy(), c["loss"].copy(), c["npts"].copy()

        names = {k: sfh if k == dict(DR1="load_SMDPL_DR1_data", DR1_nomerging="load_SMDPL_nomerging_data")[sim] else None for k in ("load_SMDPL_DR1_data", "load_SMDPL_nomerging_data")}
        names["load_smdpl_diffmah_fits"] = fits
        w, fit = launch(v, name, ["out", sim, "-istart", "0", "-iend", str(nsub), "-logmp0_min", repr(MPMIN)] + argv_opts, nr, fs, [(ls, names)])
        outs = [f"out/diffstar_fits_subvol_{s}.hdf5" for s in cats]
        out = [("each subvolume is read with its own halo fits", T(not bad))]
        nfit = 0
        for s, c in cats.items():
            ex = [truth(v, c["loss"][g] > 0) and truth(v, c["logmp0"][g] > MPMIN) for g in range(len(c["ids"]))]
            nfit += sum(ex)
            out += judge(v, fs, w, fit, before, outs[s], c, ex, ls.T0_SMDPL, ls.FB_SMDPL, None)
        return out + common(v, fs, w, fit, nfit, before, outs)

    def galacticus(v, name, kind, rmax, nmax, usable, rmin=1, nmin=1):
        fs = FS()
        nr = int(v.int("nranks", rmin, rmax))
        n = int(v.int("n", max(nr, nmin), max(nmax, nr)))
        c = catalogue(v, "", n, levels=True, usable=usable)
        c["ids"] = np.arange(n)
        other = np.zeros((n, 2)) + 77.0
        col = {"in_situ": "sfh_in_situ", "in_plus_ex_situ": "sfh_tot"}[kind]
        tab = {"sfh_in_situ": other, "sfh_tot": other, "is_cen": np.ones(n), col: c["sfh"]}
        g = Group()
        for k, x in tab.items():
            g[k] = Dataset(x)
        g["tarr"] = Dataset(np.array(TT))
        fs.files["in/block.h5"] = g
        before = list(fs.files)
        bad = []

        def block(fn, a, b):
            if fs.key(fn) != "in/block.h5":
                bad.append(fn)
            return dict({k: x[a:b].copy() for k, x in tab.items()}, tarr=np.array(TT))

        def fits(fn, t0, npts_fit_min=None, istart=0, iend=None):
            if not np.isclose(t0, TT[-1]):
                bad.append(t0)
            return c["mah"]._make([x[istart:iend].copy() for x in c["mah"]]), c["logmp0"][istart:iend].copy(), c["loss"][istart:iend].copy(), c["npts"][istart:iend].copy()

        argv = [kind, "-indir", "in", "-inbn", "block.h5", "-outdir", "out", "-logmp0_min", repr(MPMIN)] + argv_opts
        w, fit = launch(v, name, argv, nr, fs, [(lg, dict(load_galacticus_sfh_data_block=block)), (dl, dict(load_precomputed_diffmah_fits=fits))])
        ex = [c["big"][i] and truth(v, c["loss"][i] > 0) and truth(v, c["logmp0"][i] > MPMIN) for i in range(n)]
        outs = [f"out/diffstar_fits_{kind}.hdf5"]
        return [("the catalogue block and its age are those of the run", T(not bad))] + judge(v, fs, w, fit, before, outs[0], c, ex, TT[-1], lg.FB, None) + common(v, fs, w, fit, sum(ex), before, outs)

    def tng(v, rmax, nmax, rmin=1, nmin=1):
        fs = FS()
        nr = int(v.int("nranks", rmin, rmax))
        n = int(v.int("n", max(nr, nmin), max(nmax, nr)))
        c = catalogue(v, "", n)
        before = list(fs.files)
        bad = []

        def load(drn):
            return c["ids"].copy(), c["lgm"], c["sfh"], np.array(TT), c["lgm"], c["logmp0"]

        def fits(fn, t0, npts_fit_min=None, istart=0, iend=None):
            if not np.isclose(t0, TT[-1]):
                bad.append(t0)
            return c["mah"]._make([x[istart:iend].copy() for x in c["mah"]]), c["logmp0"][istart:iend].copy(), c["loss"][istart:iend].copy(), c["npts"][istart:iend].copy()

        w, fit = launch(v, "history_fitting_script_TNG_mgash.py", ["out"] + argv_opts, nr, fs, [(ls, dict(load_tng_data=load)), (dl, dict(load_precomputed_diffmah_fits=fits))])
        outs = ["out/diffstar_tng_fits.hdf5"]
        return [("the cosmic age is that of the run", T(not bad))] + judge(v, fs, w, fit, before, outs[0], c, [True] * n, TT[-1], ls.FB_TNG, None) + common(v, fs, w, fit, n, before, outs)

    def diffmah(v, rmax, nmax, rmin=1, nmin=1):
        """halo fits: every halo once, with its own non-decreasing history carried to the latest time of the catalogue"""
        from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh

        ex = importlib.import_module("diffstar.data_loaders.extract_galacticus_sfh_data")
        fs = FS()
        nr = int(v.int("nranks", rmin, rmax))
        n = int(v.int("n", max(nr, nmin), max(nmax, nr)))
        ts, ms = [], []
        for g in range(n):
            ln = 2
            t = v.reals(f"t{g}_", ln, 0.125, 14)
            if v.symbolic:
                v.assume(z3.And([t[i].v + z3.Q(1, 8) <= t[i + 1].v for i in range(ln - 1)]))
            ts.append(t)
            ms.append(v.reals(f"m{g}_", ln, 1, 1e15))
        calls, lines, outs, bad = [], [], {}, []

        def fit(t, m, force_skip_fit=False, **k):
            calls.append((list(flat(t)), list(flat(m)), bool(force_skip_fit), dict(k)))
            return len(calls) - 1

        def tables(fn, a=0, b=None):
            return ms[a:b], ts[a:b], np.ones(n)[a:b], np.ones(n)[a:b]

        def write(fn, data, *a, **k):
            outs[fs.key(fn)] = np.asarray(data)

        col = [f"{i}" for i in range(3)]
        over = dict(diffmah_fitter=fit, get_outline=lambda i: f"{i} 7 9\n", write_collated_data=write)
        w, _ = launch(v, "galacticus_analysis/galacticus_diffmah_fitter_script.py", ["-indir", "in", "-outdir", "/out", "-outbn", "fits.h5", "-dt_fit_min", "0.75"], nr, fs,
                      [(cfh, over), (ex, dict(extract_galacticus_mah_tables=tables, get_nhalos_tot=lambda fn: n))])
        ok = len(outs) == 1 and "/out/fits.h5" in outs and outs["/out/fits.h5"].shape == (n, 3)
        out = [("one row per halo of the catalogue in the collated file", T(bool(ok)))]
        if ok:
            seen = [int(r[0]) for r in outs["/out/fits.h5"]]
            out.append(("every halo is fitted exactly once", T(len(calls) == n and sorted(seen) == list(range(n)))))
            if sorted(seen) == list(range(n)) and len(calls) == n:
                T0 = ts[0][-1]
                for t in ts[1:]:
                    T0 = t[-1] if bool(t[-1] > T0) else T0
                for g in range(n):
                    t, m, skip, k = calls[seen[g]]
                    et, em = list(ts[g]), []
                    for x in ms[g]:
                        em.append(x if not em or bool(x > em[-1]) else em[-1])
                    if bool(et[-1] < T0):
                        et.append(T0)
                        em.append(em[-1])
                    out.append(("a halo's history: its own, never decreasing, carried to the latest time of all halos", z3.And(same(np.array(t, dtype=object), np.array(et, dtype=object)), same(np.array(m, dtype=object), np.array(em, dtype=object)))))
                    out.append(("a halo living shorter than the limit is not fitted", T(skip == bool(ts[g][-1] - ts[g][0] < 0.75))))
        return out + [("no barrier is left waiting", T(not w.deadlock)), ("file accesses of different ranks are ordered by barriers in every schedule", T(not w.races())), ("temporary files of the run are removed", T(not fs.files))]

    lim = 250 if q else 2000
    R, N = (3, 3) if q else (4, 5)
    b = lambda r, n: f"1 to {r} ranks, 1 to {n} galaxies, each with or without a usable halo fit; every value of the catalogue"
    out = []
    for nm in ("diffstar_fitting_script_umachine.py", "diffstar_fitting_script_umachine_mgash.py"):
        sims = ("DR1", "DR1_nomerging")
        for sim in sims:
            out.append(dual(f"{nm[:-3]}_{sim}", lambda v, nm=nm, sim=sim: um(v, nm, sim, 1, R, 2 if q else 4), ["scripts/" + nm], b(R, 2 if q else 4), lim))
        out.append(dual(f"{nm[:-3]}_ranks", lambda v, nm=nm: um(v, nm, "DR1", 1, 4 if q else 6, 6 if q else 9, True), ["scripts/" + nm], b(4 if q else 6, 6 if q else 9) + ", all with usable fits", lim))
        out.append(dual(f"{nm[:-3]}_two_subvolumes", lambda v, nm=nm: um(v, nm, "DR1", 2, 2, 1 if q else 2), ["scripts/" + nm], b(2, 1 if q else 2) + ", two subvolumes", lim))
    for nm in ("galacticus_diffstar_fitter_script.py", "galacticus_diffstar_fitter_script_mgash.py"):
        for kind in ("in_situ", "in_plus_ex_situ"):
            go = lambda v, nm=nm, kind=kind, **k: galacticus(v, nm, kind, **k)
            r, n = (2, 2) if q else (3, 3)
            out.append(dual(f"{nm[:-3]}_{kind}", lambda v, go=go: go(v, rmax=r, nmax=n, usable=False), ["scripts/" + nm], b(r, n) + ", at least one galaxy per rank", lim))
            out.append(dual(f"{nm[:-3]}_{kind}_ranks", lambda v, go=go: go(v, rmax=3 if q else 5, nmax=5 if q else 8, usable=True), ["scripts/" + nm],
                            f"1 to {3 if q else 5} ranks, up to {5 if q else 8} galaxies, all with usable fits, at least one galaxy per rank", lim))
    out.append(dual("history_fitting_script_TNG_mgash", lambda v: tng(v, R, N + 1), ["scripts/history_fitting_script_TNG_mgash.py"], b(R, N + 1) + ", at least one galaxy per rank", lim))
    nm = "galacticus_analysis/galacticus_diffmah_fitter_script.py"
    out.append(dual("galacticus_diffmah_fitter_script", lambda v: diffmah(v, 2, 2 if q else 3), ["scripts/" + nm], b(2, 2 if q else 3) + ", 2 snapshots per halo", lim))
    # more ranks than ten: file names of ranks no longer sort in rank order
    MR, MN = (12, 14) if q else (101, 103)
    many = dict(rmin=MR, rmax=MR, nmin=MN, nmax=MN)
    bm = f"{MR} ranks, {MN} galaxies; every value of the catalogue"
    for nm in ("diffstar_fitting_script_umachine.py", "diffstar_fitting_script_umachine_mgash.py"):
        out.append(dual(f"{nm[:-3]}_many", lambda v, nm=nm: um(v, nm, "DR1", 1, usable=True, **many), ["scripts/" + nm], bm, lim))
    for nm in ("galacticus_diffstar_fitter_script.py", "galacticus_diffstar_fitter_script_mgash.py"):
        out.append(dual(f"{nm[:-3]}_many", lambda v, nm=nm: galacticus(v, nm, "in_situ", usable=True, **many), ["scripts/" + nm], bm, lim))
    out.append(dual("history_fitting_script_TNG_mgash_many", lambda v: tng(v, **many), ["scripts/history_fitting_script_TNG_mgash.py"], bm, lim))
    return out


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C27", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    return replay_with(hs(d.get("tier", "quick")), d)
