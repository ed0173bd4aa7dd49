"""Population-fit targets: every row of the loss data is one bin of the files, with halos of that bin."""
import importlib.util
import os
import sys
import types

import numpy as np
import z3

from vlib.fakeio import FS
from vlib.pysym import NP, OA, SV, dual, emap, hassym, holds, isnan1, oa, patched, replay_with, run_harness, same, tosv

LEVEL = "other"
ASSUMPTIONS = ["h5py files are in-memory stand-ins; numpy's random choice is a stand-in that repeats a draw whenever repeats are allowed, and draws of more than 1000 are cut to 130",
               "diffmah's mass assembly history is an injective stand-in of halo parameters, time table and present time"]
EXPLANATION = (
    "The real loss-data functions ran on target files with symbolic counts, ages, mean masses and halo parameters and with halos whose bin and type are open; z3 decided that each row "
    "belongs to its bin and carries that bin's normalised target for all of them. Counterexamples were replayed with numbers on real numpy."
)
T = z3.BoolVal
CAP = 130
LGT0, FB = 1.12, 0.171
NT, NM, NS, NQ = 2, 3, 20, 2
# halos per (time, mass) bin: centrals, satellites; 50 of a kind make a bin eligible
LAYOUT = {(0, 0): (49, 0), (0, 1): (53, 51), (0, 2): (49, 50), (1, 0): (50, 49), (1, 1): (2, 52), (1, 2): (51, 0)}
SWING = [(0, 0, True), (0, 0, False), (1, 0, False), (1, 1, True), (0, 3, True)]


def load():
    fn = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts", "diffstarpop_scripts", "fit_get_loss_helpers_mgash.py")
    spec = importlib.util.spec_from_file_location("_loss_helpers", fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Random:
    """numpy.random: any draw is legitimate, so a simple one is taken (with repeats where they are allowed)"""

    def __init__(self):
        self.k = 0

    def choice(self, a, size=None, replace=True, p=None, **kw):
        assert p is None
        a = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        n = int(size)
        n = CAP if n > 1000 else n
        self.k += 1
        if not replace:
            if int(size) > len(a):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            return a[::-1][:n]
        return a[(np.arange(n) % max(1, min(n - 1, len(a))) + self.k) % len(a)]

    def randint(self, *a, **k):
        self.k += 1
        return 12345 + self.k

    integers = randint

    def permutation(self, a):
        return (np.arange(a) if np.ndim(a) == 0 else np.asarray(a))[::-1]

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def seed(self, *a):
        pass


def _pos(x):
    return x if bool(tosv(x) >= 0.0) else 0.0


def arith(np_random):
    """symbolic numpy with the reductions and selections this code uses"""
    n = NP(random=np_random)
    n.clip = lambda x, lo=None, hi=None, **k: emap(lambda y: y if bool(tosv(y) >= lo) else float(lo), x) if hi is None and hassym(x) else np.clip(x, lo, hi)
    pick = lambda f: lambda a, b, **k: np.frompyfunc(f, 2, 1)(np.asarray(oa(a), dtype=object) if np.ndim(a) else a, np.asarray(oa(b), dtype=object) if np.ndim(b) else b).view(OA)
    n.maximum = pick(lambda a, b: a if bool(tosv(a) >= b) else b)
    n.minimum = pick(lambda a, b: a if bool(tosv(a) <= b) else b)
    n.where = lambda c, *ab: pick3(c, *ab) if ab else np.where(c)
    n.nan_to_num = lambda x, nan=0.0, **k: emap(lambda y: nan if bool(isnan1(y)) else y, x)

    def einsum(s, *a, **k):
        return np.einsum(s, *[np.asarray(oa(x), dtype=object) for x in a]).view(OA)

    n.einsum = lambda s, *a, **k: einsum(s, *a) if hassym(list(a)) else np.einsum(s, *a, **k)
    n.divide = n.true_divide = lambda a, b, **k: a / b
    n.multiply = lambda a, b, **k: a * b
    n.equal, n.not_equal = lambda a, b: a == b, lambda a, b: a != b
    n.dot = n.matmul = lambda a, b: np.dot(np.asarray(oa(a), dtype=object), np.asarray(oa(b), dtype=object)).view(OA)
    for i in ("int32", "int64", "float32", "float64"):
        setattr(n, i, getattr(np, i))
    return n


def pick3(c, a, b):
    if not hassym([c, a, b]):
        return np.where(c, a, b)
    c, a, b = np.broadcast_arrays(*[np.asarray(oa(x), dtype=object) if np.ndim(x) else np.asarray(x, dtype=object) for x in (c, a, b)])
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = a[i] if bool(c[i]) else b[i]
    return out.view(OA)


class Real:
    """numpy with the stand-in for random draws"""

    def __init__(self, r):
        self.random = r

    def __getattr__(self, n):
        return getattr(np, n)


class FA(OA):
    """symbolic array that reports the element type of the floats it stands for"""

    dtype = property(lambda s: np.dtype(float))


class JN:
    def __getattr__(self, n):
        import jax.numpy as jnp

        if n in ("asarray", "array"):
            return lambda x, *a, **k: oa(x) if hassym(x) else np.asarray(x, *a, **k)
        return getattr(jnp, n)


def close(a, b, tol=1e-6):
    if isinstance(a, SV) or isinstance(b, SV):
        a, b = tosv(a), tosv(b)
        t = z3.Q(1, round(1 / tol))
        return z3.And(z3.Not(a.nan), a.v - b.v <= t, b.v - a.v <= t)
    return T(bool(abs(float(a) - float(b)) <= tol))


def eq(a, b):
    """equal; concrete replays allow rounding"""
    return same(a, b, 1e-9)


def hs(tier):
    M = load()
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, DiffmahParams

    q = tier == "quick"
    FIELDS = DEFAULT_MAH_PARAMS._fields
    NP_ = len(FIELDS)
    COEF = [1.0, 0.37, 0.021, -0.53, 0.0113, 0.0047, 0.00191][:NP_]

    def lin(get):
        r = get(0) * COEF[0]
        for k in range(1, NP_):
            r = r + get(k) * COEF[k]
        return r

    def mah_halopop(p, tarr, lgt0, *a):
        d = p._asdict()
        base = lin(lambda k: d[FIELDS[k]])
        tarr = np.asarray(tarr, dtype=float)
        lg = base[:, None] + (0.01 * tarr + 0.001 * float(lgt0))[None, :]
        return lg * 0.5, lg

    def scene(v, kind, nswing, zero):
        """files and what they mean"""
        fs = FS()
        halos = []
        for b in sorted(LAYOUT):
            c, s = LAYOUT[b]
            halos += [(b[0], b[1], True)] * c + [(b[0], b[1], False)] * s
        for k in range(nswing):
            halos.append(v.choice(f"swing{k}", SWING))
        # any order in the file
        n = len(halos)
        order = [(37 * k + 11) % n for k in range(n)] if np.gcd(37, n) == 1 else [(41 * k + 11) % n for k in range(n)] if np.gcd(41, n) == 1 else list(range(n))
        halos = [halos[k] for k in order]
        tid = np.array([h[0] for h in halos])
        mid = np.array([h[1] for h in halos])
        up = np.array([-1 if h[2] else (0 if k % 5 == 0 else 10**11 + k) for k, h in enumerate(halos)])
        par = np.array([[11.0 + 0.001 * k] + [0.1 * j + 0.00001 * k for j in range(1, NP_)] for k in range(n)]).T
        sym = [k for k in range(n) if (tid[k], mid[k]) in ((0, 1), (1, 0), (0, 2), (1, 1))][::40]
        if v.symbolic:
            par = par.astype(object).view(OA)
        for k in sym:
            for j in range(1, NP_):
                par[j, k] = v.real(f"p{j}_{k}", -5, 5)
        C = (lambda x: SV(tosv(float(x)).v)) if v.symbolic else np.float64
        def table(shape, f, symbols):
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = symbols[i] if i in symbols else C(f(*i))
            return a.view(OA) if v.symbolic else a.astype(float)
        age = v.reals("age", (NT,), 0.1, 13.8)
        f = {}
        f["counts_cen"] = table((NT, NM), lambda z, m: 3 + 2 * z + 5 * m, {(0, 1): v.real("nc", 0, 100)})
        f["counts_sat"] = table((NT, NM), lambda z, m: 7 + 3 * z + m, {(0, 1): v.real("ns", 0, 100)})
        f["counts"] = table((NT, NM), lambda z, m: 30 + z + 7 * m, {})
        f["hist"] = table((NT, NM), lambda z, m: 300 + z + 11 * m, {})
        f["smhm"] = table((NT, NM), lambda z, m: 0, {(z, m): v.real(f"smhm{z}{m}", 5, 12) for z in range(NT) for m in range(NM)})
        f["smhm_diff"] = table((NT, NM), lambda z, m: 10 + z + m, {})
        sm = fs.files.setdefault(fs.key("in/smdpl_smhm.h5"), fs.h5().Group())
        for k, x in dict(f, redshift_targets=np.array([1.0, 0.5]), logmh_bins=np.array([11.0, 11.5, 12.5, 14.0]), age_targets=age).items():
            sm[k] = x
        sa = fs.files.setdefault(fs.key("in/smdpl_smhm_samples_haloes.h5"), fs.h5().Group())
        for k, x in dict(logmh_id=mid, logmh_val=mid + 11.1, mah_params_samp=par, ms_params_samp=np.zeros((5, n)), q_params_samp=np.zeros((4, n)), upid_samp=up, tobs_id=tid,
                         tobs_val=tid * 1.0, redshift_val=tid * 1.0).items():
            sa[k] = x
        w = {}
        cnt = lambda s: (lambda z, m, a, b: 0 if zero and ((z, m) == (0, 2) or a == 10) else 1 + ((3 * z + 5 * m + 7 * a + 11 * b + s) % 13))
        lo = -5 if zero else 0
        w["mstar_ssfr_wcounts_cent"] = table((NT, NM, NS, NQ), cnt(1), {(0, 1, 8, 0): v.real("c0", lo, 50), (1, 0, 13, 1): v.real("c1", lo, 50)})
        w["mstar_ssfr_wcounts_sat"] = table((NT, NM, NS, NQ), cnt(4), {(0, 1, 8, 1): v.real("s0", lo, 50), (1, 1, 16, 0): v.real("s1", lo, 50)})
        w["mstar_wcounts"] = table((NT, NM, NS), lambda z, m, a: 1 + (3 * z + 5 * m + 7 * a) % 11, {(0, 1, 3): v.real("m0", 0, 50), (1, 2, 19): v.real("m1", 0, 50)})
        w["mstar_counts"] = table((NT, NM, NS), lambda z, m, a: 2 + (z + m + a) % 5, {})
        mb, sb = 7.0 + 0.25 * np.arange(NS + 1), np.array([-13.0, -11.2, -8.0])
        pd = fs.files.setdefault(fs.key("in/smdpl_mstar_ssfr.h5"), fs.h5().Group())
        for k, x in dict(w, logssfr_bins_pdf=sb, logmstar_bins_pdf=mb, redshift_targets=np.array([1.0, 0.5]), age_targets=age, logmh_bins=np.array([11.0, 11.5, 12.5, 14.0])).items():
            pd[k] = x
        return fs, types.SimpleNamespace(tid=tid, mid=mid, up=up, par=par, age=age, mb=mb, sb=sb, **f, **w)

    def call(v, fs, f, nh):
        r = Random()
        names = dict(h5py=fs.h5(), mah_halopop=mah_halopop, print=lambda *a, **k: None)
        names["np"] = arith(r) if v.symbolic else Real(r)
        if v.symbolic:
            names["jnp"] = JN()
        with patched(M, **names), np.errstate(all="ignore"):
            ld, plot = getattr(M, f)("in/", nh, LGT0, FB)
        plain = lambda t: tuple(np.asarray(x) if hasattr(x, "__array__") and not hassym(x) else x for x in t)
        return plain(ld), tuple(plot[:-1]) + (plain(plot[-1]) if isinstance(plot[-1], tuple) else plot[-1],)

    KIND = {"cen": lambda s: s.up == -1, "sat": lambda s: s.up != -1, "all": lambda s: s.up == s.up}

    def rows_of(s, kind, thr):
        return [(i, j) for i in range(NT) for j in range(NM) if int(((s.tid == i) & (s.mid == j) & KIND[kind](s)).sum()) >= thr]

    def halos_ok(out, tag, s, kind, rows, mah, mp0, up, n):
        ok = np.shape(mah) == (len(rows), NP_, n) and np.shape(mp0) == (len(rows), n) and (up is None or np.shape(up) == (len(rows), n))
        out.append((tag + "one row per eligible (time, mass) bin, with the requested number of halos", T(bool(ok))))
        if not ok:
            return
        member, own, mass, upid, rep = [], [], [], [], []
        for r, (i, j) in enumerate(rows):
            ids = []
            for c in range(n):
                k = int(round((float(mah[r][0][c]) - 11.0) / 0.001))
                k = k if 0 <= k < len(s.tid) else 0
                ids.append(k)
                member.append(bool(s.tid[k] == i and s.mid[k] == j and KIND[kind](s)[k]))
            for c, k in enumerate(ids):
                for p in range(NP_):
                    own.append(eq(mah[r][p][c], s.par[p, k]))
                mass.append(close(mp0[r][c], lin(lambda p: s.par[p, k]) + (0.01 * 10**LGT0 + 0.001 * LGT0)))
                if up is not None:
                    upid.append(int(up[r][c]) == int(s.up[k]))
            have = int(((s.tid == i) & (s.mid == j) & KIND[kind](s)).sum())
            if n != CAP and have >= n:
                rep.append(len(set(ids)) == n)
        out.append((tag + "every halo of a row is of the row's time, mass bin and kind", T(all(member))))
        out.append((tag + "halo parameters of a row are those of its halos", z3.simplify(z3.And(own))))
        out.append((tag + "present-day mass of each halo", z3.And(mass)))
        out.append((tag + "host id of each halo", T(all(upid))))
        out.append((tag + "no halo drawn twice where the bin has enough", T(all(rep))))

    def common(out, tag, s, rows, n, lgmu, host, gyr, keys, t):
        k = [tuple(int(x) for x in np.asarray(y)) for y in keys]
        out.append((tag + "one random key per row, all different", T(len(k) == len(rows) == len(set(k)))))
        out.append((tag + "each row is at the age of its time bin", z3.And([T(len(t) == len(rows))] + [eq(t[r], s.age[i]) for r, (i, j) in enumerate(rows)]) if len(t) == len(rows) else T(False)))
        for nm, x, c in (("infall mass ratio", lgmu, -1.0), ("host mass at infall", host, 13.0), ("time since infall", gyr, -99.0)):
            x = np.asarray(x, dtype=object)
            out.append((tag + "constant " + nm, T(x.shape == (len(rows), n) and all(float(y) == c for y in x.reshape(-1)))))

    def normal(tab, z, m):
        tot = tab[z, m].sum()
        return [x / tot for x in tab[z, m]]

    def smhm(v, nswing, nh):
        fs, s = scene(v, "all", nswing, False)
        ld, plot = call(v, fs, "get_loss_data_smhm", nh)
        out = []
        rows = rows_of(s, "all", nh)
        mah, mp0, lgmu, host, gyr, keys, t, tgt = ld
        halos_ok(out, "", s, "all", rows, mah, mp0, None, nh)
        common(out, "", s, rows, nh, lgmu, host, gyr, keys, t)
        out.append(("target is the bin's mean stellar mass", z3.And([eq(tgt[r], s.smhm[i, j]) for r, (i, j) in enumerate(rows)]) if len(tgt) == len(rows) else T(False)))
        return out

    def mstar(v, f, kind, nswing, nh):
        fs, s = scene(v, kind, nswing, False)
        ld, plot = call(v, fs, f, nh)
        out = []
        rows = rows_of(s, kind, 50)
        for tag, d, n in (("fit: ", ld, nh), ("plot: ", plot[-1], CAP)):
            mah, mp0, up, lgmu, host, gyr, keys, t, lgt0, fb, bins, tgt = d
            halos_ok(out, tag, s, kind, rows, mah, mp0, up, n)
            common(out, tag, s, rows, n, lgmu, host, gyr, keys, t)
            out.append((tag + "cosmology and mass bins are passed on", T(lgt0 == LGT0 and fb == FB and np.array_equal(np.asarray(bins, dtype=float), s.mb))))
            ok = np.shape(tgt) == (len(rows), NS)
            tab = s.mstar_wcounts if kind == "all" else {"cen": s.mstar_ssfr_wcounts_cent, "sat": s.mstar_ssfr_wcounts_sat}[kind].sum(axis=3)
            res = []
            for r, (i, j) in enumerate(rows if ok else []):
                want = normal(tab, i, j)
                res += [eq(tgt[r][a], want[a]) for a in range(NS)]
            out.append((tag + "target is the bin's distribution of stellar mass, adding up to one", z3.And(res) if ok else T(False)))
        return out

    def ssfr(v, f, kind, nswing, nh, zero):
        fs, s = scene(v, kind, nswing, zero)
        ld, plot = call(v, fs, f, nh)
        out = []
        rows = rows_of(s, kind, 50)
        cnt = {"cen": s.counts_cen, "sat": s.counts_sat}[kind]
        tab = {"cen": s.mstar_ssfr_wcounts_cent, "sat": s.mstar_ssfr_wcounts_sat}[kind]
        frac = [[cnt[z, m] / cnt[z].sum() for m in range(NM)] for z in range(NT)]
        pdf = np.zeros((NT, NS, NQ)).astype(object)
        for z in range(NT):
            for m in range(NM):
                c = emap(_pos, tab[z, m]) if v.symbolic else np.clip(tab[z, m], 0.0, None)
                tot = c.sum()
                if bool(tot > 0.0):
                    for a in range(NS):
                        for b in range(NQ):
                            pdf[z, a, b] = pdf[z, a, b] + (c[a, b] / tot) * frac[z][m]
        for tag, d, n in (("fit: ", ld, nh), ("plot: ", plot[-1], CAP)):
            mah, mp0, up, lgmu, host, gyr, keys, t, lgt0, fb, lo, hi, mb, sb, w, idx, ids, tgt = d
            halos_ok(out, tag, s, kind, rows, mah, mp0, up, n)
            common(out, tag, s, rows, n, lgmu, host, gyr, keys, t)
            out.append((tag + "cosmology and bins are passed on", T(lgt0 == LGT0 and fb == FB and np.array_equal(np.asarray(mb, dtype=float), s.mb) and np.array_equal(np.asarray(sb, dtype=float), s.sb))))
            lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
            cells = [(a, b) for a in range(NS) for b in range(NQ)]
            out.append((tag + "two-dimensional cells are the products of the bins, mass slowest", T(lo.shape == hi.shape == (len(cells), 2)
                        and np.array_equal(lo, np.array([[s.mb[a], s.sb[b]] for a, b in cells])) and np.array_equal(hi, np.array([[s.mb[a + 1], s.sb[b + 1]] for a, b in cells])))))
            ok = len(w) == len(idx) == NT and np.shape(w) == np.shape(idx)
            res = []
            for z in range(NT if ok else 0):
                for r, (i, j) in enumerate(rows):
                    tot = 0.0
                    for k in range(len(idx[z])):
                        if int(idx[z][k]) == r:
                            tot = tot + w[z][k]
                    res.append(eq(tot, frac[z][j] if i == z else 0.0))
            out.append((tag + "each row weighs its share of the halos of its time", z3.And(res) if ok else T(False)))
            ids = [int(x) for x in ids]
            ok = np.shape(tgt) == (NT, len(ids), NQ) and all(0 <= x < NS for x in ids) and len(set(ids)) == len(ids)
            res = []
            for z in range(NT if ok else 0):
                for k, a in enumerate(ids):
                    tot = pdf[z, a, 0] + pdf[z, a, 1]
                    pos = bool(tot > 0.0)
                    for b in range(NQ):
                        res.append(eq(tgt[z][k][b], pdf[z, a, b] / tot if pos else 0.0))
            out.append((tag + "target is the halo-weighted distribution of specific star formation rate in the mass bin", z3.And(res) if ok else T(False)))
        return out

    def saved(v):
        """the script that stores the unit-test data: what is saved is what is read back"""
        fs = FS()
        calls = []

        def arr(name, shape):
            a = v.reals(name, shape, -1e6, 1e6)
            return a.view(FA) if v.symbolic else a

        def item(tag, f, shape):
            if f in ("lgt0", "fb"):
                return {"lgt0": LGT0, "fb": FB}[f]
            if f.endswith("ragged") or f == "indx_pdf":
                return [arr(f"{tag}_{f}_{k}", (1 + (k * shape) % 3,)) for k in range(12)] if shape == 2 else [arr(f"{tag}_{f}_{k}", (2,)) for k in range(3)] if f == "indx_pdf" else arr(f"{tag}_{f}", (2, 3))
            if f == "ran_key_data":
                return np.arange(4).reshape(2, 2) + shape
            return arr(f"{tag}_{f}", (2, shape))

        common_ = ["mah_params_data", "logmp0_data", "upid_data", "lgmu_infall_data", "logmhost_infall_data", "gyr_since_infall_data", "ran_key_data", "t_obs_targets", "lgt0", "fb"]
        F = {"get_loss_data_pdfs_mstar": common_ + ["logmstar_bins_pdf", "mstar_counts_target"]}
        for kind, f, e in (("cen", "central", ""), ("sat", "satellite", "_sat")):
            F["get_loss_data_pdfs_ssfr_" + f] = common_ + ["ndbins_lo", "ndbins_hi", "logmstar_bins_pdf", "logssfr_bins_pdf", f"mhalo_pdf_{kind}_ragged", "indx_pdf", "target_mstar_ids", "target_data" + e]
        made = {}

        def loader(f):
            def g(indir, nhalos, *a, **k):
                calls.append((f, int(nhalos)))
                made[f, int(nhalos)] = tuple(item(f"{f[19:]}_{nhalos}", x, 2 if nhalos == 10 else 1) for x in F[f])
                return made[f, int(nhalos)], ("plot",)
            return g

        helper = types.ModuleType("fit_get_loss_helpers_mgash")
        helper.get_loss_data_smhm = None
        for f in F:
            setattr(helper, f, loader(f))
        keep = {k: sys.modules.get(k) for k in ("fit_get_loss_helpers_mgash", "h5py")}
        sys.modules.update({"fit_get_loss_helpers_mgash": helper, "h5py": fs.h5()})
        try:
            fn = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts", "diffstarpop_scripts", "save_loss_data.py")
            g = {"__name__": "save_loss_data", "print": lambda *a, **k: None, "__file__": fn}
            exec(compile(open(fn).read(), fn, "exec"), g)
            out = [("two files are written", T(len(fs.files) == 2))]
            for n in (10, 100):
                names = [k for k in fs.files if f"_{n}halos" in k]
                out.append(("one file per number of halos", T(len(names) == 1)))
                got = g["load_loss_data_h5"](names[0]) if len(names) == 1 else ()
                out.append(("three sets of loss data", T(len(got) == 3)))
                for d, f in zip(got, F):
                    want = made.get((f, n), ())
                    out.append(("every field, in the order the loss takes them", T(len(d) == len(want) == len(F[f]))))
                    for x, y, nm in zip(d, want, F[f]):
                        if isinstance(y, list):
                            out.append((nm + " read back as saved", z3.simplify(z3.And([T(len(x) == len(y))] + [eq(a, b) for a, b in zip(x, y)]))))
                        else:
                            out.append((nm + " read back as saved", z3.simplify(eq(x, y))))
        finally:
            for k, m in keep.items():
                if m is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = m
        bad = []
        for ld in ("short", "long"):
            try:
                a = made.get(("get_loss_data_pdfs_mstar", 10), (1,) * 12)
                g["save_loss_data_h5"]("x.h5", a[:-1] if ld == "short" else a + (1,), made["get_loss_data_pdfs_ssfr_central", 10], made["get_loss_data_pdfs_ssfr_satellite", 10])
                bad.append(ld)
            except ValueError:
                pass
        out.append(("data of the wrong length is refused", T(not bad)))
        return out

    P = "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash."
    b = f"{NT} times, {NM} mass bins, {NS} stellar mass and {NQ} sSFR bins; bins of 49 to 104 halos; {{}} halo(s) of open bin and type; ages, counts and halo parameters symbolic"
    ns = 1 if q else 2
    dl = 250 if q else 1500
    out = [dual(f"smhm_{nh}", lambda v, nh=nh: smhm(v, ns, nh), [P + "get_loss_data_smhm"], b.format(ns), dl) for nh in (3, 50, 55)]
    for f, kind in (("get_loss_data_pdfs_mstar", "all"), ("get_loss_data_pdfs_mstar_cen", "cen"), ("get_loss_data_pdfs_mstar_sat", "sat")):
        for nh in (51, 7, 200):
            out.append(dual(f[14:] + f"_{nh}", lambda v, f=f, kind=kind, nh=nh: mstar(v, f, kind, ns if nh == 51 else 0, nh), [P + f], b.format(ns if nh == 51 else 0) + f"; {nh} halos per row", dl))
    for f, kind in (("get_loss_data_pdfs_ssfr_central", "cen"), ("get_loss_data_pdfs_ssfr_satellite", "sat")):
        for nh, zero in ((51, False), (51, True), (200, False)):
            out.append(dual(f[14:] + ("_empty" if zero else f"_{nh}"), lambda v, f=f, kind=kind, nh=nh, zero=zero: ssfr(v, f, kind, ns if nh == 51 else 0, nh, zero), [P + f, P + "prepare_ragged"],
                            b.format(ns if nh == 51 else 0) + f"; {nh} halos per row" + (", empty bins, noise below zero" if zero else ""), dl))
    out.append(dual("saved", saved, ["scripts/diffstarpop_scripts/save_loss_data.save_loss_data_h5", "scripts/diffstarpop_scripts/save_loss_data.load_loss_data_h5"],
                    "three sets of loss data for 10 and 100 halos, lists of 3 and 12 arrays of one length or of different lengths, every value symbolic", dl))
    return out


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C30", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    return replay_with(hs(d.get("tier", "quick")), d)
