"""A block of a catalogue is the same rows of the whole catalogue."""
import numpy as np
import z3

from vlib.fakeio import FS, Dataset, Group
from vlib.sizes import blocks, sizes
from vlib.pysym import NP, OA, dual, oa, patched, replay_with, run_harness, same, sym_float

LEVEL = "other"
ASSUMPTIONS = ["h5py is replaced by an in-memory stand-in with the same indexing rules"]
EXPLANATION = (
    "The real loaders ran on in-memory files whose tables are symbolic and whose block limits are symbolic integers; every feasible limit was forked by z3 and the "
    "equality of block and slice was decided by z3 for all table values. Candidate counterexamples were replayed on the real code with numbers."
)
T = z3.BoolVal


def arr(vals, x):
    return x if vals.symbolic else np.asarray(x, dtype=float)


def limits(v, n, allow_none=True):
    """0 <= istart <= iend <= n, or no upper limit"""
    lo = v.int("istart", 0, n)
    if allow_none and v.bool("whole"):
        return lo, None
    hi = v.int("iend", 0, n)
    if v.symbolic:
        v.assume(lo.e <= hi.e)
    return lo, hi


def names(v, fs, **more):
    d = dict(h5py=fs.h5())
    if v.symbolic:
        d.update(np=NP(load=fs.load, save=fs.save, **more), float=sym_float)
    return d


def rows(x, a, b):
    return x[int(a):] if b is None else x[int(a):int(b)]


def hs(tier):
    from diffstar.data_loaders import extract_galacticus_sfh_data as ex
    from diffstar.data_loaders import load_galacticus_sfh as lg
    from diffstar.data_loaders import utils as du

    q = tier == "quick"
    n = 4 if q else 7

    def flat_h5(v, n=n):
        fs = FS()
        g = Group()
        cols = {"a": v.reals("a", n), "b": v.reals("b", (n, 2)), "c": v.reals("c", n)}
        for k, x in cols.items():
            g[k] = Dataset(x)
        fs.files["f.h5"] = g
        lo, hi = limits(v, n)
        sel = v.choice("keys", [None, ("b",), ("c", "a"), ["a", "b", "c"]])
        with patched(du, **names(v, fs)):
            d = du.load_flat_hdf5("f.h5", istart=lo, iend=hi, keys=sel)
            full = du.load_flat_hdf5("f.h5")
        want = set(cols) if sel is None else set(sel)
        out = [("exactly the requested columns", T(set(d) == want and set(full) == set(cols)))]
        for k in want:
            out.append(("a block of a column is its rows istart..iend", same(d[k], rows(cols[k], lo, hi)) if k in d else T(False)))
        for k in cols:
            out.append(("without limits the whole column", same(full[k], cols[k])))
        return out

    def tables(v, nt, nmet, what, n=n):
        ds = np.empty(n, dtype=object)
        filled = []
        for i in range(n):
            e = v.bool(f"{what}_empty{i}")
            filled.append(not e)
            x = np.empty(0 if e else 2 * nmet, dtype=object)
            if not e:
                for j in range(2 * nmet):
                    x[j] = v.reals(f"{what}{i}_{j}", nt)
            ds[i] = x
        return ds, filled

    def sfh(v, nt, nmet, n=n):
        fs = FS()
        ds, filled = tables(v, nt, nmet, "s", n)
        if not any(filled):
            return []
        t = v.reals("t", nt)
        g = Group()
        g["Outputs/Output1/nodeData/disk"] = Dataset(ds, {"time": t})
        fs.files["g.h5"] = g
        lo, hi = limits(v, n)
        with patched(ex, **names(v, fs)):
            tot, ins, tt = ex.extract_galacticus_sfh_tables("g.h5", "disk", istart=lo, iend=hi)
        ids = list(range(n))[int(lo):] if hi is None else list(range(n))[int(lo):int(hi)]
        out = [("one row per galaxy of the block, one column per time", T(np.shape(tot) == (len(ids), nt) and np.shape(ins) == (len(ids), nt))), ("time table", same(tt, t))]
        for r, i in enumerate(ids):
            for c in range(nt):
                # the first half of the metallicity bins is the total, the second half in situ
                a = sum((ds[i][j][c] for j in range(nmet)), 0.0) if filled[i] else 0.0
                b = sum((ds[i][j][c] for j in range(nmet, 2 * nmet)), 0.0) if filled[i] else 0.0
                out.append(("row of a galaxy: its mass summed over metallicities, zero without a history (total)", same(tot[r, c], a) if np.shape(tot) == (len(ids), nt) else T(False)))
                out.append(("row of a galaxy: its mass summed over metallicities, zero without a history (in situ)", same(ins[r, c], b) if np.shape(ins) == (len(ids), nt) else T(False)))
        return out

    def mah(v, n=n):
        fs = FS()
        g = Group()
        cols = {"haloAccretionHistoryMass": v.reals("m", (n, 2)), "haloAccretionHistoryTime": v.reals("t", (n, 2)), "nodeIsIsolated": v.reals("i", n), "basicTimeLastIsolated": v.reals("l", n)}
        # in the file the histories are one variable-length record per galaxy
        for k, x in cols.items():
            if x.ndim == 2:
                y = np.empty(n, dtype=object)
                for i in range(n):
                    y[i] = x[i]
            else:
                y = x
            g["Outputs/Output1/nodeData/" + k] = Dataset(y)
        fs.files["g.h5"] = g
        lo, hi = limits(v, n)
        with patched(ex, **names(v, fs)):
            res = ex.extract_galacticus_mah_tables("g.h5", istart=lo, iend=hi)
            tot = ex.get_nhalos_tot("g.h5")
        out = [("number of halos", T(int(tot) == n)), ("four tables", T(len(res) == 4))]
        for r, k in zip(res, cols):
            w = rows(cols[k], lo, hi)
            out.append(("a block of a table is its rows", z3.And([T(len(r) == len(w))] + [same(a, b) for a, b in zip(r, w)])))
        return out

    def block(v, n=n):
        fs = FS()
        drn = "d"
        nt = 2
        t = v.reals("t", nt, 0.1, 14.0)
        if v.symbolic:
            v.assume(z3.And(t[0].v + z3.Q(1, 10) <= t[1].v))
        elif not t[0] < t[1]:
            return []
        # write_galacticus_sfh_data_block stores what the target loader returns
        target = {"tarr": t, "sfh_in_situ": v.reals("in", (n, nt)), "sfh_tot": v.reals("tot", (n, nt)), "is_cen": v.reals("cen", n)}
        lo, hi = limits(v, n, allow_none=False)
        with patched(lg, load_galacticus_sfh_target_data=lambda d: dict(target), **names(v, fs)), patched(du, **names(v, fs)):
            lg.write_galacticus_sfh_data_block(drn)
            d = lg.load_galacticus_sfh_data_block(drn + "/" + lg.BNAME_SFH_DATA, lo, hi)
        out = [("the block has the catalogue's columns", T(set(d) == set(target))), ("the time table is never cut", same(d["tarr"], t) if "tarr" in d else T(False))]
        for k in ("sfh_in_situ", "sfh_tot", "is_cen"):
            out.append((f"rows of the block: {k}", same(d[k], rows(target[k], lo, hi)) if k in d else T(False)))
        return out

    def history(v):
        """several catalogues, loads of other blocks in between, a changed result and a rewritten file: each load is as if it were the only one"""
        m = 3
        fs = FS()
        cols = {}

        def put(fn, tag):
            g = Group()
            cols[fn] = {k: v.reals(f"{tag}{k}", m) for k in "ab"}
            for k, x in cols[fn].items():
                g[k] = Dataset(x)
            fs.files[fn] = g

        put("x/f.h5", "x")
        put("y/f.h5", "y")
        lo1, hi1, lo2 = v.int("lo1", 0, m), v.int("hi1", 0, m), v.int("lo2", 0, m)
        if v.symbolic:
            v.assume(lo1.e <= hi1.e)
        lo1, hi1, lo2 = int(lo1), int(hi1), int(lo2)
        out = []

        def load(fn, lab, **k):
            d = du.load_flat_hdf5(fn, **k)
            want = k.get("keys") or ("a", "b")
            for c in want:
                w = cols[fn][c][k.get("istart", 0):k.get("iend")]
                out.append((lab, same(d[c], w) if c in d else T(False)))
            out.append((lab + " (columns)", T(set(d) == set(want))))
            return d

        with patched(du, **names(v, fs)):
            d = load("x/f.h5", "first load", istart=lo1, iend=hi1)
            d["a"][:] = d["a"] * 0.0 + 7.5  # the caller's business
            d.pop("b")
            load("y/f.h5", "load of another catalogue of the same file name", istart=lo1, iend=hi1)
            load("x/f.h5", "load of another block", istart=lo2)
            load("x/f.h5", "load of another column", istart=lo1, iend=hi1, keys=["b"])
            load("x/f.h5", "load again after the caller changed its copy", istart=lo1, iend=hi1)
            put("x/f.h5", "z")
            load("x/f.h5", "load again after the file was rewritten", istart=lo1, iend=hi1)
        return out

    def rewrite(v):
        """the reduction written twice from changed data, and to two directories"""
        m, nt = 2, 2
        fs = FS()
        data = {}

        def target(tag):
            return {"tarr": v.reals(tag + "t", nt, 0.1, 14.0), "sfh_in_situ": v.reals(tag + "i", (m, nt)), "sfh_tot": v.reals(tag + "s", (m, nt)), "is_cen": v.reals(tag + "c", m)}

        data["d"], data["e"] = target("d"), target("e")
        out = []
        lo = int(v.int("istart", 0, m))
        with patched(lg, load_galacticus_sfh_target_data=lambda d: dict(data[d]), **names(v, fs)), patched(du, **names(v, fs)):
            for step, which in enumerate(("d", "e", "d", "d")):
                if step == 3:
                    data["d"] = target("z")
                lg.write_galacticus_sfh_data_block(which)
                for drn in ("d", "e") if step else ("d",):
                    r = lg.load_galacticus_sfh_data_block(drn + "/" + lg.BNAME_SFH_DATA, lo, m)
                    for k in ("tarr", "sfh_in_situ", "sfh_tot", "is_cen"):
                        out.append((f"every reduction holds the data last written to its directory: {k}", same(r[k], data[drn][k] if k == "tarr" else data[drn][k][lo:])))
        return out

    def components(v):
        """disk and bulge tables of one file, and blocks in between"""
        fs = FS()
        m, nt = 2, 2
        g = Group()
        val = {}
        for c in ("disk", "bulge"):
            ds = np.empty(m, dtype=object)
            for i in range(m):
                x = np.empty(2, dtype=object)
                for j in range(2):
                    x[j] = v.reals(f"{c}{i}_{j}", nt)
                ds[i] = x
            val[c] = (ds, v.reals(c + "t", nt))
            g["Outputs/Output1/nodeData/" + c] = Dataset(ds, {"time": val[c][1]})
        fs.files["g.h5"] = g
        out = []
        lo = int(v.int("istart", 0, m - 1))
        with patched(ex, **names(v, fs)):
            for c, a in (("disk", 0), ("bulge", 0), ("disk", lo), ("bulge", lo), ("disk", 0)):
                tot, ins, tt = ex.extract_galacticus_sfh_tables("g.h5", c, istart=a)
                out.append(("time table of the component asked for", same(tt, val[c][1])))
                for i in range(a, m):
                    ok = np.shape(tot) == (m - a, nt) and np.shape(ins) == (m - a, nt)
                    out.append(("rows of the component and block asked for, whatever was read before", z3.And(same(tot[i - a], val[c][0][i][0]), same(ins[i - a], val[c][0][i][1])) if ok else T(False)))
                tot[...] = tot * 0.0  # the caller's business
        return out

    made = {}  # terms of the large tables, shared by the paths

    def wide(v, N):
        """a large catalogue whose rows are known combinations of symbolic values, and a block of it"""
        fs = FS()
        k = np.arange(N)
        x, y = v.real("x", -1e6, 1e6), v.real("y", 1, 1e6)

        def col(c):
            if not v.symbolic:
                return np.array([x + (c + i % 97) * y + i for i in k])
            if (N, c) not in made:
                step = [x + float(c + j) * y for j in range(97)]
                made[N, c] = [step[i % 97] + float(i) for i in k]
            return oa(made[N, c])

        def tab(c):
            return (oa if v.symbolic else np.array)([col(c), col(c + 1)]).T

        lo, hi = v.choice("block", [(0, None), (0, N), (1, N - 1), (N // 2, None), (0, N // 2 + 1), (N // 3, N // 3), (N - 1, N), (N // 3, N - N // 4), *blocks(N)])
        cols = {"a": col(1), "b": tab(2), "is_cen": col(3)}
        g = Group()
        for c, z in cols.items():
            g[c] = Dataset(z)
        fs.files["f.h5"] = g
        ds, inner = np.empty(N, dtype=object), (cols["a"], col(2))
        for i in range(N):
            ds[i] = np.empty(0 if i % 5 == 2 else 2, dtype=object)
            if i % 5 != 2:
                ds[i][0], ds[i][1] = [(oa if v.symbolic else np.array)([c[i]]) for c in inner]
        t = v.reals("t", 1, 0.1, 14.0)
        G = Group()
        G["Outputs/Output1/nodeData/disk"] = Dataset(ds, {"time": t})
        fs.files["g.h5"] = G
        target = {"tarr": v.reals("tt", 2, 0.1, 14.0), "sfh_in_situ": tab(5), "sfh_tot": tab(7), "is_cen": col(3)}
        with patched(du, **names(v, fs)), patched(ex, **names(v, fs)), patched(lg, load_galacticus_sfh_target_data=lambda d: dict(target), **names(v, fs)):
            d = du.load_flat_hdf5("f.h5", istart=lo, iend=hi)
            tot, ins, _ = ex.extract_galacticus_sfh_tables("g.h5", "disk", istart=lo, iend=hi)
            lg.write_galacticus_sfh_data_block("d")
            e = lg.load_galacticus_sfh_data_block("d/" + lg.BNAME_SFH_DATA, lo, N if hi is None else hi)
        out = [("large catalogue: columns", T(set(d) == set(cols) and set(e) == set(target)))]
        for c in cols:
            out.append(("large catalogue: a block of a column is its rows istart..iend", same(d[c], rows(cols[c], lo, hi)) if c in d else T(False)))
        for c in target:
            out.append((f"large catalogue: rows of the reduction: {c}", same(e[c], target[c] if c == "tarr" else rows(target[c], lo, hi)) if c in e else T(False)))
        ids = list(range(N))[lo:hi]
        ok = np.shape(tot) == (len(ids), 1) and np.shape(ins) == (len(ids), 1)
        out.append(("large catalogue: one row per galaxy of the block", T(ok)))
        if ok and ids:
            for tb, j in ((tot, 0), (ins, 1)):
                out.append(("large catalogue: row of a galaxy: its own mass, zero without a history", z3.And([same(tb[r, 0], ds[i][j][0] if len(ds[i]) else 0.0) for r, i in enumerate(ids)])))
        return out

    E = "data_loaders.extract_galacticus_sfh_data."
    L = "data_loaders.load_galacticus_sfh."
    b = f"{n} galaxies, every block limit, every table value"
    dl = 250 if q else 2000
    return [
        dual("flat_hdf5", flat_h5, ["data_loaders.utils.load_flat_hdf5"], b, dl),
        dual("sfh_2_1", lambda v: sfh(v, 2, 1), [E + "extract_galacticus_sfh_tables"], b + ", 2 times, 1 metallicity, any galaxies without history", dl),
        dual("sfh_1_2", lambda v: sfh(v, 1, 2), [E + "extract_galacticus_sfh_tables"], b + ", 1 time, 2 metallicities", dl),
        dual("mah", mah, [E + "extract_galacticus_mah_tables", E + "get_nhalos_tot"], b, dl),
        dual("history", history, ["data_loaders.utils.load_flat_hdf5"], "two catalogues of 3 rows, six loads of every block with a changed result and a rewritten file in between", dl),
        dual("rewrite", rewrite, [L + "write_galacticus_sfh_data_block", L + "load_galacticus_sfh_data_block"], "two directories, four writes, loads in between", dl),
        dual("components", components, [E + "extract_galacticus_sfh_tables"], "two components, five reads of any block", dl),
        *[dual("wide" if N == 1100 else f"wide_{N}", lambda v, N=N: wide(v, N), [E + "extract_galacticus_sfh_tables", L + "load_galacticus_sfh_data_block", "data_loaders.utils.load_flat_hdf5"], f"{N} galaxies, known combinations of two symbolic values, eight blocks", dl) for N in sizes(1100, 9000)],
        *[dual(f"{tag}_1", lambda v, f=f: f(v, n=1), [E + "*", "data_loaders.utils.load_flat_hdf5"], "1 galaxy", dl) for tag, f in (("flat_hdf5", flat_h5), ("mah", mah), ("block", block), ("sfh", lambda v, n: sfh(v, 1, 1, n)))],
        dual("flat_hdf5_2", lambda v: flat_h5(v, n=2), ["data_loaders.utils.load_flat_hdf5"], "2 galaxies", dl),
        dual("block", block, [L + "write_galacticus_sfh_data_block", L + "load_galacticus_sfh_data_block"], b, dl),
    ]


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C24", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    return replay_with(hs("thorough"), d) if d.get("tier") == "thorough" else replay_with(hs("quick"), d)
