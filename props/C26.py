"""Fit records survive writing, collating and loading."""
import io

import numpy as np
import z3

from vlib.fakeio import FS
from vlib.sizes import sizes
from vlib.pysym import NP, dual, genfromtxt, hassym, patched, replay_with, run_harness, same, sym_float, tosv

LEVEL = "other"
ASSUMPTIONS = ["h5py and text files are in-memory stand-ins; numbers written with a format come back within half a unit of its last digit"]
EXPLANATION = (
    "The real record, collation and loading functions ran on symbolic fit results; written numbers were carried through the text as symbolic values constrained only by "
    "the rounding of their format, and z3 decided that each loaded value is that of its galaxy and field for all fit results. Counterexamples were replayed with numbers and real numpy text parsing."
)
T = z3.BoolVal
RTOL = 1.1e-5


def near(a, b):
    """equal to the five decimals of the record (and the single precision it allows)"""
    if hassym(a) or hassym(b):
        a, b = tosv(a), tosv(b)
        q = z3.Q(11, 1000000)
        m = z3.If(b.v >= 0, b.v, -b.v) * q
        return z3.And(z3.Not(a.nan), a.v - b.v <= m, b.v - a.v <= m)
    return T(bool(abs(float(a) - float(b)) <= RTOL * abs(float(b)) + 1e-300))


def vec(v, x):
    return x if v.symbolic else np.asarray(x, dtype=float)


def files(v, fs):
    d = dict(h5py=fs.h5())
    if v.symbolic:
        d.update(np=NP(), float=sym_float)
    return d


def read(v, fs, fn):
    return genfromtxt(fs)(fn, dtype="str") if v.symbolic else np.genfromtxt(io.StringIO(fs.open(fn).read()), dtype="str")


def hs(tier):
    from diffstar import defaults as dd
    from diffstar.data_loaders import load_smah_data as ls
    from diffstar.data_loaders import utils as du
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    q = tier == "quick"
    MS, Q = dd.DEFAULT_MS_PARAMS._fields, dd.DEFAULT_Q_PARAMS._fields
    P = tuple(MS) + tuple(Q)
    COLS = ("halo_id",) + P + ("loss", "success")

    def records(v, ng, split):
        fs = FS()
        header, cols = dfh.get_header()
        out = [("the header names halo id, parameters in model order, loss and success", T(tuple(cols) == COLS and header.startswith("#") and header.endswith("\n") and tuple(header[1:].split()) == COLS))]
        want = []
        lines = []
        with patched(dfh, **files(v, fs)):
            for g in range(ng):
                hid = v.int(f"id{g}", 0, 10**12)
                if v.bool(f"fit{g}"):
                    p = [v.real(f"p{g}_{k}", -1e6, 1e6) for k in P]
                    loss = v.real(f"loss{g}", 0, 1e6)
                    ok = v.choice(f"ok{g}", [1, 0, -1])
                    pp = dd.DiffstarParams(*p)
                    lines.append(dfh.get_outline(hid, pp, loss, ok))
                    want.append((hid, p, loss, ok))
                else:
                    lines.append(dfh.get_outline_nofit(hid))
                    want.append((hid, [-99.0] * len(P), -1.0, -1))
        for ln in lines:
            out.append(("one line per galaxy with one field per header column", T(ln.endswith("\n") and ln.count("\n") == 1 and len(ln.split()) == len(COLS))))
        fs.files["r0.dat"] = header + "".join(lines[:split])
        tabs = [read(v, fs, "r0.dat").reshape((-1, len(COLS)))]
        if split < ng:
            fs.files["r1.dat"] = header + "".join(lines[split:])
            tabs.append(read(v, fs, "r1.dat").reshape((-1, len(COLS))))
        data = (NP() if v.symbolic else np).concatenate(tabs)
        with patched(dfh, **files(v, fs)):
            dfh.write_collated_data("d/fits.h5", data, cols)
        with patched(ls, **files(v, fs)), patched(du, **files(v, fs)):
            ms, qq = ls.load_fit_sfh("fits.h5", data_drn="d")
            d = du.load_flat_hdf5("d/fits.h5")
        out.append(("the file has the header's columns", T(set(d) == set(COLS) and all(np.shape(x) == (ng,) for x in d.values()))))
        out.append(("one row of main-sequence and of quenching parameters per galaxy", T(np.shape(ms) == (ng, len(MS)) and np.shape(qq) == (ng, len(Q)))))
        for g, (hid, p, loss, ok) in enumerate(want):
            out.append(("halo id of a row", z3.simplify(_id(d["halo_id"][g]) == _id(hid))))
            out.append(("success code of a row", z3.simplify(_id(d["success"][g]) == _id(ok))))
            out.append(("loss of a row", near(d["loss"][g], loss)))
            for k, x in zip(P, p):
                out.append((f"{k} in its own column", near(d[k][g], x)))
            for j, k in enumerate(MS):
                out.append((f"load_fit_sfh: {k} in model order", near(ms[g, j], p[j])))
            for j, k in enumerate(Q):
                out.append((f"load_fit_sfh: {k} in model order", near(qq[g, j], p[len(MS) + j])))
        return out

    def _id(x):
        from vlib.pysym import SI, SV

        if isinstance(x, SI):
            return z3.ToReal(x.e)
        return tosv(x).v if isinstance(x, SV) else z3.RealVal(int(x))

    def mismatch(v):
        fs = FS()
        n = v.int("ncols", 1, len(COLS) + 2)
        n = int(n)
        data = np.array([["1"] * n] * 2)
        with patched(dfh, h5py=fs.h5()):
            try:
                dfh.write_collated_data("d/f.h5", data, list(COLS))
                wrote = True
            except Exception:
                wrote = False
        return [("a table is accepted exactly when it has one column per name", T(wrote == (n == len(COLS))))]

    def wide(v, N):
        """a long run: every galaxy's numbers are known offsets of symbolic ones, some are not fitted"""
        fs = FS()
        header, cols = dfh.get_header()
        hid, p0, loss = v.int("id", 0, 10**9), v.real("p", -1e3, 1e3), v.real("loss", 0, 1e3)
        want, lines = [], []
        with patched(dfh, **files(v, fs)):
            for g in range(N):
                i = hid + g
                if g % 7 == 3:
                    lines.append(dfh.get_outline_nofit(i))
                    want.append((i, [-99.0] * len(P), -1.0, -1))
                else:
                    p = [p0 + float(g + 5000 * j) for j in range(len(P))]
                    lines.append(dfh.get_outline(i, dd.DiffstarParams(*p), loss + float(g), g % 2))
                    want.append((i, p, loss + float(g), g % 2))
        fs.files["r0.dat"] = header + "".join(lines)
        with patched(dfh, **files(v, fs)):
            dfh.write_collated_data("d/fits.h5", read(v, fs, "r0.dat").reshape((-1, len(COLS))), cols)
        with patched(ls, **files(v, fs)), patched(du, **files(v, fs)):
            ms, qq = ls.load_fit_sfh("fits.h5", data_drn="d")
            d = du.load_flat_hdf5("d/fits.h5")
        ok = all(np.shape(d.get(c)) == (N,) for c in COLS) and np.shape(ms) == (N, len(MS)) and np.shape(qq) == (N, len(Q))
        out = [("long run: one row per galaxy", T(ok))]
        for g in range(N if ok else 0):
            i, p, lo, sc = want[g]
            out.append(("long run: every value in the row of its galaxy and the column of its field", z3.simplify(z3.And(
                [_id(d["halo_id"][g]) == _id(i), _id(d["success"][g]) == _id(sc), near(d["loss"][g], lo)] + [near(d[k][g], x) for k, x in zip(P, p)]
                + [near(ms[g, j], p[j]) for j in range(len(MS))] + [near(qq[g, j], p[len(MS) + j]) for j in range(len(Q))]))))
        return out

    F = "fitting_helpers.diffstar_fitting_helpers."
    fn = [F + "get_header", F + "get_outline", F + "get_outline_nofit", F + "write_collated_data", "data_loaders.load_smah_data.load_fit_sfh", "data_loaders.utils.load_flat_hdf5"]
    ng = 3 if q else 4
    dl = 250 if q else 2000
    return [dual(f"records_{ng}_{s}", lambda v, s=s: records(v, ng, s), fn, f"{ng} galaxies, each fitted or not, in files of {s} and {ng - s} rows; every id below 1e12, parameter, loss and success code", dl) for s in range(1, ng + 1)] + [
        dual("records_1_1", lambda v: records(v, 1, 1), fn, "1 galaxy", dl),
        *[dual("wide" if N == 600 else f"wide_{N}", lambda v, N=N: wide(v, N), fn, f"{N} galaxies at known offsets of three symbolic values, one in seven not fitted", dl) for N in sizes(600, 1200)],
        dual("columns", mismatch, [F + "write_collated_data"], "tables of 1 to 13 columns", dl)]


def run(out, tier, seed):
    for H in hs(tier):
        run_harness("C26", H, out, seed)


def harnesses(tier):
    return []


def replay(d):
    return replay_with(hs(d.get("tier", "quick")), d)
