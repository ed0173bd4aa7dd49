"""Table and population sizes for the large-size harnesses.

The base size is always decided.  When the current sources contain an integer constant that the
tree these checks were written against does not have in that function (a chunk length, a threshold),
sizes around it are decided too: a constant only widens the bounds, it never decides anything."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "constants.json")


def fold(n):
    """value of an integer constant expression, or None"""
    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value == n.value and abs(n.value) < 1e9 and int(n.value) == n.value:
        return int(n.value)
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        try:
            op = type(n.op).__name__
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Pow": lambda: a**b if 0 <= b < 40 else None, "LShift": lambda: a << b if 0 <= b < 40 else None}[op]()
        except KeyError:
            return None
    return None


def constants(root=None):
    """{file::function: integer constants}"""
    root = root or os.environ.get("VERIF_REPO", "/repo")
    out = {}
    for top in ("diffstar", "scripts"):
        for d, _, fs in os.walk(os.path.join(root, top)):
            if "tests" in d.split(os.sep):
                continue
            for f in fs:
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                try:
                    tree = ast.parse(open(p).read())
                except (SyntaxError, OSError, ValueError):
                    continue

                def walk(n, q):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        q = n.name
                    v = fold(n) if isinstance(n, ast.expr) else None
                    if v is not None and 3 <= v <= 100000:
                        out.setdefault(f"{os.path.relpath(p, root)}::{q}", set()).add(v)
                    for c in ast.iter_child_nodes(n):
                        walk(c, q)

                walk(tree, "")
    return out


def new_constants():
    try:
        old = json.load(open(BASE))
    except (OSError, ValueError):
        return []
    new = set()
    for k, v in constants().items():
        new |= v - set(old.get(k, []))
    return sorted(new)


def sizes(base, cap, low=3, extra=2):
    """the base size, and a few more up to the cap suggested by new constants"""
    out = []
    for c in new_constants():
        for n in (c + 1,) if c >= base else (c, c + 1):
            if low <= n <= cap and n not in out and n != base:
                out.append(n)
    # the largest first: it is past every smaller threshold
    big = [n for n in out if n > base]
    small = [n for n in out if n < base]
    return [base] + (big[-1:] + small[-2:] + big[:-1] + small[:-2])[: extra + 1]


def blocks(n):
    """(start, end) of blocks of n rows whose lengths straddle the multiples of new constants"""
    out = []
    for c in [c for c in new_constants() if 8 <= c <= n // 2][-3:]:
        out += [(1, c), (0, c), (2, c + 3), (0, 2 * c), (n - 2 * c - 1, n) if 2 * c < n else (0, n)]
    return out


def wides(inputs, fn, functions, bounds, base, cap, low=3, extra=2, tag="wide", **kw):
    """one harness fn(h, **inputs, NW=n) for every size"""
    import functools

    from .harness import Harness

    return [Harness(tag if n == base else f"{tag}_{n}", inputs, functools.partial(fn, NW=n), functions, bounds.replace("{NW}", str(n)), **kw)
            for n in sizes(base, cap, low, extra)]


if __name__ == "__main__":
    json.dump({k: sorted(v) for k, v in sorted(constants().items())}, open(BASE, "w"), indent=0)
