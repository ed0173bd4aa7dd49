"""Symbolic derivative of an encoded term with respect to one of its input variables.

Used to decide "the gradient the code returns is the derivative of the value the code
returns": the value is differentiated here, on the encoding, by the chain rule; the gradient
comes out of the real code (jax.grad of it) and is encoded separately. Both are taken away
from the kinks of the value (a branch condition exactly at its boundary), where no derivative
exists: conditions are brought to one orientation and equalities of non-constant terms are false."""
from . import expr as X


def off_kinks(roots):
    memo = {}
    for n in X.postorder(roots):
        if n in memo:
            continue
        a = [memo[x] for x in n.args]
        if n.op == "eq0" and a[0].op not in ("c",) and _real(a[0]):
            memo[n] = X.FALSE
        elif n.op == "lt0" and a[0].op not in ("c",) and _real(a[0]):
            memo[n] = _orient(a[0])
        else:
            memo[n] = X.rebuild(n, a)
    return [memo[r] for r in roots]


def _real(e):
    """does the term itself range over a continuum? (a choice between constants, whatever decides it,
    and integers do not)"""
    seen, stack = set(), [e]
    while stack:
        m = stack.pop()
        if m in seen:
            continue
        seen.add(m)
        if m.op == "v" and not m.integer or m.op == "uf" and not m.integer:
            return True
        stack.extend(m.args[1:] if m.op == "ite" else m.args if m.op != "v" else ())
    return False


def _orient(e):
    r = X.lt0(e)
    if r.op != "lt0":
        return r
    e = r.args[0]
    c, t = X._terms(e)
    lead = min(t.items(), key=lambda kv: kv[0].id)[1]
    return r if lead > 0 else X.not_(X.lt0(X.neg(e)))


def diff(root, v):
    """d root / d v"""
    d = {}
    for n in X.postorder([root]):
        if n.isbool:
            continue
        op, a = n.op, n.args
        if n is v:
            r = X.ONE
        elif op in ("c", "v") or X.is_special(n):
            r = X.ZERO
        elif op == "add":
            r = X.add(*[X.scale(d[x], k) for x, k in zip(a, n.data[1])])
        elif op == "mul":
            ts = []
            for i, (b, e) in enumerate(zip(a, n.data)):
                if d[b] is X.ZERO:
                    continue
                f = [X.powi(bb, ee) for j, (bb, ee) in enumerate(zip(a, n.data)) if j != i]
                ts.append(X.scale(X.mul(*f, X.powi(b, e - 1), d[b]), e))
            r = X.add(*ts) if ts else X.ZERO
        elif op == "exp":
            r = X.mul(n, d[a[0]])
        elif op == "log":
            r = X.div(d[a[0]], a[0]) if d[a[0]] is not X.ZERO else X.ZERO
        elif op == "sqrt":
            r = X.div(d[a[0]], X.scale(n, 2)) if d[a[0]] is not X.ZERO else X.ZERO
        elif op == "ite":
            r = X.ite(a[0], d[a[1]], d[a[2]])
        elif op == "uf":
            if all(x.isbool or d[x] is X.ZERO for x in a):
                r = X.ZERO
            else:
                raise NotImplementedError(f"derivative of {n.data}")
        else:
            raise NotImplementedError(op)
        d[n] = r
    return d[root]
