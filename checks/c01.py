"""C01 operator expressions act like the dense matrix."""
import numpy as np

import probnum as pn

from probnum import linops
from pbt.runner import Sub
from . import liblinops as L

RULE = ("A case is a random operator expression (1-4 levels deep, every operator class, "
        "six dtypes, sparse and dense, lazy and eager products) plus random operands.")


def draw_operand(d, n, ndim, last=True, dtype=None):
    dt = np.dtype(dtype or d.pick([np.float64, np.float64, np.int64, np.float32]))
    shape = [d.int(1, 3) for _ in range(ndim)]
    return dt, shape


def apply_checks(d, node, what=""):
    op, D = node.op, node.D
    m, n = D.shape
    tol = node.tol
    d.check(tuple(op.shape) == (m, n), "shape %s expected %s" % (op.shape, (m, n)))
    d.check(op.ndim == 2 and op.size == m * n, "ndim/size")
    d.check(op.is_square == (m == n), "is_square")
    modes = d.subset(["vec", "mat", "stack", "rvec", "rmat", "rstack", "axis", "dense",
                      "T", "Tvec"])
    if not modes:
        modes = ["dense"]
    for mode in modes:
        dt = np.dtype(d.pick([np.float64, np.float64, np.int64, np.float32]))
        xt = tol * 10 * (1e4 if dt == np.float32 else 1) * max(m, n)
        k = d.int(1, 3)
        b = d.int(1, 3)
        def chk(x, f, want, lab):
            x0 = x.copy()
            got = f(x)
            d.check(isinstance(got, np.ndarray), lab + ": not an array: %s" % type(got))
            L.close(d, got, want, xt, lab)
            d.check(np.array_equal(x, x0), lab + ": operand was modified")
        if mode == "vec":
            x = L.values(d, (n,), dt)
            chk(x, lambda x: op @ x, D @ x, "op @ vec")
        elif mode == "mat":
            x = L.values(d, (n, k), dt)
            chk(x, lambda x: op @ x, D @ x, "op @ mat")
        elif mode == "stack":
            x = L.values(d, (b, n, k) if d.bool(2, 3) else (2, b, n, k), dt)
            chk(x, lambda x: op @ x, D @ x, "op @ stack")
        elif mode == "rvec":
            x = L.values(d, (m,), dt)
            chk(x, lambda x: x @ op, x @ D, "vec @ op")
        elif mode == "rmat":
            x = L.values(d, (k, m), dt)
            chk(x, lambda x: x @ op, x @ D, "mat @ op")
        elif mode == "rstack":
            x = L.values(d, (b, k, m), dt)
            chk(x, lambda x: x @ op, x @ D, "stack @ op")
        elif mode == "axis":
            nd = d.int(1, 4)
            axis = d.choice(nd - 1)
            shape = [d.int(1, 3) for _ in range(nd)]
            shape[axis] = n
            x = L.values(d, tuple(shape), dt)
            want = np.moveaxis(np.tensordot(D, x, axes=([1], [axis])), 0, axis)
            neg = d.bool()
            chk(x, lambda x: op(x, axis=axis - nd if neg else axis), want,
                "op(x, axis=%d) ndim=%d" % (axis, nd))
        elif mode == "dense":
            got = op.todense(cache=d.bool())
            L.close(d, got, D, tol, "todense")
            dt_ok = np.allclose(D.astype(op.dtype).astype(float), D,
                                atol=1e-3 * node.mag + 1e-6)
            d.check(dt_ok, "dtype %s cannot hold the represented values" % op.dtype)
        elif mode == "T":
            L.close(d, op.T.todense(), D.T, tol, "T.todense")
            d.check(tuple(op.T.shape) == (n, m), "T.shape")
        elif mode == "Tvec":
            x = L.values(d, (m, k), dt)
            chk(x, lambda x: op.T @ x, D.T @ x, "op.T @ mat")


def expr(d):
    shape = L.gen_shape(d)
    depth = d.weighted([(2, 1), (4, 2), (3, 3)])
    node = L.tree(d, shape, depth)
    d.note("expression", node.desc)
    d.label("square" if shape[0] == shape[1] else "rect", "depth%d" % depth)
    if node.mag > 1e9:
        d.inconclusive("magnitude")
    d.nontrivial()
    apply_checks(d, node)


def binary_pairs(d):
    """Every ordered pair of operator kinds under + - @ *, directly."""
    n = d.int(1, 4)
    a = L.tree(d, (n, n), d.int(0, 1))
    b = L.tree(d, (n, n), d.int(0, 1))
    with_op = d.pick(["+", "-", "@"])
    lazy = d.bool(1, 3)
    with pn.config(lazy_matrix_matrix_matmul=lazy):
        if with_op == "+":
            op, D, mag = a.op + b.op, a.D + b.D, a.mag + b.mag
        elif with_op == "-":
            op, D, mag = a.op - b.op, a.D - b.D, a.mag + b.mag
        else:
            op, D, mag = a.op @ b.op, a.D @ b.D, n * a.mag * b.mag
    node = L.Node(op, D, mag, a.f32 or b.f32,
                  desc="(%s %s%s %s)" % (a.desc, with_op, "lazy" if lazy else "", b.desc))
    d.note("expression", node.desc)
    d.nontrivial()
    # operands are values: they still mean the same thing afterwards
    apply_checks(d, node)
    L.close(d, a.op.todense(), a.D, a.tol, "left operand after the operation")
    L.close(d, b.op.todense(), b.D, b.tol, "right operand after the operation")


def near_copy(d, x):
    """A double-precision operator of the same kind that differs slightly from x."""
    E = np.zeros(x.shape)
    eps = 2.0 ** -d.pick([18, 22])
    if isinstance(x.op, linops.Scaling):
        D = x.D.astype(float)
        if x.op.scalar is not None and d.bool():
            D = D + eps * np.eye(len(D))
            op = linops.Scaling(D[0, 0], shape=D.shape)
        else:
            D = D + np.diag(eps * (np.arange(len(D)) == d.choice(len(D) - 1)))
            op = linops.Scaling(np.diag(D))
    else:
        E[d.choice(x.shape[0] - 1), d.choice(x.shape[1] - 1)] = eps
        D = x.D.astype(float) + E
        op = linops.Matrix(D.copy())
    return L.Node(op, D, x.mag, False, False, "near(%s)" % x.desc)


def sharing(d):
    """Histories of operations on a pool of operators that share operands: the same object
    used twice, equal factors in different products, results used again."""
    fam = d.pick(["kron", "kron", "plain", "select"])
    d.label("family:" + fam)
    pool = []

    def put(node):
        if node.mag < 1e5:
            pool.append(node)

    if fam == "kron":
        (m1, n1), (m2, n2) = [(d.int(1, 3), d.int(1, 3)) for _ in range(2)]
        if d.bool(2, 3):
            n1, n2 = m1, m2
        As = [L.leaf(d, (m1, n1)) for _ in range(2)]
        Bs = [L.leaf(d, (m2, n2)) for _ in range(2)]
        if d.bool(1, 3):
            F = d.pick([As, Bs])
            F[0] = L.leaf(d, F[1].shape, ["matrix", "aniso", "iso"])
            F[1] = near_copy(d, F[0])
        for _ in range(d.int(2, 4)):
            if m1 == n1 and d.bool(1, 3):
                b = d.pick(Bs)
                put(L.Node(linops.IdentityKronecker(m1, b.op), np.kron(np.eye(m1), b.D), b.mag, b.f32, True,
                           "IdKron(%d, %s)" % (m1, b.desc)))
            else:
                a, b = d.pick(As), d.pick(Bs)
                put(L.Node(linops.Kronecker(a.op, b.op), np.kron(a.D, b.D), a.mag * b.mag,
                           a.f32 or b.f32, True, "Kron(%s, %s)" % (a.desc, b.desc)))
        if m1 == n1 and m2 == n2:
            put(L.leaf(d, (m1 * m2, m1 * m2)))
    elif fam == "select":
        n = d.int(2, 5)
        k = d.int(1, n)
        for kind, sh in (("selection", (k, n)), ("embedding", (n, k)), ("matrix", (n, n)), ("matrix", (k, k))):
            put(L.leaf(d, sh, (kind,)))
        put(L.leaf(d, (n, n)))
    else:
        n = d.int(1, 4)
        for _ in range(d.int(2, 4)):
            put(L.leaf(d, (n, n)))
        if pool and d.bool(1, 3):
            put(near_copy(d, d.pick(pool)))
    for x in pool:
        L.close(d, x.op.todense(cache=d.bool()), x.D, x.tol, "operand %s" % x.desc)
    log = []
    for _ in range(d.size(2, 5, 12)):
        x = d.pick(pool)
        how = d.pick(["+", "-", "@", "+", "-", "@", "scale", "T", "neg", "inv", "eq"])
        d.label("sharing:" + how)
        lazy = d.bool(1, 4)
        if how in "+-@":
            ok = [y for y in pool if (y.shape == x.shape if how != "@" else x.shape[1] == y.shape[0])]
            if not ok:
                continue
            y = d.pick(ok)
            with pn.config(lazy_matrix_matrix_matmul=lazy):
                op = x.op + y.op if how == "+" else x.op - y.op if how == "-" else x.op @ y.op
            D = x.D + y.D if how == "+" else x.D - y.D if how == "-" else x.D @ y.D
            mag = x.mag + y.mag if how != "@" else x.shape[1] * x.mag * y.mag
            r = L.Node(op, D, mag, x.f32 or y.f32, x.kron or y.kron, "(%s %s%s %s)"
                       % (x.desc, how, "lazy" if lazy else "", y.desc), inv=x.inv or y.inv)
        elif how == "scale":
            c = d.pick([2, 0.5, -1, 1, np.float64(3), 0])
            r = L.Node(c * x.op if d.bool() else x.op * c, c * x.D, x.mag * max(1, abs(c)), x.f32, x.kron,
                       "(%s * %s)" % (c, x.desc), inv=x.inv)
        elif how == "T":
            r = L.Node(x.op.T, x.D.T, x.mag, x.f32, x.kron, "(%s).T" % x.desc, inv=x.inv)
        elif how == "neg":
            r = L.Node(-x.op, -x.D, x.mag, x.f32, x.kron, "-(%s)" % x.desc, inv=x.inv)
        elif how == "inv":
            if x.inv or not L.well_conditioned(x.D):
                continue
            Di = np.linalg.inv(x.D)
            r = L.Node(x.op.inv(), Di, np.max(np.abs(Di)) * np.linalg.cond(x.D) * x.mag, x.f32, x.kron,
                       "(%s).inv()" % x.desc, inv=True)
        else:
            y = d.pick(pool)
            e = x.op == y.op
            d.check(not e or (x.shape == y.shape and np.max(np.abs(x.D - y.D)) <= x.tol + y.tol),
                    "operators compare equal but differ: %s == %s", x.desc, y.desc)
            d.check(bool(e) != bool(x.op != y.op), "== and != agree: %s, %s", x.desc, y.desc)
            if x is y:
                d.check(e, "%s is not equal to itself", x.desc)
            continue
        if r.mag > 1e5:
            continue
        log.append(r.desc)
        d.note("step", r.desc)
        d.check(tuple(r.op.shape) == r.shape, "%s: shape %s", r.desc, r.op.shape)
        L.close(d, r.op.todense(cache=d.bool()), r.D, r.tol, r.desc)
        v = d.array(r.shape[1], -2, 2)
        L.close(d, r.op @ v, r.D @ v, r.tol * 10 * r.shape[1], "%s @ x" % r.desc)
        put(r)
    for x in pool:
        L.close(d, x.op.todense(), x.D, x.tol, "%s after the history" % x.desc)
        if x.shape[0] == x.shape[1]:
            v = d.array(x.shape[0], -2, 2)
            L.close(d, x.op.T @ v, x.D.T @ v, x.tol * 10 * x.shape[1], "(%s).T @ x after the history" % x.desc)
    if log:
        d.nontrivial()


def mismatch(d):
    """Operators whose shapes do not fit are rejected, not broadcast."""
    sa, sb = L.gen_shape(d, 4), L.gen_shape(d, 4)
    a, b = L.tree(d, sa, d.int(0, 1)), L.tree(d, sb, d.int(0, 1))
    how = d.pick(["+", "-", "@", "@arr", "arr@", "call", "axis"])
    d.note("case", "%s %s %s" % (a.desc, how, b.desc))
    d.label(how)
    if (how == "@" and isinstance(a.op, linops.Selection)
            and isinstance(b.op, linops.Embedding)):
        d.label("excluded: known finding F01")
        return
    bad = {"+": sa != sb, "-": sa != sb, "@": sa[1] != sb[0]}.get(how, True)
    if not bad:
        return
    d.nontrivial()
    k = d.int(1, 4)
    if how in ("@arr", "arr@", "call"):
        need = sa[0] if how == "arr@" else sa[1]
        d.assume(k != need)
    if how == "axis":
        nd = d.int(1, 3)
        ax = d.pick([nd, nd + 1, -nd - 1, -nd - 3])
        try:
            a.op(np.ones((sa[1],) * nd), axis=ax)
        except np.AxisError:
            return
        d.fail("axis=%d accepted for an operand with %d dimensions" % (ax, nd))
    try:
        if how == "+":
            r = a.op + b.op
        elif how == "-":
            r = a.op - b.op
        elif how == "@":
            r = a.op @ b.op
        elif how == "@arr":
            r = a.op @ np.ones((k,) if d.bool() else (k, 2))
        elif how == "arr@":
            r = np.ones((k,) if d.bool() else (2, k)) @ a.op
        else:
            r = a.op(np.ones((2, k)), axis=1)
    except (ValueError, TypeError, np.linalg.LinAlgError):
        return
    d.fail("shape mismatch %s %s %s accepted; result shape %s"
           % (sa, how, sb if how in "+-@" else k, getattr(r, "shape", None)))


def _f01():
    r = linops.Selection((0,), (1, 3)) @ linops.Embedding((0,), (0,), (2, 1))
    return r.shape == (1, 1)


KNOWN = {"F01": _f01}

SUBS = [
    Sub("expr", expr, 6000, 200000,
        "expression has a well-defined dense reference of moderate magnitude"),
    Sub("pairs", binary_pairs, 4000, 100000, "every binary operation of two operators"),
    Sub("sharing", sharing, 2500, 60000, "an operation of the history was compared with the dense result"),
    Sub("mismatch", mismatch, 1500, 30000, "the shapes really are incompatible"),
]
