"""C04 Normal arithmetic is the exact linear pushforward of mean and covariance."""
import numpy as np
import scipy.sparse

from probnum import linops, randvars
from pbt.runner import Sub
from . import liblinops as L
from . import librv as R

RULE = ("A case is a Normal (scalar, vector, matrix or operator valued) pushed through 1-4 "
        "affine operations; non-trivial if at least one operation was applied and the "
        "resulting moments were compared with the dense pushforward.")


def lin(x, J, M, scale, rv, desc, fac=True):
    return R.RV(rv, M, J @ x.C @ J.T, scale, x.f32, desc, fac=fac)


def const(d, A):
    """A in one of the forms a user would pass a constant in."""
    how = d.pick(["array", "Constant"])
    if how == "Constant":
        return randvars.Constant(A)
    return A


def step(d, x):
    sh, n = x.shape, x.M.size
    ops = ["neg", "pos", "addc", "subc", "rsubc", "raddc", "scale", "rscale", "div",
           "addn", "subn", "rsubn", "chol"]
    if len(sh) == 1:
        ops += ["matmul"] * 3 + ["rmatmul", "dot", "rdot", "opmul"]
    if len(sh) == 2:
        ops += ["matmul"] * 3 + ["rmatmul"] * 3 + ["opmul", "ropmul", "matvec", "vecmat"]
    op = d.pick(ops)
    d.label("op:" + op)
    rv = x.rv
    I = np.eye(n)
    if op == "chol":
        if not rv.cov_cholesky_is_precomputed and x.fac:
            ev = np.linalg.eigvalsh(x.C)
            if ev[0] > 1e-6 * max(1, ev[-1]):
                rv.cov_cholesky
        return x
    if op == "neg":
        return lin(x, -I, -x.M, x.scale, -rv, "-" + x.desc, x.fac)
    if op == "pos":
        return lin(x, I, x.M, x.scale, +rv, "+" + x.desc, x.fac)
    if op in ("addc", "subc", "rsubc", "raddc"):
        csh = sh if d.bool(3, 4) else ()
        c = d.array(csh, -4, 4)
        if d.bool(1, 8):
            c = np.round(c).astype(np.int64)
        if csh == () and d.bool():
            c = c[()].item()
        if isinstance(rv.mean, linops.LinearOperator) and csh == ():
            return x
        k = const(d, c)
        sc = x.scale + 4
        cf = np.asarray(c, float)
        if op == "addc":
            return lin(x, I, x.M + cf, sc, rv + k, "(%s + %s)" % (x.desc, L.fmt(c)), x.fac)
        if op == "raddc":
            return lin(x, I, cf + x.M, sc, k + rv, "(%s + %s)" % (L.fmt(c), x.desc), x.fac)
        if op == "subc":
            return lin(x, I, x.M - cf, sc, rv - k, "(%s - %s)" % (x.desc, L.fmt(c)), x.fac)
        return lin(x, -I, cf - x.M, sc, k - rv, "(%s - %s)" % (L.fmt(c), x.desc), x.fac)
    if op in ("scale", "rscale", "div"):
        s = d.pick([2.0, -1.0, 0.5, -3.0, 1, -2, np.float64(0.25), np.int64(3)])
        if op == "div":
            return lin(x, I / s, x.M / s, x.scale, rv / const(d, s),
                       "(%s / %s)" % (x.desc, s), x.fac)
        if op == "rscale":
            return lin(x, I * s, x.M * s, 9 * x.scale, const(d, s) * rv,
                       "(%s * %s)" % (s, x.desc), x.fac)
        return lin(x, I * s, x.M * s, 9 * x.scale, rv * const(d, s),
                   "(%s * %s)" % (x.desc, s), x.fac)
    if op in ("addn", "subn", "rsubn"):
        y = R.normal(d, sh)
        if isinstance(x.rv.cov, linops.LinearOperator) != isinstance(
                y.rv.cov, linops.LinearOperator):
            pass
        sc = x.scale + y.scale
        if op == "addn":
            r, M, nm = rv + y.rv, x.M + y.M, "(%s + %s)"
        elif op == "subn":
            r, M, nm = rv - y.rv, x.M - y.M, "(%s - %s)"
        else:
            r, M, nm = y.rv - rv, y.M - x.M, "(- %s + %s)"
        return R.RV(r, M, x.C + y.C, sc, x.f32 or y.f32, nm % (x.desc, y.desc),
                    fac=x.fac and y.fac)
    # linear maps ------------------------------------------------------------
    if op in ("dot", "rdot"):
        a = d.array(n, -2, 2, den=2)
        if op == "dot":
            r, nm = const(d, a) @ rv, "(%s @ %s)" % (L.fmt(a), x.desc)
        else:
            r, nm = rv @ const(d, a), "(%s @ %s)" % (x.desc, L.fmt(a))
        return lin(x, a[None, :], a @ x.M, 4 * n * n * x.scale, r, nm)
    if len(sh) == 1:
        k = d.pick([2, 1, 3, n])
        A = d.array((k, n), -2, 2, den=2)
        if op == "opmul":
            r = linops.aslinop(A) @ rv
        elif op == "matmul":
            r = const(d, A) @ rv
        else:
            r = rv @ const(d, A.T.copy())
        return lin(x, A, A @ x.M, 4 * n * n * x.scale, r,
                   "(%s %s %s)" % (L.fmt(A), op, x.desc))
    p, q = sh
    sc = 4 * n * n * x.scale
    if op == "matvec":
        a = d.array(q, -2, 2, den=2)
        J = np.kron(np.eye(p), a[None, :])
        return lin(x, J, x.M @ a, sc, rv @ const(d, a), "(%s @ %s)" % (x.desc, L.fmt(a)))
    if op == "vecmat":
        a = d.array(p, -2, 2, den=2)
        J = np.kron(a[None, :], np.eye(q))
        return lin(x, J, a @ x.M, sc, const(d, a) @ rv, "(%s @ %s)" % (L.fmt(a), x.desc))
    if op in ("matmul", "opmul"):
        k = d.pick([2, 1, 3, p])
        A = d.array((k, p), -2, 2, den=2)
        r = (linops.aslinop(A) if op == "opmul" else const(d, A)) @ rv
        return lin(x, np.kron(A, np.eye(q)), A @ x.M, sc, r, "(%s @ %s)" % (L.fmt(A), x.desc))
    k = d.pick([2, 1, 3, q])
    A = d.array((q, k), -2, 2, den=2)
    r = rv @ (linops.aslinop(A) if op == "ropmul" else const(d, A))
    return lin(x, np.kron(np.eye(p), A.T), x.M @ A, sc, r, "(%s @ %s)" % (x.desc, L.fmt(A)))


def chain(d):
    x = R.normal(d, psd=True)
    x0, M0, C0 = x, x.M.copy(), x.C.copy()
    n = d.size(1, 4, 10)
    d.note("start", x.desc)
    for _ in range(n):
        if x.scale > 1e6:
            break
        x = step(d, x)
        d.note("expr", x.desc[:3000])
        if d.bool(1, 3):
            R.check_rv(d, x, "result")
    R.check_rv(d, x, "result")
    R.check_chol(d, x, "result")
    R.check_rv(d, x0, "operand after use")
    d.nontrivial()


def mismatched(d):
    """Operands that do not fit are rejected."""
    x = R.normal(d, d.pick([(2,), (3,), (2, 3), (2, 2)]), f32_ok=False)
    kind = d.pick(["addn", "subn", "matmul", "rmatmul", "addc"])
    d.label(kind)
    n = x.shape[-1]
    try:
        if kind in ("addn", "subn"):
            sh = d.pick([s for s in R.SHAPES if s != x.shape])
            y = R.normal(d, sh, f32_ok=False)
            d.note("expr", "%s %s %s" % (x.desc, kind, y.desc))
            z = x.rv + y.rv if kind == "addn" else x.rv - y.rv
        elif kind == "addc":
            c = d.array(n + 1)
            d.note("expr", "%s + %s" % (x.desc, L.fmt(c)))
            z = x.rv + c
        elif kind == "matmul":
            A = d.array((2, x.shape[0] + 1))
            d.note("expr", "%s @ %s" % (L.fmt(A), x.desc))
            z = A @ x.rv
        else:
            A = d.array((n + 1, 2))
            d.note("expr", "%s @ %s" % (x.desc, L.fmt(A)))
            z = x.rv @ A
    except (ValueError, TypeError):
        d.nontrivial()
        return
    d.fail("shape mismatch accepted: result %r" % z)


def zero_scale(d):
    """Multiplying by zero gives the point mass at zero."""
    x = R.normal(d)
    d.note("expr", "0 * " + x.desc)
    z = d.pick([0, 0.0, np.float64(0)])
    r = x.rv * z if d.bool() else z * x.rv
    R.check_rv(d, R.RV(r, 0 * x.M, 0 * x.C, x.scale, x.f32), "0 * X")
    s = r.sample(np.random.default_rng(0), size=2)
    d.check(R.close(R.dense(s), np.zeros((2,) + x.shape), 0), "samples of 0*X: %s", s)
    d.nontrivial()


SUBS = [
    Sub("chain", chain, 6000, 150000),
    Sub("mismatched", mismatched, 800, 10000),
    Sub("zero_scale", zero_scale, 300, 3000),
]
