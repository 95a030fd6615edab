"""C24 Numerical linear algebra helpers: Cholesky updates, inner products, orthogonalisation, shapes."""
import numpy as np

from probnum import linops, randvars
from probnum.utils import argutils, arrayutils, linalg as U
from pbt.runner import Sub
from .librv import close, covmat, dense

RULE = ("A case is a set of square roots, vectors, a basis or a shape; non-trivial if a factorisation, inner "
        "product, orthogonality relation or converted shape was compared with its definition.")


def factor(d, n):
    k = d.int(1, n + 2)
    S = d.array((n, k), -2, 2, 4)
    if d.bool(1, 5):
        S = np.zeros((n, k))
        d.label("zero factor")
    elif d.bool(1, 5):
        S[d.int(0, n - 1)] = 0.0
    return S


def is_chol(d, Lf, C, tag):
    n = len(C)
    sc = 1 + np.max(np.abs(C))
    d.check(np.shape(Lf) == (n, n), "%s: shape %s", tag, np.shape(Lf))
    d.check(np.all(np.isfinite(Lf)), "%s: not finite", tag)
    d.check(np.max(np.abs(np.triu(Lf, 1)), initial=0.0) <= 1e-12 * sc, "%s: not lower triangular: %s", tag, Lf)
    d.check(np.all(np.diag(Lf) >= 0), "%s: negative diagonal %s", tag, np.diag(Lf))
    d.check(close(Lf @ Lf.T, C, 1e-11 * sc), "%s: L L^T = %s, expected %s", tag, Lf @ Lf.T, C)


def cholupdate(d):
    n = d.size(1, 5, 15)
    S1 = factor(d, n)
    S2 = factor(d, n) if d.bool(3, 4) else None
    a, b = S1.copy(), None if S2 is None else S2.copy()
    if d.bool(1, 6):
        a = np.asfortranarray(a)
    out = U.cholesky_update(a, b) if b is not None else (U.cholesky_update(a) if d.bool() else U.cholesky_update(a, None))
    C = S1 @ S1.T + (0.0 if S2 is None else S2 @ S2.T)
    is_chol(d, out, C, "cholesky_update")
    d.check(np.array_equal(a, S1) and (b is None or np.array_equal(b, S2)), "inputs modified")
    if np.linalg.matrix_rank(C) == n and np.linalg.cond(C) < 1e8:
        d.check(close(out, np.linalg.cholesky(C), 1e-6 * (1 + np.max(np.abs(out)))), "not the Cholesky factor: %s vs %s", out, np.linalg.cholesky(C))
        d.label("full rank")
    else:
        d.label("rank deficient")
    d.nontrivial()


def posdiag(d):
    n = d.size(1, 5, 15)
    T = np.tril(d.array((n, n), -2, 2, 4))
    X = T.copy()
    out = U.tril_to_positive_tril(X)
    is_chol(d, out, T @ T.T, "tril_to_positive_tril")
    d.check(np.array_equal(X, T), "input modified")
    d.check(close(np.abs(out), np.abs(T), 1e-12 * 2), "entries change beyond signs")
    d.nontrivial()


def metric(d, n):
    """An inner product matrix, in one of its representations; returns (argument, dense matrix)."""
    k = d.pick(["none", "dense", "dense", "linop", "scaling", "callable"])
    if k == "none":
        return None, np.eye(n), k
    if k == "scaling":
        s = d.array(n, 0.25, 4)
        return linops.Scaling(s), np.diag(s), k
    A = covmat(d, n)
    if k == "dense":
        return A.copy(), A, k
    if k == "linop":
        return linops.Matrix(A), A, k
    return (lambda v, w: np.einsum("...i,ij,...j->...", v, A, w)), A, k


def inner(d):
    n = d.size(1, 4, 15)
    A, M, k = metric(d, n)
    d.assume(k != "callable")
    bs = d.pick([(), (), (2,), (3, 2), (1, 2)])
    bw = d.pick([bs, (), bs[-1:] if bs else ()])
    v, w = d.array(bs + (n,), -2, 2, 4), d.array(bw + (n,), -2, 2, 4)
    if d.bool():
        v, w = w, v
    got = np.asarray(U.inner_product(v.copy(), w.copy(), *([] if A is None and d.bool() else [A])))
    want = np.einsum("...i,ij,...j->...", v, M, w)
    d.check(got.shape == want.shape and close(got, want, 1e-10 * (1 + np.max(np.abs(want)))), "<v,w> = %s, expected %s (v %s, w %s, A %s)", got, want, v.shape, w.shape, k)
    u = d.array(bs + (n,), -2, 2, 4)
    ax = d.int(-u.ndim, u.ndim - 1)
    u2 = np.moveaxis(u, -1, ax)
    got = np.asarray(U.induced_norm(u2.copy(), A=A, axis=ax))
    want = np.sqrt(np.einsum("...i,ij,...j->...", u, M, u))
    d.check(got.shape == want.shape and close(got, want, 1e-9 * (1 + np.max(np.abs(want)))), "norm %s, expected %s (shape %s axis %s A %s)", got, want, u2.shape, ax, k)
    d.label("metric:" + k)
    d.nontrivial()


def orth(d):
    n = d.size(1, 5, 12)
    A, M, k = metric(d, n)
    r = d.int(1, n)
    # an M-orthogonal basis, not normalised in general
    B = d.array((r, n), -2, 2, 4)
    basis = []
    for b in B:
        for u in basis:
            b = b - (u @ M @ b) / (u @ M @ u) * u
        for u in basis:
            b = b - (u @ M @ b) / (u @ M @ u) * u
        if b @ M @ b > 1e-2:
            basis.append(b * d.pick([1.0, 2.0, 1 / np.sqrt(b @ M @ b)]))
    d.assume(basis)
    Q = np.array(basis)
    bs = d.pick([(), (), (2,), (2, 2)])
    v = d.array(bs + (n,), -3, 3, 4)
    as_int = d.bool(1, 5)
    if as_int:
        v = np.round(v).astype(int)
        d.label("integer")
    fn = d.pick([U.gram_schmidt, U.modified_gram_schmidt, U.double_gram_schmidt, "double-classic"])
    normalize = d.bool()
    kw = dict(normalize=normalize)
    if fn == "double-classic":
        fn = U.double_gram_schmidt
        kw["gram_schmidt_fn"] = U.gram_schmidt
    G = np.einsum("ki,ij,kj->k", Q, M, Q)
    coef = np.einsum("...i,ij,kj->...k", v, M, Q) / G
    want = v - coef @ Q
    nrm = np.sqrt(np.maximum(np.einsum("...i,ij,...j->...", want, M, want), 0))
    if normalize:
        d.assume(np.min(nrm) > 1e-2)
        want = want / nrm[..., None]
    form = d.pick(["array", "list", "single"]) if len(Q) == 1 else d.pick(["array", "list", "tuple"])
    arg = {"array": Q.copy(), "list": [q.copy() for q in Q], "tuple": tuple(q.copy() for q in Q), "single": Q[0].copy()}[form]
    vv = v.copy()
    if A is not None or d.bool():
        kw["inner_product"] = A
    got = np.asarray(fn(vv, arg, **kw))
    d.check(np.array_equal(vv, v), "input vector modified")
    d.check(np.array_equal(np.atleast_2d(np.array(arg)), Q), "basis modified")
    sc = (1 + np.max(np.abs(v))) * (1 + np.max(np.abs(M))) / (1 if not normalize else 1e-2)
    d.check(got.shape == v.shape, "shape %s", got.shape)
    ip = np.einsum("...i,ij,kj->...k", got, M, Q)
    d.check(np.max(np.abs(ip)) <= 1e-9 * sc * (1 + np.max(np.abs(Q))), "not orthogonal: <v', b_i> = %s", ip)
    d.check(close(got, want, 1e-9 * sc), "%s: %s, projection gives %s (metric %s)", fn.__name__, got, want, k)
    d.label("metric:" + k, fn.__name__)
    d.nontrivial()


def shapes(d):
    nd = d.int(0, 4)
    s = tuple(d.int(0, 5) for _ in range(nd))
    form = d.pick(["tuple", "list", "np-tuple", "array", "int", "npint", "generator-free"])
    if form in ("int", "npint"):
        s = (d.int(0, 6),)
    x = {"tuple": s, "list": list(s), "np-tuple": tuple(np.int64(v) for v in s), "array": np.array(s, dtype=int),
         "int": s[0] if s else None, "npint": np.int32(s[0]) if s else None, "generator-free": list(np.array(s, dtype=np.int32))}[form]
    out = argutils.as_shape(x)
    d.check(type(out) is tuple and out == s and all(type(v) is int for v in out), "as_shape(%s) = %s", x, out)
    d.check(argutils.as_shape(x, ndim=len(s)) == s, "ndim")
    for bad in (lambda: argutils.as_shape(x, ndim=len(s) + d.int(1, 2)), lambda: argutils.as_shape(1.5),
                lambda: argutils.as_shape((1, 2.0)), lambda: argutils.as_shape([1, "2"])):
        try:
            r = bad()
        except TypeError:
            continue
        d.fail("invalid shape accepted: %s" % (r,))
    v = d.pick([d.int(-3, 3), d.dyadic(-3, 3), np.float64(1.5), np.array(2.0), True])
    dt = d.pick([None, np.double, np.float32])
    o = argutils.as_numpy_scalar(v, dtype=dt)
    d.check(o.shape == () and float(o) == float(v) and (dt is None or o.dtype == dt), "as_numpy_scalar(%s) = %s", v, o)
    try:
        argutils.as_numpy_scalar(np.zeros(1))
    except ValueError:
        d.nontrivial()
        return
    d.fail("as_numpy_scalar accepted an array")


def colvec(d):
    n, m = d.size(1, 4, 15), d.int(1, 3)
    x = d.array(d.pick([(n,), (n, 1), (n, m), (1, n)]), -2, 2)
    k = d.pick(["array", "normal", "constant"])
    want = x[:, None] if x.ndim == 1 else x
    if k == "array":
        got = arrayutils.as_colvec(x)
        d.check(np.array_equal(got, want), "as_colvec %s -> %s", x.shape, got.shape)
        for y in (x, np.array(1.5)):
            o = arrayutils.atleast_1d(y)
            d.check(o.ndim == max(1, y.ndim) and np.array_equal(np.ravel(o), np.ravel(y)), "atleast_1d")
        o = arrayutils.atleast_1d(x, np.array(2.0))
        d.check(len(o) == 2 and np.array_equal(o[0], x) and o[1].shape == (1,), "atleast_1d of several")
    elif k == "normal":
        C = covmat(d, x.size)
        got = arrayutils.as_colvec(randvars.Normal(x, C))
        d.check(got.shape == want.shape and close(got.mean, want, 1e-12) and close(dense(got.cov), C, 1e-10 * (1 + np.max(np.abs(C)))), "as_colvec of a Normal %s: %s", x.shape, got.shape)
    else:
        got = arrayutils.as_colvec(randvars.Constant(x))
        d.check(got.shape == want.shape and np.array_equal(got.mean, want), "as_colvec of a Constant")
    d.label(k)
    d.nontrivial()


SUBS = [
    Sub("cholupdate", cholupdate, 1500, 30000),
    Sub("posdiag", posdiag, 500, 8000),
    Sub("inner", inner, 1500, 25000),
    Sub("orth", orth, 2000, 40000),
    Sub("shapes", shapes, 500, 6000),
    Sub("colvec", colvec, 500, 6000),
]
