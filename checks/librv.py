"""Generators and dense models for random variables."""
import numpy as np

import probnum as pn
from probnum import linops, randvars
from . import liblinops as L

SHAPES = [(), (2,), (1,), (3,), (2, 2), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2)]
LARGE = [(8,), (12,), (4, 4), (2, 6), (6, 2), (5, 3)]


def pick_shape(d):
    return d.pick(LARGE) if d.bool(1, 20) else d.pick(SHAPES)


class RV:
    """rv: the random variable under test; M: dense mean; C: dense covariance of the
    row-major vectorisation (size x size); scale: magnitude for tolerances."""

    def __init__(self, rv, M, C, scale=None, f32=False, desc="", fac=True):
        self.rv = rv
        self.M = np.asarray(M, dtype=float)
        n = self.M.size
        self.C = np.asarray(C, dtype=float).reshape(n, n)
        self.scale = max(1.0, np.max(np.abs(self.M), initial=0),
                         np.max(np.abs(self.C), initial=0), scale or 0.0)
        self.f32, self.desc, self.fac = f32, desc, fac

    @property
    def shape(self):
        return self.M.shape

    @property
    def tol(self):
        return (1e-3 if self.f32 else 1e-7) * self.scale


def covmat(d, n, psd=False):
    """A random covariance matrix (positive definite unless psd)."""
    k = d.pick(["full", "diag", "full", "scaled"] + (["lowrank"] if psd else []))
    if k == "diag":
        return np.diag(d.array(n, 0.25, 4))
    if k == "lowrank":
        M = d.array((n, max(1, n - 1)), -2, 2, den=2)
        return M @ M.T
    M = d.array((n, n), -2, 2, den=2)
    A = M @ M.T + d.pick([1.0, 0.5, 2.0]) * np.eye(n)
    if k == "scaled":
        s = np.array([d.pick([1.0, 0.25, 8.0]) for _ in range(n)])
        A = A * s[:, None] * s[None, :]
    return A


def normal(d, shape=None, linop_ok=True, f32_ok=True, psd=False, chol_ok=True, int_ok=True,
           symkron_ok=True):
    if shape is None:
        shape = pick_shape(d)
    n = int(np.prod(shape)) if shape else 1
    M = d.array(shape, -4, 4)
    dt = np.float64
    if f32_ok and d.bool(1, 8):
        dt = np.float32
    elif int_ok and d.bool(1, 8):
        dt = np.int64
        M = np.round(M)
    f32 = dt == np.float32
    kind = "dense"
    if linop_ok and shape != ():
        opts = ["dense", "dense", "matrix", "scaling"]
        if len(shape) == 2:
            opts += ["kron", "kron"]
            if shape[0] == shape[1] and shape[0] > 1 and symkron_ok:
                opts += ["symkron"]
        kind = d.pick(opts)
    d.label("normal:" + kind, "shape:%s" % (shape,))
    chol = None
    if kind in ("dense", "matrix"):
        C = covmat(d, n, psd)
        cov = (C if shape != () else C[0, 0])
        if kind == "matrix":
            cov = linops.Matrix(C)
        if chol_ok and d.bool(1, 3):
            try:
                chol = np.linalg.cholesky(C)
            except np.linalg.LinAlgError:
                chol = None
            if chol is not None:
                chol = chol[0, 0] if shape == () else chol
                chol = linops.Matrix(chol) if kind == "matrix" else chol
    elif kind == "scaling":
        if d.bool():
            s = d.pos(0.25, 4)
            C, cov = s * np.eye(n), linops.Scaling(s, shape=(n, n))
        else:
            s = d.array(n, 0.25, 4)
            C, cov = np.diag(s), linops.Scaling(s)
    elif kind == "kron":
        A, B = covmat(d, shape[0]), covmat(d, shape[1])
        C, cov = np.kron(A, B), linops.Kronecker(A, B)
    else:
        A = covmat(d, shape[0])
        cov = linops.SymmetricKronecker(A)
        C = np.asarray(cov.todense())
    mean = M.astype(dt)
    if shape == () and d.bool():
        mean = float(M)
    elif len(shape) == 2 and linop_ok and kind != "dense" and d.bool(1, 4):
        mean = linops.Matrix(mean)
        d.label("linop mean")
    if f32:
        if isinstance(cov, linops.LinearOperator):
            cov = cov.astype(np.float32)
            if not isinstance(cov, (linops.Matrix, linops.Scaling)):
                f32 = True
        else:
            cov = np.float32(cov) if shape == () else np.asarray(cov, np.float32)
        if chol is not None:
            chol = np.float32(chol) if shape == () else chol.astype(np.float32)
    rv = randvars.Normal(mean, cov) if chol is None else randvars.Normal(mean, cov, chol)
    return RV(rv, M, C, f32=f32, desc="Normal[%s](mean=%s, cov=%s%s)" % (
        kind, L.fmt(M), L.fmt(C), ", chol" if chol is not None else ""),
        fac=kind != "symkron")


def dense(x):
    if isinstance(x, linops.LinearOperator):
        return np.asarray(x.todense())
    if hasattr(x, "todense"):
        return np.asarray(x.todense())
    return np.asarray(x)


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def check_rv(d, x, what=""):
    """Compare shape and moments of x.rv with the model."""
    rv = x.rv
    d.check(tuple(rv.shape) == x.shape, "%s: shape %s, expected %s" % (what, rv.shape, x.shape))
    d.check(rv.size == x.M.size and rv.ndim == x.M.ndim, what + ": size/ndim")
    if not isinstance(rv, (randvars.Normal, randvars.Constant)):
        d.fail("%s: result is a %s" % (what, type(rv).__name__))
    mean = dense(rv.mean)
    d.check(close(mean, x.M, x.tol), "%s: mean %s, expected %s", what, mean, x.M)
    cov = dense(rv.cov)
    C = x.C if x.M.ndim > 0 else x.C[0, 0]
    d.check(close(cov, C, x.tol), "%s: cov %s, expected %s", what, cov, C)
    var = np.diag(x.C).reshape(x.shape)
    d.check(close(dense(rv.var), var, x.tol), "%s: var %s, expected %s", what, rv.var, var)
    d.check(close(dense(rv.std) ** 2, np.maximum(var, 0), 2 * x.tol), "%s: std %s, expected %s", what,
            rv.std, np.sqrt(np.maximum(var, 0)))
    d.check(close(dense(rv.mode), x.M, x.tol), "%s: mode", what)


def check_chol(d, x, what=""):
    rv = x.rv
    if not isinstance(rv, randvars.Normal) or x.f32 or not x.fac:
        return
    ev = np.linalg.eigvalsh(x.C)
    if ev[0] < 1e-6 * max(1.0, ev[-1]):
        if not rv.cov_cholesky_is_precomputed:
            return
    Lc = dense(rv.cov_cholesky)
    C = x.C if x.M.ndim > 0 else x.C[0, 0]
    d.check(Lc.shape == C.shape, "%s: cov_cholesky shape %s for cov %s", what, Lc.shape, C.shape)
    G = Lc @ Lc.T if x.M.ndim > 0 else Lc * Lc
    d.check(close(G, C, x.tol), "%s: cov_cholesky L L^T = %s, cov %s", what, G, C)
    if x.M.ndim > 0:
        d.check(np.max(np.abs(np.triu(Lc, 1)), initial=0) <= x.tol,
                "%s: cov_cholesky %s is not lower triangular", what, Lc)
