"""C19 problinsolve: solutions, posteriors over A and its inverse, convergence report."""
import contextlib
import io
import warnings

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from probnum import linalg, linops, randvars
from pbt.runner import Sub
from . import c18
from . import libgauss as G
from . import liblinops as L
from .librv import close, covmat, dense

RULE = ("A case is a symmetric positive definite system (any representation), a prior over A, its "
        "inverse or the solution, tolerances and a calibration; non-trivial if the returned "
        "posteriors were compared with conditioning the priors on the products made.")


def represent(d, A):
    r = d.pick(["array", "array", "linop", "csr", "csc", "linop-sum"])
    d.label("A:" + r)
    if r == "linop":
        return linops.Matrix(A)
    if r == "linop-sum":
        return linops.Matrix(A - np.eye(len(A))) + linops.Identity(len(A))
    if r == "csr":
        return scipy.sparse.csr_matrix(A)
    if r == "csc":
        return scipy.sparse.csc_matrix(A)
    return A.copy()


def like(d, M):
    """A matrix argument as an array, a dense operator or a scaling."""
    return d.pick([lambda: linops.aslinop(M), lambda: M.copy()])()


def gen_prior(d, n, A, b):
    """kwargs and the prior parameters they mean: (A0, V0, H0, W0, x0, calibratable)."""
    kind = d.pick(["none", "none", "x0", "x0", "Ainv0", "Ainv0-scaling", "Ainv0-rv", "A0-rv", "both-rv"])
    d.label("prior:" + kind)
    I = np.eye(n)
    if kind == "none":
        return {}, I, A, I, I, b.copy(), True, kind
    if kind == "x0":
        x0 = d.array(n, -2, 2)
        how = d.weighted([(4, "any"), (1, "zero"), (1, "orthogonal"), (1, "solution")])
        if how == "zero":
            x0 = np.zeros(n)
        elif how == "orthogonal" and n > 1:
            x0 = np.zeros(n)
            x0[:2] = b[1], -b[0]
        elif how == "solution":
            x0 = np.linalg.solve(A, b)
        y = x0
        if b @ x0 < 0:
            y = -x0
        elif b @ x0 == 0:
            y = (b @ b) / (b @ A @ b) * b
        if np.any(b):
            d.assume(abs(b @ y) > 1e-2 * np.linalg.norm(b) * np.linalg.norm(y))
            a = 0.5 * (b @ y) / (b @ b)
            H0 = a * I + 2 / (b @ y) * np.outer(y - a * b, y - a * b)
            if np.linalg.cond(H0) > 1e4:
                d.inconclusive("ill-conditioned prior")
            A0 = np.linalg.inv(H0)
        else:
            H0 = A0 = None
        kw = x0.copy() if d.bool() else x0[:, None].copy()
        return dict(x0=kw), A0, A, H0, H0, x0, True, kind
    B = c18.matrix(d, n, "spd")
    if kind == "Ainv0":
        return dict(Ainv0=like(d, B)), np.linalg.inv(B), A, B, B, B @ b, True, kind
    if kind == "Ainv0-scaling":
        c = d.pick([0.5, 2.0, 1.0])
        return dict(Ainv0=linops.Scaling(c, shape=(n, n))), I / c, A, c * I, c * I, c * b, True, kind
    W = c18.matrix(d, n, "spd")
    if kind == "Ainv0-rv":
        rv = randvars.Normal(like(d, B), linops.SymmetricKronecker(like(d, W)))
        return dict(Ainv0=rv), np.linalg.inv(B), A, B, W, B @ b, False, kind
    if kind == "A0-rv":
        rv = randvars.Normal(like(d, B), linops.SymmetricKronecker(like(d, W)))
        Bi = np.linalg.inv(B)
        return dict(A0=rv), B, W, Bi, Bi, Bi @ b, False, kind
    B2, W2 = c18.matrix(d, n, "spd"), c18.matrix(d, n, "spd")
    return (dict(A0=randvars.Normal(like(d, B2), linops.SymmetricKronecker(like(d, W2))),
                 Ainv0=randvars.Normal(like(d, B), linops.SymmetricKronecker(like(d, W)))),
            B2, W2, B, W, B @ b, False, kind)


def sym_condition(M, W, X, Y):
    """Condition a symmetric matrix Gaussian N(M, W (x)_s W) on M X = Y, one column after another."""
    M, W = M.copy(), W.copy()
    for x, y in zip(X, Y):
        Wx = W @ x
        g = x @ Wx
        u, r = Wx / g, y - M @ x
        M = M + np.outer(r, u) + np.outer(u, r) - (x @ r) * np.outer(u, u)
        W = W - np.outer(u, Wx)
    return M, W


def posed(W, X):
    X = np.array(X)
    if not len(X):
        return True
    S = X @ W @ X.T
    s = np.sqrt(np.clip(np.diag(S), 1e-300, None))
    return np.linalg.eigvalsh(S / np.outer(s, s)).min() > 1e-4


def run(**kw):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return linalg.problinsolve(**kw)


def solve(d):
    n = d.size(1, 5, 12)
    A = c18.matrix(d, n, "spd")
    b = d.array(n, -3, 3)
    if d.bool(1, 10):
        b[:] = 0.0
    kw, A0, V0, H0, W0, x0, calib_ok, kind = gen_prior(d, n, A, b)
    cal = d.pick([None, None, None, False, 0.0, 0.5, 3.0, "adhoc", "weightedmean"])
    if cal is not None:
        kw["calibration"] = cal
    maxiter = d.pick([None, None, None, 0, 1, 2, n])
    atol, rtol = d.pick([(1e-6, 1e-6), (1e-9, 0.0), (1e-1, 0.0), (0.0, 1e-2), (2.0, 0.0), (0.0, 0.5), (0.0, 2.0)])
    bshape = d.pick(["vec", "vec", "col", "random"])
    Ar, br = represent(d, A), b[:, None].copy() if bshape == "col" else b.copy()
    d.note("system", "A=%s b=%s (%s) prior=%s %s x0=%s maxiter=%s tol=%s,%s calibration=%r" % (
        L.fmt(A), L.fmt(b), bshape, kind, "" if H0 is None else L.fmt(H0), L.fmt(x0), maxiter, atol,
        rtol, cal))
    keep = br.copy()
    states = []
    cb = lambda xk, Ak, Ainvk, sk, yk, alphak, resid: states.append(
        (xk, Ak, Ainvk, sk.ravel(), yk.ravel(), alphak, resid.ravel()))
    arg = br
    if bshape == "random":
        arg = randvars.Constant(br) if d.bool() else randvars.Normal(br, np.eye(n))
    x, Ah, Hh, info = run(A=Ar, b=arg, maxiter=maxiter, atol=atol, rtol=rtol, callback=cb, **kw)
    d.check(np.array_equal(br, keep), "right-hand side modified")
    d.check(info["iter"] == len(states), "info iter=%s, callback called %d times", info["iter"],
            len(states))
    limit = 10 * n if maxiter is None else maxiter
    d.check(info["iter"] <= limit, "%d iterations, maximum %d", info["iter"], limit)
    xm = dense(x.mean)
    if bshape != "col":
        d.check(x.shape == b.shape, "solution has shape %s, right-hand side %s", x.shape, b.shape)
    xm = xm.ravel()
    d.check(np.all(np.isfinite(xm)), "solution %s", xm)
    # --- convergence report
    res, bn = np.linalg.norm(A @ xm - b), np.linalg.norm(b)
    d.check(close(info["resid_l2norm"], res, 1e-8 * G.mag(b, xm)), "reported residual %s, actual %s",
            info["resid_l2norm"], res)
    crit = info["conv_crit"]
    slack = 1e-9 * G.mag(b, xm)
    if crit == "resid_atol":
        d.check(res <= atol + slack, "%s but residual %s", crit, res)
    elif crit == "resid_rtol":
        d.check(res <= rtol * bn + slack, "%s but residual %s, |b| %s", crit, res, bn)
    elif crit == "maxiter":
        d.check(info["iter"] == limit, "maxiter after %s of %d iterations", info["iter"], limit)
    else:
        tr = np.sqrt(max(0.0, info["trace_sol_cov"]))
        bound = atol if crit == "tracecov_atol" else rtol * bn
        d.check(crit in ("tracecov_atol", "tracecov_rtol") and tr <= bound + slack,
                "%s but sqrt(tr Cov x) = %s", crit, tr)
    if H0 is None:  # b = 0: the solution is zero
        d.check(res <= max(atol, slack) or crit == "maxiter", "residual %s for b=0", res)
        return
    # --- search directions, steps and residuals
    xk, Hk, X = x0, H0, []
    S, Y = [s[3] for s in states], [s[4] for s in states]
    fine = True
    for k, (xr, Ak, Ainvk, s, y, alpha, r) in enumerate(states):
        scale = G.mag(b, xk, A @ xk, Hk)
        fine = fine and posed(W0, Y[:k + 1]) and posed(V0, S[:k + 1])
        if not fine:
            break
        want = -Hk @ (A @ xk - b)
        d.check(close(s, want, 1e-6 * scale), "search direction %d: %s, -E[H] r = %s", k, s, want)
        d.check(close(y, A @ s, 1e-9 * G.mag(s)), "observation %s, A s = %s", y, A @ s)
        nx = dense(xr.mean).ravel()
        d.check(close(nx, xk + alpha * s, 1e-8 * scale), "x%d = %s, x + alpha s = %s", k + 1, nx,
                xk + alpha * s)
        d.check(close(r, A @ nx - b, 1e-8 * scale), "residual %s, A x - b = %s", r, A @ nx - b)
        d.check(abs(s @ r) <= 1e-7 * scale ** 2, "residual not orthogonal to the direction: %s", s @ r)
        # --- posteriors given the products so far
        eH, eW = sym_condition(H0, W0, Y[:k + 1], S[:k + 1])
        eA, eV = sym_condition(A0, V0, S[:k + 1], Y[:k + 1])
        phi = None
        if calib_ok and isinstance(cal, str):
            R = [np.log(t @ A @ t / (t @ t)) for t in S[:k + 1]]
            m = R[-1] if k < 2 or cal == "adhoc" else np.mean(np.array(R) * 0.9 ** np.arange(k + 1))
            phi = np.exp(m)
        elif calib_ok and cal:
            phi = cal
        if phi is not None:
            proj = lambda V: np.eye(n) - np.array(V).T @ np.linalg.pinv(np.array(V).T)
            eV, eW = phi * proj(S[:k + 1]), proj(Y[:k + 1]) / phi
        tol = 1e-5 * G.mag(eH, eW, eA, eV, A0, H0, W0, V0)
        Hk = dense(Ainvk.mean)
        d.check(close(Hk, eH, tol), "E[Ainv] after %d products: %s, exact %s", k + 1, Hk, eH)
        d.check(close(dense(Ak.mean), eA, tol), "E[A] after %d products: %s, exact %s", k + 1,
                dense(Ak.mean), eA)
        d.check(isinstance(Ainvk.cov, linops.SymmetricKronecker)
                and isinstance(Ak.cov, linops.SymmetricKronecker), "covariance %s", type(Ak.cov))
        W = dense(Ainvk.cov.A)
        d.check(close(W, eW, tol), "covariance factor of Ainv after %d products: %s, exact %s", k + 1,
                W, eW)
        d.check(close(dense(Ak.cov.A), eV, tol), "covariance factor of A after %d products: %s, exact %s",
                k + 1, dense(Ak.cov.A), eV)
        Wb = eW @ b
        eC = 0.5 * ((b @ Wb) * eW + np.outer(Wb, Wb))
        d.check(close(dense(xr.cov), eC, tol * G.mag(b) ** 2), "Cov(x) %s, exact %s", dense(xr.cov), eC)
        xk = nx
        if k < len(states) - 1:
            lim = max(atol, rtol * bn) * (1 - 1e-6) - tol
            d.check(np.linalg.norm(A @ nx - b) > lim, "no stop after %d iterations with residual %s, tolerance %s",
                    k + 1, np.linalg.norm(A @ nx - b), lim)
            d.check(np.trace(eC) > max(lim, 0.0) ** 2 * (1 - 1e-6) - tol * G.mag(b) ** 2 * n,
                    "no stop after %d iterations with tr Cov x = %s, tolerance %s squared", k + 1, np.trace(eC), lim)
        if k == len(states) - 1:
            for got, exp, what in ((x, xr, "x"), (Ah, Ak, "A"), (Hh, Ainvk, "Ainv")):
                d.check(close(dense(got.mean).ravel(), dense(exp.mean).ravel(), 1e-9 * G.mag(dense(exp.mean))),
                        "returned %s is not that of the last iteration", what)
            t = np.trace(eC)
            d.check(close(info["trace_sol_cov"], t, tol * G.mag(b) ** 2 * n),
                    "reported tr Cov(x) = %s, exact %s", info["trace_sol_cov"], t)
    if fine and states and maxiter is None and crit.startswith("resid"):
        err = np.linalg.norm(xm - np.linalg.solve(A, b))
        d.check(err <= np.linalg.norm(np.linalg.inv(A), 2) * (max(atol, rtol * bn) + slack),
                "error %s", err)
    if fine and atol < 1e-5 and maxiter is None:
        d.check(info["iter"] <= n + 2 and crit != "maxiter", "%s iterations (%s) for size %d",
                info["iter"], crit, n)
    if fine and states:
        d.nontrivial()


def multi(d):
    """Several right-hand sides are all solved; the result has the shape of b."""
    n, k = d.size(1, 5, 10), d.int(2, 3)
    A = c18.matrix(d, n, "spd")
    B = d.array((n, k), -3, 3)
    kw = {}
    if d.bool(1, 3):
        kw["Ainv0"] = linops.Scaling(d.pick([0.5, 2.0]), shape=(n, n))
    d.note("system", "A=%s B=%s %s" % (L.fmt(A), L.fmt(B), list(kw)))
    x, Ah, Hh, info = run(A=represent(d, A), b=B.copy(), atol=1e-9, rtol=1e-9, **kw)
    d.check(x.shape == B.shape, "solution has shape %s, right-hand side %s", x.shape, B.shape)
    d.check(close(dense(x.mean), np.linalg.solve(A, B), 1e-5 * G.mag(B) * np.linalg.cond(A)),
            "solution %s, exact %s", dense(x.mean), np.linalg.solve(A, B))
    d.nontrivial()


def invalid(d):
    """Mismatched systems and unknown assumptions are rejected."""
    n = d.size(1, 4, 10)
    A, b = np.eye(n) * 2, np.ones(n)
    kw = dict(A=A, b=b)
    what = d.pick(["b", "Ainv0", "A0", "x0", "square", "assume", "type", "both"])
    if what == "b":
        kw["b"] = np.ones(n + 1)
    elif what == "Ainv0":
        kw["Ainv0"] = linops.Identity(n + 1)
    elif what == "A0":
        kw["A0"] = randvars.Normal(np.eye(n + 1), linops.SymmetricKronecker(np.eye(n + 1)))
    elif what == "x0":
        kw["x0"] = np.ones(n + 1)
    elif what == "square":
        kw["A"] = np.ones((n, n + 1))
    elif what == "assume":
        kw["assume_A"] = d.pick(["posdef", "symmetric", "x", "symposs"])
    elif what == "type":
        kw["b"] = [1.0] * n
    else:
        kw["x0"] = randvars.Normal(np.ones(n), np.eye(n))
        kw["Ainv0"] = randvars.Normal(np.eye(n), linops.SymmetricKronecker(np.eye(n)))
    d.note("call", "%s n=%d" % (what, n))
    try:
        run(**kw)
    except ValueError:
        d.nontrivial()
        return
    d.fail("problinsolve accepted an invalid system: %s" % what)


def units(d):
    """Rescaling the system (powers of two) rescales the solution and the matrix posteriors; with
    a relative tolerance the iterations are the same."""
    n = d.size(1, 4, 9)
    A, b = c18.matrix(d, n, "spd"), d.array(n, -3, 3)
    d.assume(np.linalg.norm(b) > 0.1)
    c, s = 2.0 ** d.pick([0, -8, 7, 14, -16]), 2.0 ** d.pick([0, -8, 9, 16])
    a0 = d.pick([0.5, 2.0, 1.0])
    rtol, maxiter = d.pick([1e-3, 1e-6, 0.1]), d.pick([None, None, 1, 2])
    cal = d.pick([None, False, "adhoc", "weightedmean"])
    kw = {} if cal is None else {"calibration": cal}
    d.note("system", "A=%s b=%s Ainv0=%s rtol=%s maxiter=%s calibration=%s, A in unit %g, x in unit %g" % (
        L.fmt(A), L.fmt(b), a0, rtol, maxiter, cal, c, s))
    out = []
    for u, v in ((1.0, 1.0), (c, s)):
        x, Ah, Hh, info = run(A=u * A, b=u * v * b, Ainv0=linops.Scaling(a0 / u, shape=(n, n)), atol=0.0, rtol=rtol,
                              maxiter=maxiter, **kw)
        out.append((dense(x.mean).ravel() / v, dense(Ah.mean) / u, dense(Hh.mean) * u, info))
    p, q = out
    # the trace of the solution covariance is compared with |b|, which is in different units
    if p[3]["conv_crit"].startswith("trace") or q[3]["conv_crit"].startswith("trace"):
        d.label("stopped by the covariance")
        return
    d.check(p[3]["iter"] == q[3]["iter"] and p[3]["conv_crit"] == q[3]["conv_crit"], "%s %s iterations, %s %s in other units",
            p[3]["conv_crit"], p[3]["iter"], q[3]["conv_crit"], q[3]["iter"])
    for i, what in enumerate(("x", "A", "Ainv")):
        d.check(close(q[i], p[i], 1e-5 * G.mag(p[i])), "%s: %s in other units, %s", what, q[i], p[i])
    d.nontrivial()


SUBS = [
    Sub("units", units, 150, 3000),
    Sub("solve", solve, 900, 15000),
    Sub("multi", multi, 150, 2000),
    Sub("invalid", invalid, 40, 100),
]
