"""Dense reference Gaussian algebra and generators for linear Gaussian models."""
import numpy as np

from probnum import linops, randvars
from probnum.randprocs.markov import discrete
from . import liblinops as L
from .librv import covmat, close, dense


def spd(d, n):
    return covmat(d, n)


def normal(d, n, psd=False, cov=None, mean=None):
    """A vector Normal with or without a precomputed Cholesky factor."""
    m = d.array(n, -3, 3) if mean is None else mean
    C = covmat(d, n, psd) if cov is None else cov
    if d.bool():
        try:
            return randvars.Normal(m, C, np.linalg.cholesky(C)), m, C
        except np.linalg.LinAlgError:
            pass
    return randvars.Normal(m, C), m, C


def push(m, P, H, b, R):
    """Moments of H x + b + r and Cov(x, Hx)."""
    return H @ m + b, H @ P @ H.T + R, P @ H.T


def condition(m, P, H, b, R, y):
    mu, S, C = push(m, P, H, b, R)
    K = np.linalg.solve(S, C.T).T
    return m + K @ (y - mu), P - K @ S @ K.T


def rts(m, P, H, b, R, ms, Ps):
    """Smoothing step: next state z = Hx + noise is distributed as N(ms, Ps)."""
    mu, S, C = push(m, P, H, b, R)
    K = np.linalg.solve(S, C.T).T
    return m + K @ (ms - mu), P + K @ (Ps - S) @ K.T


def joint(m0, P0, steps):
    """Joint mean and covariance of a chain x0, x1 = A x0 + b + N(0, Q), ..."""
    ms, blocks = [m0], {(0, 0): P0}
    for i, (A, b, Q) in enumerate(steps):
        ms.append(A @ ms[-1] + b)
        for j in range(i + 1):
            blocks[(i + 1, j)] = A @ blocks[(i, j)]
            blocks[(j, i + 1)] = blocks[(i + 1, j)].T
        blocks[(i + 1, i + 1)] = A @ blocks[(i, i)] @ A.T + Q
    N = len(ms)
    return np.concatenate(ms), np.block([[blocks[(i, j)] for j in range(N)]
                                         for i in range(N)])


def condition_joint(M, C, obs):
    """Condition a joint Gaussian on a list of (index slice, H, b, R, y)."""
    if not obs:
        return M, C
    rows, rhs, Rs = [], [], []
    for sl, H, b, R, y in obs:
        G = np.zeros((H.shape[0], len(M)))
        G[:, sl] = H
        rows.append(G)
        rhs.append(y - b)
        Rs.append(R)
    G, r = np.vstack(rows), np.concatenate(rhs)
    import scipy.linalg
    Rb = scipy.linalg.block_diag(*Rs)
    return condition(M, C, G, np.zeros(len(r)), Rb, r)


def check_normal(d, rv, m, P, tol, what, chol=True):
    d.check(isinstance(rv, randvars.Normal), "%s: result is a %s" % (what, type(rv).__name__))
    d.check(close(dense(rv.mean), m, tol), "%s: mean %s, expected %s", what, dense(rv.mean), m)
    C = dense(rv.cov)
    d.check(close(C, P, tol), "%s: cov %s, expected %s", what, C, P)
    if chol and rv.cov_cholesky_is_precomputed:
        S = dense(rv.cov_cholesky)
        d.check(close(S @ S.T, P, tol), "%s: cov_cholesky squares to %s, cov %s", what, S @ S.T, P)
        d.check(np.max(np.abs(np.triu(S, 1)), initial=0) <= 1e-8 * max(1, np.max(np.abs(S))),
                "%s: cov_cholesky is not lower triangular: %s", what, S)


def mag(*arrs):
    return max([1.0] + [float(np.max(np.abs(a), initial=0)) for a in arrs])


class Model:
    """A (time-varying) linear Gaussian transition with its exact matrices."""

    def __init__(self, d, n_in, n_out, fwd="classic", bwd="classic", tv=None, noise=None,
                 cls=None):
        self.n_in, self.n_out, self.fwd, self.bwd = n_in, n_out, fwd, bwd
        self.tv = d.bool() if tv is None else tv
        self.H0 = d.array((n_out, n_in), -2, 2)
        self.b0 = d.array(n_out, -2, 2)
        self.R0 = covmat(d, n_out)
        self.chol = d.bool()
        if self.tv:
            self.H1 = d.array((n_out, n_in), -1, 1)
            self.b1 = d.array(n_out, -1, 1)
        noise = noise or d.weighted([(6, "normal"), (1, "constant")])
        if noise == "constant":
            self.R0 = np.zeros((n_out, n_out))
        self.noise = noise
        if self.tv:
            self.tr = discrete.LinearGaussian(
                input_dim=n_in, output_dim=n_out, transition_matrix_fun=self.H,
                noise_fun=self.noise_rv, forward_implementation=fwd,
                backward_implementation=bwd)
        elif noise == "constant" and d.bool():
            self.tr = discrete.LTIGaussian.from_linop(
                self.H0, self.b0, forward_implementation=fwd, backward_implementation=bwd)
        else:
            self.tr = discrete.LTIGaussian(
                transition_matrix=self.H0, noise=self.noise_rv(0.0),
                forward_implementation=fwd, backward_implementation=bwd)
        d.label(type(self.tr).__name__, "fwd:" + fwd, "bwd:" + bwd, "noise:" + noise)

    def H(self, t):
        return self.H0 + t * self.H1 if self.tv else self.H0.copy()

    def b(self, t):
        return self.b0 + t * self.b1 if self.tv else self.b0.copy()

    def R(self, t):
        return self.R0 * (1 + t * t) if self.tv else self.R0.copy()

    def noise_rv(self, t):
        if self.noise == "constant":
            return randvars.Constant(self.b(t))
        R = self.R(t)
        if self.chol:
            return randvars.Normal(self.b(t), R, np.linalg.cholesky(R))
        return randvars.Normal(self.b(t), R)

    def at(self, t, dif=1.0):
        return self.H(t), self.b(t), dif * self.R(t)

    def desc(self):
        return "H=%s b=%s R=%s%s" % (L.fmt(self.H0), L.fmt(self.b0), L.fmt(self.R0),
                                     " H1=%s b1=%s" % (L.fmt(self.H1), L.fmt(self.b1))
                                     if self.tv else "")
