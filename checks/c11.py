"""C11 Continuous-time priors: discretisation, preconditioning, moments, diffusions, sampling."""
import warnings

import numpy as np
import scipy.linalg
import scipy.special

from probnum import randprocs, randvars
from probnum.randprocs.markov import continuous, integrator
from pbt.runner import Sub
from . import libgauss as G
from . import liblinops as L
from .librv import close, dense

RULE = ("A case is a linear SDE or integrator prior, a step and state distributions (or a "
        "history of diffusion estimates); non-trivial if results were compared with the exact "
        "solution of the SDE (matrix exponential and quadrature of the variation-of-constants "
        "formula).")

GX, GW = np.polynomial.legendre.leggauss(24)


def exact(F, v, LL, dt):
    """A = exp(F dt), s = int exp(Fu) v du, Q = int exp(Fu) LL exp(Fu)^T du."""
    n = len(F)
    # panels such that |F| du <= 1 each
    k = max(1, int(np.ceil(np.linalg.norm(F, 2) * dt)))
    h = dt / k
    E = scipy.linalg.expm(F * h)
    s, Q = np.zeros(n), np.zeros((n, n))
    for x, w in zip(GX, GW):
        u = 0.5 * h * (x + 1)
        M = scipy.linalg.expm(F * u)
        s = s + 0.5 * h * w * (M @ v)
        Q = Q + 0.5 * h * w * (M @ LL @ M.T)
    A1, s1, Q1 = np.eye(n), np.zeros(n), np.zeros((n, n))
    for _ in range(k):
        A1, s1, Q1 = E @ A1, E @ s1 + s, E @ Q1 @ E.T + Q
    return A1, s1, Q1


def lti(d):
    n, w = d.size(1, 4, 7), d.size(1, 4, 7)
    F = d.array((n, n), -1.5, 1.5, den=4)
    v = d.array(n, -2, 2) if d.bool() else np.zeros(n)
    Lm = d.array((n, w), -2, 2, den=4)
    dt = d.pick([0.5, 1.0, 0.125, 2.0, 0.01])
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    d.note("sde", "F=%s v=%s L=%s dt=%s %s/%s" % (L.fmt(F), L.fmt(v), L.fmt(Lm), dt, fwd, bwd))
    A, s, Q = exact(F, v, Lm @ Lm.T, dt)
    ev = np.linalg.eigvalsh(Q)
    if "sqrt" in (fwd, bwd):
        d.assume(ev[0] > 1e-7 * max(ev[-1], 1e-3))
    sde = continuous.LTISDE(F, v, Lm, forward_implementation=fwd, backward_implementation=bwd)
    disc = sde.discretise(dt)
    tol = 1e-8 * G.mag(A, s, Q) * max(1, G.mag(A))
    d.check(close(disc.transition_matrix, A, tol), "transition matrix %s, expected %s",
            disc.transition_matrix, A)
    d.check(close(disc.noise.mean, s, tol), "shift %s, expected %s", disc.noise.mean, s)
    d.check(close(disc.noise.cov, Q, tol), "process noise %s, expected %s", disc.noise.cov, Q)
    rv, m, P = G.normal(d, n)
    dif = d.weighted([(3, 1.0), (1, 4.0), (1, 0.5)])
    t = d.pick([0.0, 1.5, -1.0])
    mu, S, C = G.push(m, P, A, s, dif * Q)
    es = np.linalg.eigvalsh(S)
    d.assume(es[0] > 1e-4 * max(1e-2, es[-1] * 1e-2))
    tol = tol * G.mag(mu, S, P, m) * max(1, G.mag(C) / es[0])
    out, info = sde.forward_rv(rv, t, dt=dt, compute_gain=True, _diffusion=dif)
    G.check_normal(d, out, mu, S, tol, "forward_rv")
    d.check(close(info["gain"], np.linalg.solve(S, C.T).T, tol), "gain")
    x = d.array(n, -2, 2)
    out, _ = sde.forward_realization(x, t, dt=dt, _diffusion=dif)
    d.check(close(out.mean, A @ x + s, tol) and close(out.cov, dif * Q, tol),
            "forward_realization N(%s, %s), expected N(%s, %s)", out.mean, out.cov, A @ x + s,
            dif * Q)
    nxt, m2, P2 = G.normal(d, n)
    tol = tol * G.mag(m2, P2) * max(1, G.mag(C) / es[0])
    wm, wP = G.rts(m, P, A, s, dif * Q, m2, P2)
    out, _ = sde.backward_rv(nxt, rv, t=t, dt=dt, _diffusion=dif)
    G.check_normal(d, out, wm, wP, tol, "backward_rv")
    wm, wP = G.rts(m, P, A, s, dif * Q, x, 0 * P2)
    out, _ = sde.backward_realization(x, rv, t=t, dt=dt, _diffusion=dif)
    G.check_normal(d, out, wm, wP, tol, "backward_realization")
    d.nontrivial()


def prior(d, fwd, bwd, max_q=4):
    """An integrator transition together with its SDE matrices, written down independently."""
    kind = d.pick(["iwp", "ioup", "matern"])
    q, dim = d.int(0, max_q if kind == "iwp" else min(max_q, 3)), d.int(1, 3)
    F1 = np.zeros((q + 1, q + 1))
    for i in range(q):
        F1[i, i + 1] = 1.0
    kw = dict(forward_implementation=fwd, backward_implementation=bwd)
    if kind == "iwp":
        tr = integrator.IntegratedWienerTransition(q, dim, **kw)
        par = ""
    elif kind == "ioup":
        r = d.pick([1.0, 0.5, 3.0, -0.5])
        F1[q, q] = -r
        tr = integrator.IntegratedOrnsteinUhlenbeckTransition(q, dim, driftspeed=r, **kw)
        par = "driftspeed=%s" % r
    else:
        ell = d.pick([1.0, 2.0, 0.5])
        lam = np.sqrt(2 * q + 1) / ell
        # (d/dt + lam)^(q+1) x = w
        coef = np.poly([-lam] * (q + 1))[::-1]       # ascending, monic
        F1[q, :] = -coef[:q + 1]
        tr = integrator.MaternTransition(q, dim, lengthscale=ell, **kw)
        par = "lengthscale=%s" % ell
    L1 = np.zeros((q + 1, 1))
    L1[q, 0] = 1.0
    d.label(kind, "q=%d" % q)
    desc = "%s(q=%d, d=%d%s) %s/%s" % (kind, q, dim, ", " + par if par else "", fwd, bwd)
    return tr, kind, q, dim, F1, L1, desc


def kron(dim, M):
    return np.kron(np.eye(dim), M)


def scaling(q, dt):
    """Natural magnitude of the i-th derivative over a step dt."""
    i = np.arange(q, -1, -1)
    return dt ** (i + 0.5) / scipy.special.factorial(i)


def integrators(d):
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    tr, kind, q, dim, F1, L1, desc = prior(d, fwd, bwd)
    dt = d.pick([1.0, 0.5, 0.125, 2.0, 0.01])
    t, dif = d.pick([0.0, 1.5]), d.weighted([(3, 1.0), (1, 4.0), (1, 0.25)])
    d.note("prior", "%s dt=%s t=%s diffusion=%s" % (desc, dt, t, dif))
    n = dim * (q + 1)
    F, Lm = kron(dim, F1), kron(dim, L1)
    d.check(close(tr.drift_matrix, F, 1e-9 * G.mag(F)), "drift %s, expected %s", tr.drift_matrix, F)
    d.check(close(tr.dispersion_matrix, Lm, 0), "dispersion %s", tr.dispersion_matrix)
    d.check(close(tr.force_vector, np.zeros(n), 0), "force %s", tr.force_vector)
    if kind == "iwp":
        A1 = np.array([[dt ** (j - i) / scipy.special.factorial(j - i) if j >= i else 0.0
                        for j in range(q + 1)] for i in range(q + 1)])
        Q1 = np.array([[dt ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j)
                        * scipy.special.factorial(q - i) * scipy.special.factorial(q - j))
                        for j in range(q + 1)] for i in range(q + 1)])
    else:
        A1, _, Q1 = exact(F1, np.zeros(q + 1), L1 @ L1.T, dt)
    A, Q = kron(dim, A1), kron(dim, Q1)
    T = np.tile(scaling(q, dt), dim)
    disc = tr.discretise(dt)
    # compare in units in which all entries are of order one
    rel = lambda X, Y, t0, t1, tol: close(X / t0[:, None] / t1[None, :],
                                          Y / t0[:, None] / t1[None, :], tol)
    big = G.mag(A / T[:, None] * T[None, :], Q / np.outer(T, T))
    d.check(rel(disc.transition_matrix, A, T, 1 / T, 1e-7 * big), "discretise: A %s, expected %s",
            disc.transition_matrix, A)
    if kind != "iwp":
        # matrix fraction decomposition without preconditioning: absolute accuracy
        d.check(close(disc.noise.cov, Q, 1e-9 * G.mag(A, Q)), "discretise: Q %s, expected %s",
                disc.noise.cov, Q)
    else:
        d.check(rel(disc.noise.cov, Q, T, T, 1e-7 * big), "discretise: Q %s, expected %s",
                disc.noise.cov, Q)
    d.check(close(disc.noise.mean, np.zeros(n), 0), "discretise: shift")
    # states in natural units
    def state():
        rv, m, P = G.normal(d, n)
        return T * m, P * np.outer(T, T)
    (m, P), (m2, P2) = state(), state()
    mk = lambda mm, PP, c: (randvars.Normal(mm, PP, T[:, None] * np.linalg.cholesky(PP / np.outer(T, T)))
                            if c else randvars.Normal(mm, PP))
    # without a factor, the (absolute) damping of the Cholesky decomposition must not matter
    tiny = np.min(T) ** 2 < 1e-4
    rv = mk(m, P, d.bool() or "sqrt" in (fwd, bwd) or tiny)
    nxt = mk(m2, P2, d.bool() or bwd == "sqrt" or tiny)
    mu, S, C = G.push(m, P, A, np.zeros(n), dif * Q)
    Sn = S / np.outer(T, T)
    ev = np.linalg.eigvalsh(Sn)
    d.assume(ev[0] > 1e-6 * ev[-1])
    tol = 1e-8 * G.mag(Sn, mu / T, m / T, P / np.outer(T, T)) * max(1, G.mag(C / np.outer(T, T)) / ev[0]) * big
    tol += 1e-11 / max(np.min(T) ** 2, 1e-4)

    def cmp(rv_, wm, wP, what, tol):
        d.check(isinstance(rv_, randvars.Normal), what + " type")
        d.check(close(dense(rv_.mean) / T, wm / T, tol), "%s: mean %s, expected %s", what, rv_.mean, wm)
        d.check(rel(dense(rv_.cov), wP, T, T, tol), "%s: cov %s, expected %s", what, rv_.cov, wP)
        if rv_.cov_cholesky_is_precomputed:
            Sx = dense(rv_.cov_cholesky)
            d.check(rel(Sx @ Sx.T, wP, T, T, tol), "%s: cov_cholesky does not square to cov", what)

    out, info = tr.forward_rv(rv, t, dt=dt, compute_gain=True, _diffusion=dif)
    cmp(out, mu, S, "forward_rv", tol)
    Tn = T
    K = (np.linalg.solve(Sn, (C / np.outer(T, T)).T).T) * T[:, None] / T[None, :]
    d.check(rel(info["gain"], K, T, 1 / T, tol), "gain %s, expected %s", info["gain"], K)
    d.check(rel(info["crosscov"], C, T, T, tol), "crosscov %s, expected %s", info["crosscov"], C)
    tol2 = tol * G.mag(m2 / T, P2 / np.outer(T, T)) * max(1, G.mag(C / np.outer(T, T)) / ev[0])
    gn = K / T[:, None] * T[None, :]
    wm = T * (m / T + gn @ ((m2 - mu) / T))
    wP = P + np.outer(T, T) * (gn @ ((P2 - S) / np.outer(T, T)) @ gn.T)
    reuse = d.pick(["none", "both", "gain"])
    d.note("reuse", reuse)
    kw = {}
    if reuse == "both":
        kw = dict(rv_forwarded=out, gain=info["gain"])
    elif reuse == "gain":
        kw = dict(gain=info["gain"])
    back, _ = tr.backward_rv(nxt, rv, t=t, dt=dt, _diffusion=dif, **kw)
    cmp(back, wm, wP, "backward_rv", tol2)
    x = T * d.array(n, -2, 2)
    wm = T * (m / T + gn @ ((x - mu) / T))
    wP = P + np.outer(T, T) * (gn @ ((0 - S) / np.outer(T, T)) @ gn.T)
    back, _ = tr.backward_realization(x, rv, t=t, dt=dt, _diffusion=dif, **kw)
    cmp(back, wm, wP, "backward_realization", tol2)
    # discretised model with the same queries
    back, _ = disc.backward_rv(nxt, rv, t=t, _diffusion=dif) if dt >= 0.1 and q <= 2 else (None, 0)
    if back is not None:
        wm = T * (m / T + gn @ ((m2 - mu) / T))
        wP = P + np.outer(T, T) * (gn @ ((P2 - S) / np.outer(T, T)) @ gn.T)
        cmp(back, wm, wP, "discretise(dt).backward_rv", tol2 * 1e3)
    d.nontrivial()


def steps(d):
    """One transition object used with a history of steps: tiny, huge, repeated, nearly equal."""
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    tr, kind, q, dim, F1, L1, desc = prior(d, fwd, bwd)
    n = dim * (q + 1)
    hs = []
    for _ in range(d.size(2, 5, 20)):
        how = d.weighted([(3, "new"), (2, "near"), (1, "again")]) if hs else "new"
        if how == "near":
            h = hs[d.int(0, len(hs) - 1)] * (1 + d.pick([2.0 ** -10, -2.0 ** -16, 2.0 ** -22, 0.5, 1.0, 9.0]))
        elif how == "again":
            h = hs[d.int(0, len(hs) - 1)]
        else:
            h = d.pick([1.0, 0.25, 3.0, 0.01, 1e-3] + ([1e-5, 1e-7, 1e-9, 3e-11, 50.0] if kind == "iwp" else []))
        hs.append(h)
    d.note("steps", "%s steps %s" % (desc, hs))
    rel = lambda X, t0, t1: np.asarray(X) / t0[:, None] / t1[None, :]
    for h in hs:
        P_, Pi = dense(tr.precon(h)), dense(tr.precon.inverse(h))
        d.check(close(P_ @ Pi, np.eye(n), 1e-12), "precon(%s) and its inverse: %s", h, P_ @ Pi)
        T = np.tile(scaling(q, h), dim)
        d.check(close(P_ / T[:, None], np.eye(n), 1e-12), "precon(%s) = %s, expected diagonal %s", h, P_, T)
        if kind != "iwp" and h > 8:
            continue
        if kind == "iwp":
            A1 = np.array([[h ** (j - i) / scipy.special.factorial(j - i) if j >= i else 0.0
                            for j in range(q + 1)] for i in range(q + 1)])
            Q1 = np.array([[h ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j)
                            * scipy.special.factorial(q - i) * scipy.special.factorial(q - j))
                            for j in range(q + 1)] for i in range(q + 1)])
        else:
            A1, _, Q1 = exact(F1, np.zeros(q + 1), L1 @ L1.T, h)
        A, Q = kron(dim, A1), kron(dim, Q1)
        disc = tr.discretise(h)
        if kind == "iwp":
            d.check(close(rel(disc.transition_matrix, T, 1 / T), rel(A, T, 1 / T), 1e-9 * G.mag(rel(A, T, 1 / T))),
                    "discretise(%s): A %s, expected %s", h, disc.transition_matrix, A)
            d.check(close(rel(disc.noise.cov, T, T), rel(Q, T, T), 1e-9 * G.mag(rel(Q, T, T))),
                    "discretise(%s): Q %s, expected %s", h, disc.noise.cov, Q)
            m = T * d.array(n, -2, 2)
            rv = randvars.Normal(m, np.diag(T**2), np.diag(T))
            out, _ = tr.forward_rv(rv, 0.0, dt=h)
            S = A @ np.diag(T**2) @ A.T + Q
            d.check(close(out.mean / T, A @ m / T, 1e-8 * G.mag(rel(A, T, 1 / T))), "forward_rv with step %s: mean %s, expected %s",
                    h, out.mean, A @ m)
            d.check(close(rel(out.cov, T, T), rel(S, T, T), 1e-7 * G.mag(rel(S, T, T))), "forward_rv with step %s: cov %s, expected %s",
                    h, out.cov, S)
        else:
            # matrix fraction decomposition: round-off is amplified by exp(-F h)
            amp = G.mag(A, Q, scipy.linalg.expm(-F1 * h))
            d.check(close(disc.transition_matrix, A, 1e-9 * amp), "discretise(%s): A %s, expected %s", h,
                    disc.transition_matrix, A)
            d.check(close(disc.noise.cov, Q, 1e-9 * amp), "discretise(%s): Q %s, expected %s", h, disc.noise.cov, Q)
    d.nontrivial()


def matern_stationary(d):
    """The stationary covariance of the Matern prior is the Matern kernel (up to scale)."""
    q, dim = d.int(0, 3), d.int(1, 2)
    ell = d.pick([1.0, 0.5, 2.0, 3.0])
    proc = integrator.MaternProcess(lengthscale=ell, initarg=0.0, num_derivatives=q,
                                    wiener_process_dimension=dim)
    tr = proc.transition
    F, Lm = tr.drift_matrix, tr.dispersion_matrix
    P = scipy.linalg.solve_continuous_lyapunov(F, -Lm @ Lm.T)
    r = d.pick([0.1, 0.5, 1.0, 2.5])
    d.note("case", "q=%d d=%d lengthscale=%s r=%s" % (q, dim, ell, r))
    m = np.zeros(len(F))
    out, info = tr.forward_rv(randvars.Normal(m, P), 0.0, dt=r)
    tol = 1e-6 * G.mag(P)
    d.check(close(out.cov, P, tol), "the stationary covariance is not preserved: %s, %s", out.cov, P)
    H = np.asarray(tr.proj2coord(0))
    k = randprocs.covfuncs.Matern((), nu=q + 0.5, lengthscales=ell)
    want = float(k(0.0, r)) * (H @ P @ H.T)
    disc = tr.discretise(r)
    got = H @ disc.transition_matrix @ P @ H.T
    d.check(close(got, want, tol), "Cov(x(r), x(0)) = %s, Matern kernel gives %s", got, want)
    d.nontrivial()


def mde(d):
    """Moment differential equations of time-varying linear SDEs."""
    n, w = d.int(1, 3), d.int(1, 3)
    F = d.array((n, n), -1, 1, den=4)
    v = d.array(n, -2, 2, den=4)
    Lm = d.array((n, w), -1, 1, den=4)
    a = d.pick([0.0, 0.5, 1.0])                   # time change tau'(t) = 1 + a t
    fwd = d.pick(["classic", "sqrt"])
    t, dt = d.pick([0.0, 0.5]), d.pick([0.5, 1.0, 0.25])
    dif = d.weighted([(3, 1.0), (1, 2.0), (1, 0.25)])
    d.note("sde", "F=%s v=%s L=%s tau'=1+%s t, t=%s dt=%s dif=%s %s" % (
        L.fmt(F), L.fmt(v), L.fmt(Lm), a, t, dt, dif, fwd))
    g = lambda s: 1 + a * s
    tau = dt + a * ((t + dt) ** 2 - t ** 2) / 2
    sde = continuous.LinearSDE(
        state_dimension=n, wiener_process_dimension=w,
        drift_matrix_function=lambda s: g(s) * F, force_vector_function=lambda s: g(s) * v,
        dispersion_matrix_function=lambda s: np.sqrt(g(s)) * Lm,
        mde_atol=1e-10, mde_rtol=1e-9, mde_solver=d.pick(["RK45", "LSODA"]),
        forward_implementation=fwd)
    A, s, Q = exact(F, v, Lm @ Lm.T, tau)
    rv, m, P = G.normal(d, n)
    mu, S, C = G.push(m, P, A, s, dif * Q)
    ev = np.linalg.eigvalsh(S)
    ep = np.linalg.eigvalsh(P)
    d.assume(ev[0] > 1e-2 * max(1, ev[-1] * 1e-2) and ep[0] > 1e-2 * ep[-1])
    tol = 1e-5 * G.mag(mu, S, P, m)
    out, _ = sde.forward_rv(rv, t, dt=dt, _diffusion=dif)
    G.check_normal(d, out, mu, S, tol, "forward_rv")
    m2 = mu + d.array(n, -1, 1)
    P2 = S * d.pick([0.5, 0.75, 1.0])
    tol *= max(1, G.mag(C) / ev[0]) ** 2
    back, _ = sde.backward_rv(randvars.Normal(m2, P2), rv, t=t, dt=dt, _diffusion=dif)
    G.check_normal(d, back, *G.rts(m, P, A, s, dif * Q, m2, P2), tol, "backward_rv")
    d.nontrivial()


def coordinates(d):
    q, dim = d.int(0, 4), d.int(1, 4)
    tr = integrator.IntegratedWienerTransition(q, dim)
    x = d.array(dim * (q + 1), -4, 4)             # coordinate-wise
    X = x.reshape(dim, q + 1)
    for i in range(q + 1):
        got = np.asarray(tr.proj2coord(i)) @ x
        d.check(close(got, X[:, i], 0), "proj2coord(%d) %s, expected %s", i, got, X[:, i])
    dw = X.T.reshape(-1)
    conv = integrator.convert
    d.check(close(conv.convert_coordwise_to_derivwise(x, q, dim), dw, 0), "coordwise to derivwise")
    d.check(close(conv.convert_derivwise_to_coordwise(dw, q, dim), x, 0), "derivwise to coordwise")
    M = np.asarray(tr._derivwise2coordwise_projmat)
    d.check(close(M @ dw, x, 0) and close(np.asarray(tr._coordwise2derivwise_projmat) @ x, dw, 0),
            "projection matrices")
    h = d.pick([0.5, 0.125, 2.0])
    d.check(close(np.asarray(tr.precon(h)) @ np.asarray(tr.precon.inverse(h)), np.eye(len(x)), 1e-12),
            "precon inverse")
    rv, m, P = G.normal(d, len(x))
    d.nontrivial()


def diffusions(d):
    """A history of local estimates, accepted or discarded, with interleaved queries."""
    kind = d.pick(["constant", "piecewise"])
    t0 = d.pick([0.0, 1.0, -2.0])
    dif = continuous.ConstantDiffusion() if kind == "constant" else continuous.PiecewiseConstantDiffusion(t0)
    d.note("kind", "%s t0=%s" % (kind, t0))
    try:
        dif(t0)
        d.fail("a diffusion without estimates returned a value")
    except NotImplementedError:
        pass
    t, vals, locs = t0, [], [t0]
    log = []
    for _ in range(d.size(1, 5, 20)):
        t = t + d.pick([0.5, 1.0, 0.25])
        n = d.int(1, 3)
        rv, m, P = G.normal(d, n)
        rv0, m0, P0 = G.normal(d, n)
        est = dif.estimate_locally(rv, rv0, t)
        mm, PP = (m, P) if kind == "constant" else (m0, P0)
        want = float(mm @ np.linalg.solve(PP, mm)) / n
        d.check(abs(est - want) <= 1e-7 * max(1, want), "local estimate %s, expected %s", est, want)
        if d.bool(2, 3) or not vals:
            dif.update_in_place(est, t)
            vals.append(want)
            locs.append(t)
            log.append("accept t=%s est=%.4g" % (t, want))
        else:
            t = locs[-1]
            log.append("discard")
        tol = 1e-6 * max([1] + vals)
        qs = [locs[0] - 1.0, locs[0], locs[-1], locs[-1] + 1.0, d.pick(locs)]
        i = d.int(0, len(locs) - 2)
        qs.append(0.5 * (locs[i] + locs[i + 1]))

        def ref(s):
            if kind == "constant":
                return np.mean(vals)
            for k in range(len(vals)):
                if s < locs[k + 1]:
                    return vals[k]
            return vals[-1]
        w = np.array([ref(s) for s in qs])
        got = np.array([float(dif(s)) for s in qs])
        d.note("history", log)
        d.check(close(got, w, tol), "diffusion at %s is %s, expected %s", qs, got, w)
        d.check(close(dif(np.array(qs)), w, tol), "diffusion at array %s is %s, expected %s", qs,
                dif(np.array(qs)), w)
        j = d.int(0, len(vals) - 1)
        wj = np.mean(vals) if kind == "constant" else vals[j]
        d.check(abs(dif[j] - wj) <= tol, "diffusion[%d] %s, expected %s", j, dif[j], wj)
    d.nontrivial()


N = 500


def sampling(d):
    """Samples of a Markov process have its joint Gaussian distribution."""
    tr, kind, q, dim, F1, L1, desc = prior(d, "classic", "classic", max_q=1)
    n = dim * (q + 1)
    rv0, m0, P0 = G.normal(d, n)
    t0 = d.pick([0.0, 1.0])
    proc = randprocs.markov.MarkovProcess(initarg=t0, initrv=rv0, transition=tr)
    K = d.int(1, 3)
    first = t0 + d.pick([0.0, 0.5])
    ts = first + np.concatenate(([0.0], np.cumsum([d.pick([0.5, 1.0]) for _ in range(K - 1)])))
    size = d.pick([(N,), (N // 5, 5), (5, N // 10, 2)])
    seed = d.seed()
    d.note("case", "%s init N(%s,%s) at %s, samples at %s, size %s seed %s" % (
        desc, L.fmt(m0), L.fmt(P0), t0, L.fmt(ts), size, seed))
    grid = ts if first == t0 else np.concatenate(([t0], ts))
    steps = []
    for h in np.diff(grid):
        A1, _, Q1 = exact(F1, np.zeros(q + 1), L1 @ L1.T, h)
        steps.append((kron(dim, A1), np.zeros(n), kron(dim, Q1)))
    M, C = G.joint(m0, P0, steps)
    if first != t0:
        M, C = M[n:], C[n:, n:]
    small = d.pick([(), (2,), 3, (2, 2)])
    s = proc.sample(np.random.default_rng(seed), args=ts, size=small)
    sh = (small,) if isinstance(small, int) else small
    d.check(s.shape == sh + (K, n), "sample shape %s, expected %s", s.shape, sh + (K, n))
    d.check(np.array_equal(s, proc.sample(np.random.default_rng(seed), args=ts, size=small)),
            "not reproducible from the seed")
    one = proc.sample(np.random.default_rng(seed), args=float(ts[0]))
    d.check(np.shape(one) == (n,), "sample at a single input has shape %s", np.shape(one))
    s = proc.sample(np.random.default_rng(seed), args=ts, size=size)
    d.check(s.shape == size + (K, n), "sample shape %s, expected %s", s.shape, size + (K, n))
    Z = s.reshape(N, -1) - M
    W = np.linalg.solve(np.linalg.cholesky(C + 1e-12 * np.eye(len(C)) * G.mag(C)), Z.T).T
    d.check(np.max(np.abs(W.mean(0))) < 7 / np.sqrt(N), "standardised sample mean %s", W.mean(0))
    E = W.T @ W / N - np.eye(len(M))
    d.check(np.max(np.abs(E)) < 7 * np.sqrt(2 / N) * 1.3, "standardised sample covariance off by %s", E)
    d.nontrivial()


def initial(d):
    """Default and diffuse initial distributions of the integrator processes."""
    q, dim = d.int(0, 3), d.int(1, 3)
    kind = d.pick(["iwp", "ioup", "matern"])
    diffuse = d.bool()
    t0 = d.pick([0.0, -1.5, 3.0])
    kw = dict(initarg=t0, num_derivatives=q, wiener_process_dimension=dim, diffuse=diffuse)
    n = (q + 1) * dim
    own = d.bool(1, 3)
    if own:
        kw["initrv"], m, P = G.normal(d, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "iwp":
            p = integrator.IntegratedWienerProcess(**kw)
        elif kind == "ioup":
            p = integrator.IntegratedOrnsteinUhlenbeckProcess(driftspeed=1.0, **kw)
        else:
            p = integrator.MaternProcess(lengthscale=1.0, **kw)
    d.note("case", "%s q=%d d=%d diffuse=%s own=%s" % (kind, q, dim, diffuse, own))
    if not own:
        m, P = np.zeros(n), np.eye(n) * (1e6 if diffuse else 1.0)
    d.check(p.initarg == t0, "initarg")
    G.check_normal(d, p.initrv, m, P, 1e-6, "initrv")
    d.nontrivial()


SUBS = [
    Sub("lti", lti, 900, 15000),
    Sub("integrators", integrators, 900, 15000),
    Sub("steps", steps, 300, 5000),
    Sub("matern_stationary", matern_stationary, 60, 400),
    Sub("mde", mde, 50, 800),
    Sub("coordinates", coordinates, 200, 2000),
    Sub("diffusions", diffusions, 1000, 15000),
    Sub("sampling", sampling, 40, 500),
    Sub("initial", initial, 100, 1000),
]
