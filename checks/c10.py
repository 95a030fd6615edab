"""C10 Discrete Gaussian transitions: exact prediction, conditioning, smoothing, sampling."""
import warnings

import numpy as np

import probnum as pn
from probnum import linops, randvars
from probnum.randprocs.markov import discrete
from pbt.runner import Sub
from . import libgauss as G
from . import liblinops as L
from .librv import close, dense

RULE = ("A case is a (time-varying) linear Gaussian transition with an implementation choice, "
        "state distributions and a query; non-trivial if the predicted covariance is "
        "well conditioned and the result was compared with exact Gaussian conditioning.")

FWD = ["classic", "sqrt"]
BWD = ["classic", "sqrt", "joseph"]
DIF = [(4, 1.0), (1, 2.0), (1, 0.25), (1, 9.0)]


def setup(d):
    n, m = d.size(1, 4, 9), d.size(1, 4, 9)
    fwd, bwd = d.pick(FWD), d.pick(BWD)
    mod = G.Model(d, n, m, fwd, bwd)
    rv, mean, P = G.normal(d, n)
    t = d.pick([0.0, 1.0, 0.5, -2.0])
    dif = d.weighted(DIF)
    d.note("model", "%s fwd=%s bwd=%s t=%s diffusion=%s" % (mod.desc(), fwd, bwd, t, dif))
    d.note("rv", "N(%s, %s)%s" % (L.fmt(mean), L.fmt(P),
                                  " with factor" if rv.cov_cholesky_is_precomputed else ""))
    H, b, R = mod.at(t, dif)
    mu, S, C = G.push(mean, P, H, b, R)
    ev = np.linalg.eigvalsh(S)
    d.assume(ev[0] > 1e-3 * max(1e-2, ev[-1] * 1e-2))
    tol = 1e-7 * G.mag(mu, S, P, mean) * max(1, G.mag(C) / ev[0])
    return mod, rv, mean, P, t, dif, (H, b, R), (mu, S, C), tol


def forward(d):
    mod, rv, mean, P, t, dif, _, (mu, S, C), tol = setup(d)
    K = np.linalg.solve(S, C.T).T
    cg = d.bool()
    kw = {} if dif == 1.0 and d.bool() else {"_diffusion": dif}
    out, info = mod.tr.forward_rv(rv, t, compute_gain=cg, **kw)
    G.check_normal(d, out, mu, S, tol, "forward_rv")
    d.check(close(dense(info["crosscov"]), C, tol), "crosscov %s, expected %s", info["crosscov"], C)
    if cg:
        d.check(close(dense(info["gain"]), K, tol), "gain %s, expected %s", info["gain"], K)
    x = d.array(mod.n_in, -3, 3)
    H, b, R = mod.at(t, dif)
    out, _ = mod.tr.forward_realization(x, t, **kw)
    d.check(close(dense(out.mean), H @ x + b, tol), "forward_realization mean %s, expected %s",
            out.mean, H @ x + b)
    d.check(close(dense(out.cov), R, tol), "forward_realization cov %s, expected %s", out.cov, R)
    d.check(close(rv.mean, mean, 0) and close(rv.cov, P, 0), "input modified")
    d.nontrivial()


def given(d, mod, rv, t, kw):
    """Optionally pass the forward quantities that the backward step may reuse."""
    how = d.pick(["none", "both", "none", "gain", "rv"])
    d.label("reuse:" + how)
    d.note("reuse", how)
    if how == "none":
        return {}
    f, info = mod.tr.forward_rv(rv, t, compute_gain=True, **kw)
    out = {}
    if how in ("both", "rv"):
        out["rv_forwarded"] = f
    if how in ("both", "gain"):
        out["gain"] = info["gain"]
    return out


def backward_realization(d):
    mod, rv, mean, P, t, dif, (H, b, R), (mu, S, C), tol = setup(d)
    kw = {} if dif == 1.0 and d.bool() else {"_diffusion": dif}
    y = d.array(mod.n_out, -4, 4)
    d.note("y", L.fmt(y))
    tol *= G.mag(y)
    m1, P1 = G.condition(mean, P, H, b, R, y)
    out, _ = mod.tr.backward_realization(y, rv, t=t, **given(d, mod, rv, t, kw), **kw)
    G.check_normal(d, out, m1, P1, tol, "backward_realization")
    d.check(close(rv.mean, mean, 0) and close(rv.cov, P, 0), "input modified")
    d.nontrivial()


def backward_rv(d):
    mod, rv, mean, P, t, dif, (H, b, R), (mu, S, C), tol = setup(d)
    kw = {} if dif == 1.0 and d.bool() else {"_diffusion": dif}
    nxt, m2, P2 = G.normal(d, mod.n_out)
    d.note("rv_obtained", "N(%s, %s)" % (L.fmt(m2), L.fmt(P2)))
    tol *= G.mag(m2, P2)
    tol *= max(1, G.mag(C) / np.linalg.eigvalsh(S)[0])
    m1, P1 = G.rts(mean, P, H, b, R, m2, P2)
    out, _ = mod.tr.backward_rv(nxt, rv, t=t, **given(d, mod, rv, t, kw), **kw)
    G.check_normal(d, out, m1, P1, tol, "backward_rv")
    d.check(close(rv.mean, mean, 0) and close(rv.cov, P, 0) and close(nxt.mean, m2, 0)
            and close(nxt.cov, P2, 0), "input modified")
    d.nontrivial()


def matrix_free(d):
    """Classic implementation with linear-operator covariances."""
    n, m = d.size(1, 3, 7), d.size(1, 3, 7)
    H, b = d.array((m, n), -2, 2), d.array(m, -2, 2)
    R, P, mean = G.spd(d, m), G.spd(d, n), d.array(n, -3, 3)
    dif = d.weighted(DIF)
    y = d.array(m, -3, 3)
    d.note("model", "H=%s b=%s R=%s P=%s mean=%s dif=%s y=%s" % tuple(
        map(L.fmt, (H, b, R, P, mean, dif, y))))
    mu, S, C = G.push(mean, P, H, b, dif * R)
    ev = np.linalg.eigvalsh(S)
    d.assume(ev[0] > 1e-3 * max(1e-2, ev[-1] * 1e-2))
    tol = 1e-7 * G.mag(mu, S, P, mean, y) * max(1, G.mag(C) / ev[0]) ** 2
    with warnings.catch_warnings(), pn.config(matrix_free=True):
        warnings.simplefilter("ignore")
        tr = discrete.LTIGaussian(transition_matrix=linops.aslinop(H),
                                  noise=randvars.Normal(b, linops.aslinop(R)))
        rv = randvars.Normal(mean, linops.aslinop(P))
        out, info = tr.forward_rv(rv, 0.0, compute_gain=True, _diffusion=dif)
        G.check_normal(d, out, mu, S, tol, "forward_rv (matrix free)")
        d.check(close(dense(info["gain"]), np.linalg.solve(S, C.T).T, tol), "gain")
        nxt, m2, P2 = randvars.Normal(y, linops.aslinop(S)), y, S
        back, _ = tr.backward_rv(nxt, rv, t=0.0, _diffusion=dif)
        G.check_normal(d, back, *G.rts(mean, P, H, b, dif * R, m2, P2), tol,
                       "backward_rv (matrix free)")
    d.nontrivial()


def nonlinear(d):
    """x -> g(t, x) + noise evaluated at a realization."""
    n, m = d.size(1, 3, 7), d.size(1, 3, 7)
    A, B = d.array((m, n), -2, 2), d.array((m, n), -1, 1)
    b, R = d.array(m, -2, 2), G.spd(d, m)
    dif = d.weighted(DIF)
    const = d.bool(1, 4)
    fun = lambda t, x: A @ x + t * (B @ (x * x))
    if const and d.bool():
        tr = discrete.NonlinearGaussian.from_callable(n, m, fun, None)
        b, R = 0 * b, 0 * R
    else:
        noise = (lambda t: randvars.Constant((1 + t) * b)) if const else (
            lambda t: randvars.Normal((1 + t) * b, (1 + t * t) * R))
        tr = discrete.NonlinearGaussian(input_dim=n, output_dim=m, transition_fun=fun,
                                        noise_fun=noise)
    t = d.pick([0.0, 1.0, 0.5])
    x = d.array(n, -2, 2)
    kw = {} if dif == 1.0 and d.bool() else {"_diffusion": dif}
    d.note("case", "A=%s B=%s b=%s R=%s t=%s x=%s dif=%s const=%s" % (
        L.fmt(A), L.fmt(B), L.fmt(b), L.fmt(R), t, L.fmt(x), dif, const))
    rv, _ = tr.forward_realization(x, t, **kw)
    wm = fun(t, x) + (1 + t) * b
    wc = dif * (1 + t * t) * R if not const else 0 * R
    tol = 1e-8 * G.mag(wm, wc)
    d.check(close(dense(rv.mean), wm, tol), "mean %s, expected %s", rv.mean, wm)
    d.check(close(dense(rv.cov), wc, tol), "cov %s, expected %s", rv.cov, wc)
    d.nontrivial()


def chain(d):
    """Smoothing and joint sampling of a chain against the joint Gaussian."""
    n = d.size(1, 3, 6)
    N = d.size(1, 4, 15)
    fwd, bwd = d.pick(FWD), d.pick(BWD)
    mod = G.Model(d, n, n, fwd, bwd, noise="normal")
    ts = np.cumsum(np.array([d.pick([0.0, 0.5])] + [d.pick([0.5, 1.0, 0.25]) for _ in range(N)]))
    difs = np.array([d.weighted(DIF) for _ in range(N)])
    rv0, m0, P0 = G.normal(d, n)
    d.note("model", "%s fwd=%s bwd=%s" % (mod.desc(), fwd, bwd))
    d.note("chain", "t=%s diffusions=%s init N(%s, %s)" % (L.fmt(ts), L.fmt(difs), L.fmt(m0), L.fmt(P0)))
    steps = [mod.at(ts[i], difs[i]) for i in range(N)]
    M, C = G.joint(m0, P0, steps)
    cond = max(np.linalg.cond(C[i * n:(i + 1) * n, i * n:(i + 1) * n]) for i in range(N + 1))
    d.assume(cond < 1e6 and G.mag(C) < 1e8)
    tol = 1e-7 * G.mag(M, C) * max(1, cond / 1e2)
    D = n * (N + 1)

    def affine(fun):
        z0 = np.concatenate(fun(np.zeros((N + 1, n))))
        F = np.stack([np.concatenate(fun(e.reshape(N + 1, n))) - z0 for e in np.eye(D)], axis=1)
        return z0, F

    if d.bool():
        d.label("forward sampling")
        z0, F = affine(lambda base: mod.tr.jointly_transform_base_measure_realization_list_forward(
            base_measure_realizations=base, t=ts, initrv=rv0, _diffusion_list=difs))
        d.check(close(z0, M, tol), "forward sampling: mean %s, expected %s", z0, M)
        d.check(close(F @ F.T, C, tol), "forward sampling: covariance of samples %s, expected %s",
                F @ F.T, C)
        # the first samples do not depend on later base measure realizations
        for i in range(N + 1):
            d.check(np.max(np.abs(F[i * n:(i + 1) * n, (i + 1) * n:]), initial=0) <= tol,
                    "forward sampling is not causal")
    else:
        # filtering distributions are the prior marginals; smoothing after an update of the end
        rvs = [rv0]
        for i in range(N):
            rvs.append(mod.tr.forward_rv(rvs[-1], ts[i], _diffusion=difs[i])[0])
        y, R = d.array(n, -3, 3), G.spd(d, n)
        sl = slice(N * n, D)
        SM, SC = G.condition_joint(M, C, [(sl, np.eye(n), np.zeros(n), R, y)])
        mf, Pf = G.condition(M[sl], C[sl, sl], np.eye(n), np.zeros(n), R, y)
        rvs[-1] = randvars.Normal(mf, Pf)
        lst = randvars._RandomVariableList(rvs)
        out = mod.tr.smooth_list(lst, ts, difs)
        tol *= G.mag(y) * max(1, G.mag(C) / 10)
        d.check(len(out) == N + 1, "smooth_list length")
        for i in range(N + 1):
            s = slice(i * n, (i + 1) * n)
            G.check_normal(d, out[i], SM[s], SC[s, s], tol, "smooth_list[%d]" % i)
        z0, F = affine(lambda base: mod.tr.jointly_transform_base_measure_realization_list_backward(
            base_measure_realizations=base, t=ts, rv_list=lst, _diffusion_list=difs))
        d.check(close(z0, SM, tol), "backward sampling: mean %s, expected %s", z0, SM)
        d.check(close(F @ F.T, SC, tol), "backward sampling: covariance of samples %s, expected %s",
                F @ F.T, SC)
    d.nontrivial()


def mismatch(d):
    n, m, k = d.size(1, 3, 7), d.size(1, 3, 7), d.size(1, 4, 12)
    d.assume(k != m)
    H = d.array((m, n))
    mode = d.pick(["dim", "ndimH", "ndimb"])
    d.note("mode", mode)
    try:
        if mode == "dim":
            discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(np.zeros(k), np.eye(k)))
        elif mode == "ndimH":
            discrete.LTIGaussian(transition_matrix=H[0], noise=randvars.Normal(np.zeros(m), np.eye(m)))
        else:
            discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(np.zeros((m, m)), np.eye(m * m)))
    except TypeError:
        d.nontrivial()
        return
    d.fail("incompatible transition accepted (%s)" % mode)


def units(d):
    """Rescaling the units of state and observation (powers of two) rescales every result of
    a transition, with all implementations and with or without precomputed factors."""
    n, m = d.size(1, 3, 6), d.size(1, 3, 6)
    fwd, bwd = d.pick(FWD), d.pick(BWD)
    H, b, R = d.array((m, n), -2, 2), d.array(m, -2, 2), G.spd(d, m)
    mean, P = d.array(n, -3, 3), G.spd(d, n)
    su = 2.0 ** np.array([d.pick([0, -6, 5, 10]) for _ in range(n)])
    sy = 2.0 ** np.array([d.pick([0, -6, 5, 10]) for _ in range(m)])
    dif = d.weighted(DIF)
    chol = d.bool(2, 3)
    y, m2, P2 = d.array(m, -3, 3), d.array(m, -3, 3), G.spd(d, m)
    d.note("model", "H=%s b=%s R=%s P=%s mean=%s dif=%s y=%s m2=%s P2=%s units %s -> %s fwd=%s bwd=%s factors=%s" % (
        tuple(map(L.fmt, (H, b, R, P, mean, dif, y, m2, P2, su, sy))) + (fwd, bwd, chol)))
    mu, S, C = G.push(mean, P, H, b, dif * R)
    ev = np.linalg.eigvalsh(S)
    d.assume(ev[0] > 1e-3 * max(1e-2, ev[-1] * 1e-2))
    K = np.linalg.solve(S, C.T).T
    # the factors of Normals without one are damped by 1e-12, relative to variances >= 2^-14
    tol = (1e-8 if chol else 1e-6) * G.mag(mu, S, P, mean, y, m2, P2) * max(1, G.mag(C) / ev[0]) ** 2

    def rv(mm, CC, u):
        Cu = CC * u[:, None] * u[None, :]
        return randvars.Normal(mm * u, Cu, np.linalg.cholesky(Cu)) if chol else randvars.Normal(mm * u, Cu)

    tr = discrete.LTIGaussian(transition_matrix=H * sy[:, None] / su[None, :], noise=rv(b, R, sy),
                              forward_implementation=fwd, backward_implementation=bwd)
    x = rv(mean, P, su)

    def compare(out, mm, CC, u, what):
        d.check(close(out.mean / u, mm, tol), "%s: mean %s, expected %s", what, out.mean, mm * u)
        d.check(close(out.cov / u[:, None] / u[None, :], CC, tol), "%s: cov %s, expected %s", what, out.cov,
                CC * u[:, None] * u[None, :])

    out, info = tr.forward_rv(x, 0.0, compute_gain=True, _diffusion=dif)
    compare(out, mu, S, sy, "forward_rv")
    d.check(close(info["crosscov"] / su[:, None] / sy[None, :], C, tol), "crosscov")
    d.check(close(info["gain"] / su[:, None] * sy[None, :], K, tol), "gain")
    reuse = {"rv_forwarded": out, "gain": info["gain"]} if d.bool() else {}
    out, _ = tr.backward_realization(y * sy, x, t=0.0, _diffusion=dif, **reuse)
    compare(out, *G.condition(mean, P, H, b, dif * R, y), su, "backward_realization")
    out, _ = tr.backward_rv(rv(m2, P2, sy), x, t=0.0, _diffusion=dif, **reuse)
    compare(out, *G.rts(mean, P, H, b, dif * R, m2, P2), su, "backward_rv")
    d.nontrivial()


SUBS = [
    Sub("units", units, 600, 12000),
    Sub("forward", forward, 2500, 40000),
    Sub("backward_realization", backward_realization, 2500, 40000),
    Sub("backward_rv", backward_rv, 2500, 40000),
    Sub("matrix_free", matrix_free, 500, 8000),
    Sub("nonlinear", nonlinear, 1000, 15000),
    Sub("chain", chain, 2500, 40000),
    Sub("mismatch", mismatch, 60, 300),
]
