"""C14 Nonlinear filtering: linearisation, cubature, iteration, Gauss-Newton, particles."""
import numpy as np
import scipy.special

from probnum import problems, randprocs, randvars
from probnum.filtsmooth import gaussian, optim, particle
from probnum.filtsmooth.gaussian import approx
from probnum.randprocs.markov import continuous, discrete
from pbt.runner import Sub
from . import c11
from . import libgauss as G
from . import liblinops as L
from .librv import close, dense

RULE = ("A case is a (mildly) nonlinear model, state distributions and data; non-trivial if the "
        "result was compared with the linearised/cubature formulas, with the stationarity "
        "condition of the MAP objective, or with the importance-weight recursion.")


class NL:
    """g(t, x) = A x + c t + eps * sin(B x + t), with Jacobian."""

    def __init__(self, d, n, m, eps=None, noise=None):
        self.n, self.m = n, m
        self.A, self.B = d.array((m, n), -1.5, 1.5), d.array((m, n), -1, 1)
        self.c = d.array(m, -1, 1)
        self.eps = d.pick([0.5, 0.25, 1.0, 0.0]) if eps is None else eps
        self.b, self.R = d.array(m, -1, 1), G.spd(d, m)
        self.const = (noise == "constant")
        if self.const:
            self.R = 0 * self.R

    def g(self, t, x):
        return self.A @ x + self.c * t + self.eps * np.sin(self.B @ x + t)

    def J(self, t, x):
        return self.A + self.eps * np.cos(self.B @ x + t)[:, None] * self.B

    def noise(self, t):
        if self.const:
            return randvars.Constant((1 + t) * self.b)
        return randvars.Normal((1 + t) * self.b, (1 + t * t) * self.R)

    def lin(self, t, x0, dif=1.0):
        """H, shift, R of the first-order expansion around x0."""
        H = self.J(t, x0)
        return H, self.g(t, x0) - H @ x0 + (1 + t) * self.b, dif * (1 + t * t) * self.R

    def model(self):
        return discrete.NonlinearGaussian(
            input_dim=self.n, output_dim=self.m, transition_fun=self.g,
            transition_fun_jacobian=self.J, noise_fun=self.noise)

    def desc(self):
        return "A x + %s t + %s sin(B x + t), A=%s B=%s b=%s R=%s" % (
            L.fmt(self.c), self.eps, L.fmt(self.A), L.fmt(self.B), L.fmt(self.b), L.fmt(self.R))


def cubature(nl, t, m, P, dif=1.0):
    n = nl.n
    S = np.linalg.cholesky(P)
    pts = [m + np.sqrt(n) * s * S[:, i] for i in range(n) for s in (1, -1)]
    fx = [nl.g(t, p) for p in pts]
    mean = sum(fx) / (2 * n)
    cov = sum(np.outer(f - mean, f - mean) for f in fx) / (2 * n)
    cross = sum(np.outer(p - m, f - mean) for p, f in zip(pts, fx)) / (2 * n)
    H = np.linalg.solve(P, cross).T
    # statistical linear regression: g(x) ~ H x + b with residual covariance
    return H, mean - H @ m + (1 + t) * nl.b, dif * (cov - H @ P @ H.T + (1 + t * t) * nl.R)


def linearised(d):
    """EKF and UKF components against the exact (statistical) linearisation."""
    n, m = d.size(1, 3, 6), d.size(1, 3, 6)
    nl = NL(d, n, m)
    kind = d.pick(["ekf", "ukf"])
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    cls = approx.DiscreteEKFComponent if kind == "ekf" else approx.DiscreteUKFComponent
    comp = cls(nl.model(), forward_implementation=fwd, backward_implementation=bwd)
    rv, mean, P = G.normal(d, n)
    t = d.pick([0.0, 0.5, 1.5])
    dif = d.weighted([(3, 1.0), (1, 2.0), (1, 0.25)])
    at = d.bool(1, 3)
    lrv, lm, lP = G.normal(d, n) if at else (rv, mean, P)
    d.note("model", "%s %s/%s %s t=%s dif=%s" % (kind, fwd, bwd, nl.desc(), t, dif))
    d.note("rv", "N(%s,%s)" % (L.fmt(mean), L.fmt(P)))
    if at:
        d.note("linearise_at", "N(%s,%s)" % (L.fmt(lm), L.fmt(lP)))
    H, b, R = nl.lin(t, lm, dif) if kind == "ekf" else cubature(nl, t, lm, lP, dif)
    mu, S, C = G.push(mean, P, H, b, R)
    ev = np.linalg.eigvalsh(S)
    d.assume(ev[0] > 1e-3 * max(1e-1, ev[-1] * 1e-2))
    kw = dict(_linearise_at=lrv) if at else {}
    if dif != 1.0 or d.bool():
        kw["_diffusion"] = dif
    tol = (1e-7 if kind == "ekf" else 1e-6) * G.mag(mu, S, P, mean, lP) * max(1, G.mag(C) / ev[0])
    out, info = comp.forward_rv(rv, t, compute_gain=True, **kw)
    G.check_normal(d, out, mu, S, tol, "forward_rv")
    d.check(close(info["crosscov"], C, tol), "crosscov %s, expected %s", info["crosscov"], C)
    d.check(close(info["gain"], np.linalg.solve(S, C.T).T, tol), "gain")
    y = d.array(m, -3, 3)
    tol *= G.mag(y) * max(1, G.mag(C) / ev[0])
    out, _ = comp.backward_realization(y, rv, t=t, **kw)
    G.check_normal(d, out, *G.condition(mean, P, H, b, R, y), tol, "backward_realization")
    nxt, m2, P2 = G.normal(d, m)
    out, _ = comp.backward_rv(nxt, rv, t=t, **kw)
    G.check_normal(d, out, *G.rts(mean, P, H, b, R, m2, P2), tol * G.mag(m2, P2), "backward_rv")
    if not at:
        x = d.array(n, -2, 2)
        out, _ = comp.forward_realization(x, t, **({"_diffusion": dif} if dif != 1.0 else {}))
        w = nl.g(t, x) + (1 + t) * nl.b
        d.check(close(out.mean, w, tol), "forward_realization mean %s, expected %s", out.mean, w)
        Rw = dif * (1 + t * t) * nl.R
        d.check(close(out.cov, Rw, tol), "forward_realization cov %s, expected %s", out.cov, Rw)
    d.nontrivial()


def continuous_ekf(d):
    """The continuous EKF solves the moment equations of the drift linearised at the mean."""
    n = d.int(1, 2)
    A, B = d.array((n, n), -1, 1, den=4), d.array((n, n), -1, 1, den=4)
    eps = d.pick([0.0, 0.5])
    Lm = np.diag(d.array(n, 0.5, 1.5, den=4))
    f = lambda t, x: A @ x + eps * np.sin(B @ x)
    df = lambda t, x: A + eps * np.cos(B @ x)[:, None] * B
    sde = continuous.SDE(state_dimension=n, wiener_process_dimension=n, drift_function=f,
                         dispersion_function=lambda t, x: Lm, drift_jacobian=df)
    ek = approx.ContinuousEKFComponent(sde, mde_atol=1e-10, mde_rtol=1e-9,
                                       forward_implementation=d.pick(["classic", "sqrt"]))
    rv, m, P = G.normal(d, n)
    d.assume(np.linalg.cond(P) < 50)
    t, dt, dif = d.pick([0.0, 1.0]), d.pick([0.25, 0.5]), d.pick([1.0, 2.0])
    x0 = m if d.bool() else d.array(n, -2, 2)
    kw = {} if x0 is m else {"_linearise_at": randvars.Constant(x0)}
    d.note("case", "A=%s B=%s eps=%s L=%s N(%s,%s) dt=%s x0=%s" % (
        L.fmt(A), L.fmt(B), eps, L.fmt(Lm), L.fmt(m), L.fmt(P), dt, L.fmt(x0)))
    F = df(t, x0)
    Ad, s, Q = c11.exact(F, f(t, x0) - F @ x0, Lm @ Lm.T, dt)
    mu, S, C = G.push(m, P, Ad, s, dif * Q)
    tol = 1e-5 * G.mag(mu, S, P, m)
    out, _ = ek.forward_rv(rv, t, dt=dt, _diffusion=dif, **kw)
    G.check_normal(d, out, mu, S, tol, "forward_rv")
    m2, P2 = mu + d.array(n, -1, 1), 0.5 * S
    out, _ = ek.backward_rv(randvars.Normal(m2, P2), rv, t=t, dt=dt, _diffusion=dif, **kw)
    ev = np.linalg.eigvalsh(S)[0]
    G.check_normal(d, out, *G.rts(m, P, Ad, s, dif * Q, m2, P2), tol * max(1, G.mag(C) / ev) ** 2,
                   "backward_rv")
    d.nontrivial()


def iterated_update(d):
    """The iterated EKF update is a fixed point of the update linearised at itself."""
    n, m = d.int(1, 3), d.int(1, 2)
    nl = NL(d, n, m, eps=d.pick([0.25, 0.5, 0.0]))
    rv, mean, P = G.normal(d, n)
    t, y = d.pick([0.0, 0.5]), d.array(m, -2, 2)
    d.note("model", nl.desc())
    d.note("rv", "N(%s,%s) y=%s t=%s" % (L.fmt(mean), L.fmt(P), L.fmt(y), t))
    # reference iteration with a tight tolerance
    x, conv = mean, False
    for _ in range(60):
        H, b, R = nl.lin(t, x)
        xn, Pn = G.condition(mean, P, H, b, R, y)
        if np.max(np.abs(xn - x)) < 1e-11 * G.mag(x):
            conv = True
            break
        x = xn
    d.assume(conv)
    crit = optim.FiltSmoothStoppingCriterion(atol=1e-9, rtol=1e-9, maxit=200)
    comp = optim.IteratedDiscreteComponent(approx.DiscreteEKFComponent(nl.model()), crit)
    d.check(comp.input_dim == n and comp.output_dim == m, "dimensions")
    for rep in range(2):
        out, _ = comp.backward_realization(y, rv, t=t)
        tol = 1e-6 * G.mag(x, Pn, P, mean, y)
        G.check_normal(d, out, xn, Pn, tol, "iterated update (call %d)" % rep)
        d.check(crit.iterations == 0, "the stopping criterion keeps its iteration count")
    f, _ = comp.forward_rv(rv, t)
    H, b, R = nl.lin(t, mean)
    mu, S, _ = G.push(mean, P, H, b, R)
    G.check_normal(d, f, mu, S, 1e-7 * G.mag(mu, S), "forward_rv")
    d.nontrivial()


def stopcrit(d):
    """A history of error evaluations: the decision depends only on the error, the reference and
    the number of consecutive failures."""
    atol, rtol = d.pick([1e-3, 1e-1, 1.0]), d.pick([1e-6, 1e-2, 0.5])
    maxit = d.int(1, 4)
    c = optim.FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
    k = 0
    log = []
    for _ in range(d.size(1, 10, 30)):
        n = d.int(1, 3)
        ref = d.array(n, -8, 8)
        err = d.array(n, -2, 2) * d.pick([1e-4, 1.0, 1e-2])
        w = np.sqrt(np.mean((err / (atol + rtol * np.abs(ref))) ** 2))
        log.append("err=%s ref=%s -> %.3g (k=%d)" % (L.fmt(err), L.fmt(ref), w, k))
        d.note("history", log)
        d.assume(abs(w - 1) > 1e-6)
        try:
            got = c(error=err, reference=ref)
        except RuntimeError:
            d.check(k > maxit, "RuntimeError after %d iterations, maxit=%d", k, maxit)
            k = 0
            continue
        d.check(k <= maxit, "no RuntimeError after %d iterations, maxit=%d", k, maxit)
        d.check(bool(got) == (w <= 1), "stop=%s, normalised error %s", got, w)
        k = 0 if w <= 1 else k + 1
    d.nontrivial()


def map_objective(nls, ts, X, m0, P0, steps, Y, meas):
    """Gradient of the negative log posterior of the stacked trajectory."""
    N, n = X.shape
    g = np.zeros_like(X)
    g[0] += np.linalg.solve(P0, X[0] - m0)
    for i, (fn, jac, Q) in enumerate(steps):
        r = np.linalg.solve(Q, X[i + 1] - fn(X[i]))
        g[i + 1] += r
        g[i] -= jac(X[i]).T @ r
    for i, (nl, t, y) in enumerate(zip(meas, ts, Y)):
        r = np.linalg.solve((1 + t * t) * nl.R, y - nl.g(t, X[i]) - (1 + t) * nl.b)
        g[i] -= nl.J(t, X[i]).T @ r
    return g


def gauss_newton(d):
    """Iterated smoothing converges to a stationary point of the MAP objective."""
    n, N = d.int(1, 2), d.int(2, 4)
    dyn_kind = d.pick(["linear", "nonlinear"])
    t0 = d.pick([0.0, 0.5])
    ts = t0 + np.concatenate(([0.0], np.cumsum([d.pick([0.5, 1.0]) for _ in range(N - 1)])))
    m0, P0 = d.array(n, -1, 1), G.spd(d, n)
    if dyn_kind == "linear":
        F = d.array((n, n), -1, 1, den=4)
        Lm = np.diag(d.array(n, 0.5, 1.5, den=4))
        tr = continuous.LTISDE(F, np.zeros(n), Lm)
        steps = []
        for h in np.diff(ts):
            A, s, Q = c11.exact(F, np.zeros(n), Lm @ Lm.T, h)
            steps.append(((lambda x, A=A: A @ x), (lambda x, A=A: A), Q))
        prior = randprocs.markov.MarkovProcess(initarg=t0, initrv=randvars.Normal(m0, P0), transition=tr)
        desc = "F=%s L=%s" % (L.fmt(F), L.fmt(Lm))
    else:
        dyn = NL(d, n, n, eps=0.25)
        tr = approx.DiscreteEKFComponent(dyn.model())
        steps = [((lambda x, t=t: dyn.g(t, x) + (1 + t) * dyn.b), (lambda x, t=t: dyn.J(t, x)),
                  (1 + t * t) * dyn.R) for t in ts[:-1]]
        prior = randprocs.markov.MarkovSequence(initarg=t0, initrv=randvars.Normal(m0, P0), transition=tr)
        desc = dyn.desc()
    nl = NL(d, n, d.int(1, n), eps=0.25)
    Y = [d.array(nl.m, -2, 2) for _ in ts]
    d.note("dynamics", "%s %s N(%s,%s) grid %s" % (dyn_kind, desc, L.fmt(m0), L.fmt(P0), L.fmt(ts)))
    d.note("measurement", "%s data %s" % (nl.desc(), [L.fmt(y) for y in Y]))
    mm = approx.DiscreteEKFComponent(nl.model())
    prob = problems.TimeSeriesRegressionProblem(observations=np.array(Y), locations=ts, measurement_models=mm)
    kal = gaussian.Kalman(prior)
    crit = optim.FiltSmoothStoppingCriterion(atol=1e-8, rtol=1e-8, maxit=40)
    init, _ = kal.filtsmooth(prob)
    try:
        if d.bool():
            post, _ = optim.GaussNewton(kal, crit).solve(prob, initial_guess=init)
        else:
            post, _ = kal.iterated_filtsmooth(prob, init if d.bool() else None, crit)
    except RuntimeError:
        d.inconclusive("no convergence")
    except NotImplementedError:
        raise
    except (ValueError, np.linalg.LinAlgError):
        d.inconclusive("diverged")
    X = np.stack([s.mean for s in post.states])
    if not np.all(np.isfinite(X)) or np.max(np.abs(X)) > 1e3:
        d.inconclusive("diverged")
    g = map_objective(None, ts, X, m0, P0, steps, Y, [nl] * N)
    scale = max(1.0, G.mag(np.linalg.inv(P0)), *[G.mag(np.linalg.inv(Q)) for _, _, Q in steps],
                G.mag(np.linalg.inv(nl.R))) * G.mag(X, np.array(Y)) * 10
    d.check(np.max(np.abs(g)) <= 1e-5 * scale,
            "the gradient of the negative log posterior at the iterated smoother is %s", g)
    d.check(crit.iterations == 0, "stopping criterion not reset")
    d.nontrivial()


class _Recorded(particle.ImportanceDistribution):
    """User-defined importance distribution: a widened dynamics distribution."""

    def generate_importance_rv(self, particle, data, t, dt=None, measurement_model=None):
        rv, info = self.dynamics_model.forward_realization(particle, t=t, dt=dt)
        return randvars.Normal(rv.mean + 0.1, 1.5 * rv.cov), rv, info

    def process_initrv_with_data(self, initrv, data, t, measurement_model=None):
        return randvars.Normal(initrv.mean + 0.1, 1.5 * initrv.cov), initrv, {}


def logpdf(x, m, C):
    r = np.asarray(x, float) - m
    return -0.5 * (r @ np.linalg.solve(C, r) + np.linalg.slogdet(C)[1] + len(r) * np.log(2 * np.pi))


def particles(d):
    """Particle weights follow the importance sampling recursion; resampled particles are used."""
    n, N = d.int(1, 2), d.int(1, 3)
    Np = d.pick([5, 10, 20])
    F = d.array((n, n), -1, 1, den=4)
    Lm = np.diag(d.array(n, 0.5, 1.5, den=4))
    nl = NL(d, n, d.int(1, 2), eps=d.pick([0.0, 0.25]))
    t0 = d.pick([0.0, 0.5])
    first = t0 + d.pick([0.0, 0.5])
    ts = first + np.concatenate(([0.0], np.cumsum([d.pick([0.5, 1.0]) for _ in range(N - 1)])))
    rv0, m0, P0 = G.normal(d, n)
    tr = continuous.LTISDE(F, np.zeros(n), Lm)
    prior = randprocs.markov.MarkovProcess(initarg=t0, initrv=rv0, transition=tr)
    kind = d.pick(["bootstrap", "user", "ekf", "ukf"])
    thr = d.weighted([(2, -1.0), (1, 2.0), (1, 0.5)])
    far = d.bool(1, 5)
    Y = [d.array(nl.m, -2, 2) + (60.0 if far else 0.0) for _ in ts]
    seed = d.seed()
    d.note("case", "F=%s L=%s init N(%s,%s) at %s; %s; grid %s data %s; %s, %d particles, threshold %s, seed %d"
           % (L.fmt(F), L.fmt(Lm), L.fmt(m0), L.fmt(P0), t0, nl.desc(), L.fmt(ts),
              [L.fmt(y) for y in Y], kind, Np, thr, seed))
    if kind == "bootstrap":
        imp = particle.BootstrapImportanceDistribution(tr)
    elif kind == "user":
        imp = _Recorded(tr)
    elif kind == "ekf":
        imp = particle.LinearizationImportanceDistribution.from_ekf(tr)
    else:
        imp = particle.LinearizationImportanceDistribution.from_ukf(tr)
    prob = problems.TimeSeriesRegressionProblem(observations=np.array(Y), locations=ts,
                                                measurement_models=nl.model())
    run = lambda: particle.ParticleFilter(
        prior, imp, num_particles=Np, rng=np.random.default_rng(seed), with_resampling=thr > 0,
        resampling_percentage_threshold=thr).filter(prob)[0]
    post = run()
    d.check(len(post) == N and close(post.locations, ts, 0), "locations")
    old_x, old_w, t_old = None, np.ones(Np) / Np, t0
    for k, t in enumerate(ts):
        st = post.states[k]
        X, W = np.asarray(st.support), np.asarray(st.probabilities)
        d.check(X.shape == (Np, n) and W.shape == (Np,), "shapes %s %s", X.shape, W.shape)
        d.check(np.all(np.isfinite(X)) and np.all(np.isfinite(W)), "particles %s weights %s", X, W)
        d.check(abs(W.sum() - 1) < 1e-9 and np.all(W >= 0), "weights do not sum to one")
        ess = 1 / np.sum(W ** 2)
        d.check(abs(particle.effective_number_of_events(st) - ess) < 1e-7 * ess, "effective number")
        if thr > 0:
            # every resampled state must be uniform; otherwise the effective number is large enough
            if ess < Np - 1e-6:
                d.check(ess >= thr * Np - 1e-6, "effective number %s below threshold", ess)
        if thr <= 0 and (k > 0 or first == t0):
            # without resampling, particle i stems from particle i
            lw = np.zeros(Np)
            R = (1 + t * t) * nl.R
            if t > t_old:
                A, s, Q = c11.exact(F, np.zeros(n), Lm @ Lm.T, t - t_old)
            for i in range(Np):
                pm, pC = (A @ old_x[i], Q) if t > t_old else (m0, P0)
                lw[i] = logpdf(Y[k], nl.g(t, X[i]) + (1 + t) * nl.b, R)
                if kind == "user":
                    lw[i] += logpdf(X[i], pm, pC) - logpdf(X[i], pm + 0.1, 1.5 * pC)
                elif kind == "ekf":
                    H, b, Rl = nl.lin(t, pm)
                    lw[i] += logpdf(X[i], pm, pC) - logpdf(X[i], *G.condition(pm, pC, H, b, Rl, Y[k]))
                elif kind == "ukf":
                    H, b, Rl = cubature(nl, t, pm, pC)
                    lw[i] += logpdf(X[i], pm, pC) - logpdf(X[i], *G.condition(pm, pC, H, b, Rl, Y[k]))
            lw += np.log(old_w + 1e-14)
            w = np.exp(lw - scipy.special.logsumexp(lw))
            cond = G.mag(lw) * 1e-7
            d.check(close(W, w, 1e-5 + 10 * cond), "weights at step %d: %s, expected %s", k, W, w)
            d.label("weights")
        if thr > 1 and k > 0 and kind == "bootstrap":
            # resampling after each step: the next particles start at the resampled ones
            A, s, Q = c11.exact(F, np.zeros(n), Lm @ Lm.T, t - t_old)
            near = min(1.0, np.linalg.eigvalsh(Q)[0])
            d.label("always resampled")
            d.check(len(np.unique(np.round(W, 12))) == 1, "weights after resampling")
        old_x, old_w, t_old = X, W, t
    other = run()
    d.check(all(np.array_equal(a.support, b.support) for a, b in zip(post.states, other.states)),
            "same seed, different particles")
    d.nontrivial()


def ancestry(d):
    """With resampling after every step, particles descend from the resampled particles."""
    n, N, Np = 1, d.int(2, 4), 12
    # nearly deterministic dynamics make the ancestors visible
    tr = continuous.LTISDE(np.zeros((1, 1)), np.zeros(1), 1e-6 * np.eye(1))
    m0 = d.array(1, -1, 1)
    prior = randprocs.markov.MarkovProcess(initarg=0.0, initrv=randvars.Normal(m0, 4.0 * np.eye(1)), transition=tr)
    y = d.dyadic(-2, 2)
    meas = discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), d.pick([1.0, 0.25]) * np.eye(1)))
    ts = np.arange(N) * 1.0
    thr = d.pick([2.0, 1.5])
    seed = d.seed()
    d.note("case", "m0=%s y=%s N=%d thr=%s seed=%d" % (m0, y, N, thr, seed))
    imp = particle.BootstrapImportanceDistribution(tr)
    prob = problems.TimeSeriesRegressionProblem(observations=np.full((N, 1), y), locations=ts, measurement_models=meas)
    post, _ = particle.ParticleFilter(prior, imp, num_particles=Np, rng=np.random.default_rng(seed),
                                      resampling_percentage_threshold=thr).filter(prob)
    for k in range(1, N):
        prev, cur = np.asarray(post.states[k - 1].support)[:, 0], np.asarray(post.states[k].support)[:, 0]
        dist = np.min(np.abs(cur[:, None] - prev[None, :]), axis=1)
        d.check(np.max(dist) < 1e-4, "step %d: particles %s do not descend from the resampled particles %s",
                k, cur, prev)
        d.check(np.allclose(post.states[k].probabilities, 1 / Np), "weights after resampling")
    d.nontrivial()


SUBS = [
    Sub("linearised", linearised, 1800, 30000),
    Sub("continuous_ekf", continuous_ekf, 30, 400),
    Sub("iterated_update", iterated_update, 300, 5000),
    Sub("stopcrit", stopcrit, 1000, 15000),
    Sub("gauss_newton", gauss_newton, 160, 2500),
    Sub("particles", particles, 160, 2500),
    Sub("ancestry", ancestry, 60, 800),
]
