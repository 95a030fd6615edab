"""C16 ODE filters: EK0/EK1 filtering, calibration, smoothing, dense output, initialisation."""
import warnings

import numpy as np
import scipy.integrate

from probnum import diffeq, problems, randprocs, randvars
from probnum.diffeq import odefilter, stepsize
from probnum.diffeq.odefilter import approx_strategies, information_operators, init_routines
from probnum.diffeq.odefilter import utils as ode_utils
from probnum.randprocs.markov import continuous
from pbt.runner import Sub
from . import c11
from . import libgauss as G
from . import liblinops as L
from .librv import close

RULE = ("A case is an initial value problem (affine or nonlinear, non-autonomous), an integrator "
        "prior, a solver configuration and step rule; non-trivial if the returned solution was "
        "compared on its own grid with an independent dense implementation of the filter.")


class IVP:
    """y_i' = (A y)_i + b_i cos(w t) + c_i sin(y_(i+1)), with its Jacobian."""

    def __init__(self, d, n=None, T=None):
        n = d.size(1, 2, 4) if n is None else n
        self.n = n
        self.A = d.array((n, n), -1, 1, den=4)
        self.b = d.array(n, 0.5, 1.5, den=4)
        self.w = d.pick([1.0, 3.0])
        self.c = d.array(n, -1, 1, den=4) if d.bool() else np.zeros(n)
        self.t0 = d.pick([0.0, 1.0, -0.5])
        self.T = d.pick([1.0, 0.5]) if T is None else T
        self.y0 = d.array(n, -2, 2, den=4)
        self.P = np.roll(np.eye(n), -1, axis=0)
        self.ivp = problems.InitialValueProblem(f=self.f, df=self.df, t0=self.t0,
                                                tmax=self.t0 + self.T, y0=self.y0)

    def f(self, t, y):
        return self.A @ y + self.b * np.cos(self.w * t) + self.c * np.sin(self.P @ y)

    def df(self, t, y):
        return self.A + (self.c * np.cos(self.P @ y))[:, None] * self.P

    def desc(self):
        return "A=%s b=%s w=%s c=%s t0=%s T=%s y0=%s" % (
            L.fmt(self.A), L.fmt(self.b), self.w, L.fmt(self.c), self.t0, self.T, L.fmt(self.y0))


def make_prior(d, n, t0, qmax=3, iwp_only=False):
    kind = "iwp" if iwp_only else d.pick(["iwp", "iwp", "ioup", "matern"])
    # the other priors are discretised with absolute accuracy only
    q = d.int(1, qmax if kind == "iwp" else min(qmax, 2))
    F1 = np.diag(np.ones(q), 1)
    kw = dict(initarg=t0, num_derivatives=q, wiener_process_dimension=n, diffuse=True,
              forward_implementation="sqrt", backward_implementation="sqrt")
    I = randprocs.markov.integrator
    if kind == "iwp":
        p = I.IntegratedWienerProcess(**kw)
    elif kind == "ioup":
        F1[q, q] = -0.5
        p = I.IntegratedOrnsteinUhlenbeckProcess(driftspeed=0.5, **kw)
    else:
        lam = np.sqrt(2 * q + 1) / 2.0
        F1[q, :] = -np.poly([-lam] * (q + 1))[::-1][:q + 1]
        p = I.MaternProcess(lengthscale=2.0, **kw)
    L1 = np.zeros((q + 1, q + 1))
    L1[q, q] = 1.0

    cache = {}

    def step(dt):
        """Transition matrix and unit-diffusion noise over a step."""
        if dt not in cache:
            A, _, Q = c11.exact(F1, np.zeros(q + 1), L1, dt)
            cache[dt] = np.kron(np.eye(n), A), np.kron(np.eye(n), Q)
        return cache[dt]
    E = [np.kron(np.eye(n), np.eye(q + 1)[[i]]) for i in range(q + 1)]
    return p, kind, q, step, E


def symm_solve(S, B):
    return np.linalg.solve(S, B)


class Ref:
    """Dense filter, calibration and smoother on a given grid."""

    def __init__(self, P, ek, step, E, m0, P0, ts, dynamic):
        self.step, self.dynamic = step, dynamic
        m, C = m0, P0
        self.filt, self.sig, self.err, self.ref = [(m, C)], [], [], []
        ssq = []
        for k in range(1, len(ts)):
            A, Q = step(ts[k] - ts[k - 1])
            mp = A @ m
            H = E[1] - (P.df(ts[k], E[0] @ mp) @ E[0] if ek == 1 else 0)
            z = E[1] @ mp - P.f(ts[k], E[0] @ mp)
            S0 = H @ Q @ H.T
            loc = z @ symm_solve(S0, z) / P.n
            Cn = A @ C @ A.T
            S1 = S0 + H @ Cn @ H.T
            if dynamic:
                s = loc
            else:
                ssq.append(z @ symm_solve(S1, z) / P.n)
                s = 1.0
                loc = ssq[-1]
            self.err.append(np.sqrt(loc) * np.sqrt(np.diag(S0)))
            self.ref.append(np.abs(E[0] @ m))
            self.sig.append(loc)
            Cp = Cn + s * Q
            S = H @ Cp @ H.T
            K = symm_solve(S, H @ Cp).T
            m = mp - K @ z
            IKH = np.eye(len(m)) - K @ H
            C = IKH @ Cp @ IKH.T
            self.filt.append((m, C))
        if not dynamic:
            s2 = float(np.mean(ssq))
            self.sig = [s2] * (len(ts) - 1)
            self.filt = [(m, s2 * C) for m, C in self.filt]
        self.ts = ts

    def smooth(self):
        out = [self.filt[-1]]
        for k in range(len(self.ts) - 2, -1, -1):
            A, Q = self.step(self.ts[k + 1] - self.ts[k])
            out.insert(0, rts(*self.filt[k], A, self.sig[k] * Q, *out[0]))
        return out

    def dense(self, t, sm):
        """Smoothing marginal between grid points, extrapolation right of them."""
        ts = self.ts
        if t >= ts[-1]:
            A, Q = self.step(t - ts[-1])
            m, C = self.filt[-1]
            return A @ m, A @ C @ A.T + self.sig[-1] * Q
        k = int(np.searchsorted(ts, t, side="right")) - 1
        A, Q = self.step(t - ts[k])
        m, C = self.filt[k]
        m, C = A @ m, A @ C @ A.T + self.sig[k] * Q
        A, Q = self.step(ts[k + 1] - t)
        return rts(m, C, A, self.sig[k] * Q, *sm[k + 1])


def rts(m, C, A, Q, ms, Cs):
    Cp = A @ C @ A.T + Q
    # scale the coordinates before solving
    s = np.sqrt(np.diag(Cp))
    K = (np.linalg.solve(Cp / np.outer(s, s), (A @ C) / s[:, None]) / s[:, None]).T
    IKA = np.eye(len(m)) - K @ A
    return m + K @ (ms - A @ m), IKA @ C @ IKA.T + K @ (Q + Cs) @ K.T


def cmp(d, tol, got, m, C, what):
    """Compare moments up to relative errors in the scale of the standard deviations."""
    gm, gC = np.asarray(got.mean), np.asarray(got.cov)
    s = np.sqrt(np.maximum(np.diag(C), 0))
    scale = 1e-9 * (1 + np.abs(m)) + 1e-2 * tol * np.max(np.abs(m), initial=1) + s * tol
    d.check(np.all(np.abs(gm - m) <= scale), "%s: mean %s, expected %s (std %s)", what, gm, m, s)
    lim = tol * 20 * np.outer(s, s) + 1e-12 * np.max(np.abs(C), initial=0) + 1e-20
    d.check(np.all(np.abs(gC - C) <= lim), "%s: cov\n%s\nexpected\n%s", what, gC, C)


def make_init(d, q):
    k = d.pick(["fit", "stack"] + (["jac"] if q >= 2 else []))
    if k == "fit":
        # a noise level that keeps the initial covariance well conditioned
        return "fit", init_routines.NonProbabilisticFit(
            dt=d.pick([0.1, 0.05]), observation_noise_std=d.pick([1e-2, 1e-3]))
    sc = d.pick([10.0, 1.0])
    return k, (init_routines.Stack if k == "stack" else init_routines.StackWithJacobian)(
        scale_cholesky=sc)


def solver(d):
    P = IVP(d)
    proc, kind, q, step, E = make_prior(d, P.n, P.t0)
    ek = d.pick([0, 1])
    dynamic = d.bool()
    smoothing = d.bool(2, 3)
    iname, init = make_init(d, q)
    adaptive = kind == "iwp" and d.bool(1, 3)
    ctol = 2e-5 if kind == "iwp" else 2e-3
    if adaptive:
        atol, rtol = d.pick([1e-1, 1e-2]), d.pick([1e-1, 1e-2])
        rule = stepsize.AdaptiveSteps(d.pick([0.1, 0.5]), atol, rtol)
    else:
        rule = stepsize.ConstantSteps(d.pick([0.25, 0.1, 0.2]))
    dm = d.pick([True, False])
    diff = None
    if not dynamic:
        diff = continuous.ConstantDiffusion()
    elif dm:
        diff = continuous.PiecewiseConstantDiffusion(t0=P.t0)
    stops = sorted(P.t0 + d.pick([0.3, 0.65]) * P.T for _ in range(d.int(0, 2)))
    d.note("problem", "%s prior=%s(q=%d) EK%d %s init=%s smoothing=%s rule=%s stops=%s" % (
        P.desc(), kind, q, ek, "dynamic" if dynamic else "constant", iname, smoothing,
        "adaptive %s %s" % (atol, rtol) if adaptive else rule.step, stops))
    d.label(kind, "EK%d" % ek, "dynamic" if dynamic else "constant", iname,
            "adaptive" if adaptive else "fixed", "smooth" if smoothing else "filter")
    rv0 = init(ivp=P.ivp, prior_process=proc)
    m0, P0 = np.asarray(rv0.mean), np.asarray(rv0.cov)
    strat = (approx_strategies.EK0, approx_strategies.EK1)[ek]()
    s = odefilter.ODEFilter(steprule=rule, prior_process=proc, approx_strategy=strat,
                            with_smoothing=smoothing, init_routine=init, diffusion_model=diff)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sol = s.solve(P.ivp, stop_at=stops or None)
    except RuntimeError as e:
        if "minimum step" in str(e):
            return
        raise
    ts = np.asarray(sol.locations)
    d.assume(len(ts) <= 40)
    d.check(np.min(np.diff(ts)) > 1e-6, "degenerate grid %s", ts)
    R = Ref(P, ek, step, E, m0, P0, ts, dynamic)
    d.assume(min(R.sig) > 1e-8 and max(R.sig) < 1e8)
    # the solution of ill-conditioned steps is not compared
    want = R.smooth() if smoothing else R.filt
    kp = sol.kalman_posterior
    fs = sol.filtering_solution
    for k in range(len(ts)):
        cmp(d, ctol, fs.kalman_posterior.states[k], *R.filt[k], "filtering state %d (t=%s)" % (k, ts[k]))
    for k in range(len(ts)):
        cmp(d, ctol, kp.states[k], *want[k], "%s state %d (t=%s)" % (
            "smoothing" if smoothing else "filtering", k, ts[k]))
        for Ei, rv, nm in ((E[0], sol.states[k], "solution"), (E[1], sol.derivatives[k],
                                                               "derivative")):
            cmp(d, ctol, rv, Ei @ want[k][0], Ei @ want[k][1] @ Ei.T, "%s %d" % (nm, k))
    if dynamic:
        d.check(np.allclose(s.diffusion_model.diffusions, R.sig, rtol=1e-4, atol=0),
                "diffusions %s, expected %s", s.diffusion_model.diffusions, R.sig)
        mid = 0.5 * (ts[:-1] + ts[1:])
        d.check(np.allclose(s.diffusion_model(mid), R.sig, rtol=1e-4, atol=0),
                "diffusion function between the grid points %s, expected %s",
                s.diffusion_model(mid), R.sig)
    else:
        d.check(np.allclose(s.diffusion_model.diffusion, R.sig[0], rtol=1e-4, atol=0),
                "diffusion %s, expected %s", s.diffusion_model.diffusion, R.sig[0])
    if adaptive:
        for e, r in zip(R.err, R.ref):
            nrm = np.sqrt(np.mean((e / (atol + rtol * r)) ** 2))
            d.check(nrm < 1 + 1e-4, "accepted step with error %s times the tolerance", nrm)
    # dense output
    k = d.int(0, len(ts) - 2)
    t = ts[k] + d.pick([0.5, 0.25, 0.9]) * (ts[k + 1] - ts[k])
    if d.bool(1, 5):
        t = ts[-1] + 0.1
    if smoothing:
        m, C = R.dense(t, want)
    else:
        kk = len(ts) - 1 if t > ts[-1] else k
        A, Q = step(t - ts[kk])
        m, C = A @ R.filt[kk][0], A @ R.filt[kk][1] @ A.T + R.sig[min(kk, len(R.sig) - 1)] * Q
    cmp(d, ctol, sol(t), E[0] @ m, E[0] @ C @ E[0].T, "dense output at t=%s" % t)
    got = sol([ts[k], t])
    cmp(d, ctol, got[1], E[0] @ m, E[0] @ C @ E[0].T, "dense output at list, t=%s" % t)
    cmp(d, ctol, got[0], E[0] @ want[k][0], E[0] @ want[k][1] @ E[0].T, "dense output at a grid point")
    # samples: shapes and reproducibility
    if smoothing and d.bool(1, 3):
        size = d.pick([(), 2, (2, 3)])
        tt = d.pick([None, "list"])
        loc = {"list": np.array([ts[0], t, ts[-1]])}.get(tt)
        sd = d.seed()
        x1 = sol.sample(np.random.default_rng(sd), t=loc, size=size)
        x2 = sol.sample(np.random.default_rng(sd), t=loc, size=size)
        d.check(np.array_equal(x1, x2), "samples are not reproducible")
        base = (size,) if isinstance(size, int) else size
        shp = base + {None: (len(ts),), "list": (3,)}[tt] + (P.n,)
        d.check(x1.shape == shp, "sample shape %s, expected %s", x1.shape, shp)
        y = kp.sample(np.random.default_rng(sd), t=loc, size=size)
        d.check(close(x1, np.einsum("dq,...q->...d", E[0], y), 1e-10 * G.mag(y)),
                "samples are not the projected state samples")
    d.nontrivial()


def accuracy(d):
    """The interface solves problems to an accuracy in line with the tolerance."""
    P = IVP(d)
    q = d.int(2, 4)
    kw = dict(method=d.pick(["EK0", "EK1"]), algo_order=q,
              diffusion_model=d.pick(["dynamic", "constant"]), dense_output=d.bool(3, 4))
    h = d.pick([0.05, 0.02])
    adaptive = d.bool()
    if adaptive:
        tol = d.pick([1e-2, 1e-3])
        kw.update(adaptive=True, atol=tol, rtol=tol)
    else:
        kw.update(adaptive=False, step=h)
    d.note("problem", "%s %s" % (P.desc(), kw))
    try:
        sol = diffeq.probsolve_ivp(P.f, P.t0, P.t0 + P.T, P.y0, df=P.df, **kw)
    except RuntimeError as e:
        if "minimum step" in str(e):
            return
        raise
    ts = np.asarray(sol.locations)
    tt = np.concatenate([ts, P.t0 + P.T * np.array([0.123, 0.5, 0.77])])
    ref = scipy.integrate.solve_ivp(P.f, (P.t0, P.t0 + P.T), P.y0, t_eval=np.unique(tt),
                                    rtol=1e-10, atol=1e-10)
    ref = {t: y for t, y in zip(ref.t, ref.y.T)}
    lim = (50 * tol if adaptive else 200 * h ** q) * (1 + np.max(np.abs(P.y0)))
    if kw["dense_output"]:
        for t in tt:
            y = np.asarray(sol(float(t)).mean)
            d.check(np.max(np.abs(y - ref[t])) < lim, "solution at %s is %s, scipy %s", t, y, ref[t])
    y = np.array([s.mean for s in sol.states])
    w = np.array([ref[t] for t in ts])
    d.check(np.max(np.abs(y - w)) < lim, "states deviate by %s from scipy (limit %s)",
            np.max(np.abs(y - w)), lim)
    d.nontrivial()


def initial(d):
    P = IVP(d, n=d.int(1, 3))
    proc, kind, q, step, E = make_prior(d, P.n, P.t0, qmax=4)
    which = d.pick(["stack", "jac", "fit", "fitjac"])
    if which == "jac" and q < 2:
        which = "stack"
    d.note("problem", "%s prior=%s(%d) init=%s" % (P.desc(), kind, q, which))
    d.label(which, kind)
    f0 = P.f(P.t0, P.y0)
    ft = -P.b * P.w * np.sin(P.w * P.t0)
    if which in ("stack", "jac"):
        sc = d.pick([1e3, 10.0])
        cls = init_routines.Stack if which == "stack" else init_routines.StackWithJacobian
        rv = (cls(scale_cholesky=sc) if d.bool() else cls)  # default scale is 1e3
        if isinstance(rv, type):
            rv, sc = cls(), 1e3
        rv = rv(ivp=P.ivp, prior_process=proc)
        m = np.zeros((q + 1, P.n))
        m[0], m[1] = P.y0, f0
        s = np.full(q + 1, sc)
        s[:2] = 0
        if which == "jac":
            m[2], s[2] = P.df(P.t0, P.y0) @ f0, 0
        wm = sum(E[i].T @ m[i] for i in range(q + 1))
        wC = sum(s[i] ** 2 * E[i].T @ E[i] for i in range(q + 1))
        d.check(close(rv.mean, wm, 1e-10 * G.mag(wm)), "mean %s, expected %s", rv.mean, wm)
        d.check(close(rv.cov, wC, 1e-10 * G.mag(wC)), "cov %s, expected %s", rv.cov, wC)
        S = np.asarray(rv.cov_cholesky)
        d.check(close(S @ S.T, wC, 1e-10 * G.mag(wC)), "Cholesky factor %s", S)
    else:
        cls = (init_routines.NonProbabilisticFit if which == "fit"
               else init_routines.NonProbabilisticFitWithJacobian)
        dt, sd = d.pick([(0.1, 1e-2), (0.05, 1e-2), (0.1, 1e-3)])
        default = d.bool(1, 3)
        rv = (cls() if default else cls(dt=dt, observation_noise_std=sd))(
            ivp=P.ivp, prior_process=proc)
        if default:
            d.check(np.max(np.abs(E[0] @ rv.mean - P.y0)) < 1e-5, "initial value %s, expected %s",
                    E[0] @ rv.mean, P.y0)
            if q >= 2:
                d.check(np.max(np.abs(E[1] @ rv.mean - f0)) < 0.02 * (1 + np.max(np.abs(f0))),
                        "initial derivative %s, expected %s", E[1] @ rv.mean, f0)
        else:
            # Gaussian regression of the prior on accurate solver data
            ts = np.linspace(P.t0, P.t0 + (q + 1) * dt, q + 1)
            ys = scipy.integrate.solve_ivp(P.f, (ts[0], ts[-1]), P.y0, t_eval=ts, rtol=1e-11,
                                           atol=1e-11).y.T
            M0 = np.asarray(proc.initrv.mean)
            C0 = np.asarray(proc.initrv.cov)
            steps = []
            for a, b in zip(ts[:-1], ts[1:]):
                A, Q = step(b - a)
                steps.append((A, np.zeros(len(A)), Q))
            M, C = G.joint(M0, C0, steps)
            D = len(M0)
            obs = [(slice(D * k, D * k + D), E[0], np.zeros(P.n), sd ** 2 * np.eye(P.n), ys[k])
                   for k in range(len(ts))]
            m, C = G.condition_joint(M, C, obs)
            m, C = m[:D], C[:D, :D]
            d.check(np.all(np.abs(rv.mean - m) <= 1e-3 * np.sqrt(np.abs(np.diag(C))) + 1e-5 *
                           (1 + np.abs(m))), "mean %s, expected %s", rv.mean, m)
            s = np.sqrt(np.abs(np.diag(C)))
            d.check(np.all(np.abs(rv.cov - C) <= 2e-3 * np.outer(s, s) + 1e-9), "cov %s, expected %s",
                    rv.cov, C)
    d.nontrivial()


def operators(d):
    """Information operators, approximation strategies and regression problems."""
    P = IVP(d, n=d.int(1, 3))
    q = d.int(1, 4)
    E = [np.kron(np.eye(P.n), np.eye(q + 1)[[i]]) for i in range(q + 1)]
    io = information_operators.ODEResidual(num_prior_derivatives=q, ode_dimension=P.n)
    d.check(not io.ode_has_been_incorporated, "ode_has_been_incorporated before")
    try:
        io.as_transition()
        d.fail("transition of an information operator without an ODE")
    except ValueError:
        pass
    x = d.array(P.n * (q + 1), -2, 2)
    t = d.pick([0.0, 0.7, -1.3])
    ek = d.pick([0, 1, None])
    what = d.pick(["operator", "regression"])
    d.note("problem", "%s q=%d t=%s x=%s EK%s %s" % (P.desc(), q, t, L.fmt(x), ek, what))
    d.label(what, "EK%s" % ek)
    strat = None if ek is None else (approx_strategies.EK0, approx_strategies.EK1)[ek]()
    wz = E[1] @ x - P.f(t, E[0] @ x)
    wJ = E[1] - (0 if ek == 0 else P.df(t, E[0] @ x) @ E[0])

    def meas(tr, R, shift):
        if ek is None:
            out, _ = tr.forward_realization(x, t)
            d.check(close(np.asarray(out.mean), wz, 1e-9 * G.mag(wz)), "residual %s, expected %s",
                    out.mean, wz)
            d.check(close(np.asarray(out.cov), R, 1e-12 + 1e-9 * G.mag(R)), "noise %s, expected %s",
                    out.cov, R)
            return
        rv, m, C = G.normal(d, len(x), mean=x)
        out, _ = tr.forward_rv(rv, t)
        S = wJ @ C @ wJ.T + R
        G.check_normal(d, out, wz, S, 1e-8 * G.mag(wz, S), "linearised residual", chol=False)
    if what == "operator":
        io.incorporate_ode(P.ivp)
        try:
            io.incorporate_ode(P.ivp)
            d.fail("ODE incorporated twice")
        except ValueError:
            pass
        d.check(close(io(t, x), wz, 1e-9 * G.mag(wz)), "residual")
        J = E[1] - P.df(t, E[0] @ x) @ E[0]
        d.check(close(io.jacobian(t, x), J, 1e-9 * G.mag(J)), "Jacobian of the residual %s, not %s",
                io.jacobian(t, x), J)
        op = io if ek is None else strat(io)
        d.check(close(op(t, x), wz, 1e-9 * G.mag(wz)), "residual %s, expected %s", op(t, x), wz)
        d.check(close(op.jacobian(t, x), wJ, 1e-9 * G.mag(wJ)), "Jacobian %s, expected %s",
                op.jacobian(t, x), wJ)
        meas(op.as_transition(), np.zeros((P.n, P.n)), 0)
    else:
        var = d.pick([0.0, 0.5, 1e-4])
        N = d.int(1, 4)
        locs = P.t0 + np.arange(N) * 0.1
        excl = d.bool()
        sol = None
        if d.bool():
            P.ivp.solution = lambda s: np.full(P.n, s)
            sol = np.array([[s] * P.n for s in locs])
        prob = ode_utils.ivp_to_regression_problem(
            P.ivp, locs if d.bool() else list(locs), io, approx_strategy=strat,
            ode_measurement_variance=var, exclude_initial_condition=excl)
        d.check(close(np.asarray(prob.locations), locs, 0), "locations")
        d.check(np.shape(prob.observations) == (N, P.n) and not np.any(prob.observations),
                "observations %s", prob.observations)
        d.check(len(prob.measurement_models) == N, "number of measurement models")
        if sol is not None:
            d.check(close(prob.solution, sol, 1e-12), "solution values")
        R = var * np.eye(P.n)
        for k, mm in enumerate(prob.measurement_models):
            if k == 0 and not excl:
                rv, m, C = G.normal(d, len(x), mean=x)
                out, _ = mm.forward_rv(rv, locs[0])
                S = E[0] @ C @ E[0].T + R
                G.check_normal(d, out, E[0] @ x - P.y0, S, 1e-8 * G.mag(S, x), "initial condition",
                               chol=False)
            else:
                meas(mm, R, 0)
    d.nontrivial()


def _f04():
    diffeq.probsolve_ivp(lambda t, y: 0.0 * y, 0.0, 1.0, np.array([1.0]), step=0.1,
                         adaptive=False)
    return False


KNOWN = {"F04": _f04}

SUBS = [
    Sub("solver", solver, 400, 8000),
    Sub("accuracy", accuracy, 80, 1500),
    Sub("initial", initial, 300, 5000),
    Sub("operators", operators, 800, 15000),
]
