"""C17 Wrapped Runge-Kutta and perturbed-step solvers."""
import numpy as np
import scipy.stats
from scipy.integrate import RK23, RK45

from probnum import diffeq, problems, randvars
from probnum.diffeq import perturbed, stepsize
from probnum.diffeq.perturbed import scipy_wrapper, step as pstep
from pbt.runner import Sub
from . import c16
from . import libgauss as G
from . import liblinops as L
from .librv import close

RULE = ("A case is an initial value problem, a Runge-Kutta method, a step rule and a sequence of "
        "step perturbations; non-trivial if grid, states, scales and dense output were compared "
        "with an independent Runge-Kutta implementation.")


def rk_step(cls, f, t, y, k0, h):
    """One explicit Runge-Kutta step from the tableau; returns y_new, stages, slope at the end."""
    K = np.zeros((cls.n_stages + 1, len(y)))
    K[0] = k0
    for i in range(1, cls.n_stages):
        K[i] = f(t + cls.C[i] * h, y + h * sum(cls.A[i, j] * K[j] for j in range(i)))
    y1 = y + h * sum(cls.B[i] * K[i] for i in range(cls.n_stages))
    K[-1] = f(t + h, y1)
    return y1, K


class Ref:
    """Reference solve; ``stale`` reproduces known finding F05 (slope of the last attempt)."""

    def __init__(self, P, cls, rule, noise, stops, stale):
        f, t, y, tmax = P.f, P.t0, P.y0, P.t0 + P.T
        dt, k = rule["h"], 0
        self.ts, self.ys, self.pieces, self.scales, self.rejections = [t], [y], [], [], 0
        self.attempts = 0
        last = f(t, y)
        while t < tmax - 1e-9:
            dt = min(dt, tmax - t)
            for s in stops:
                if s > t + 1e-9:
                    dt = min(dt, s - t)
                    break
            while True:
                fac = noise(k, dt)
                k += 1
                h = fac * dt
                y1, K = rk_step(cls, f, t, y, last if stale else f(t, y), h)
                last = K[-1]
                self.attempts = k
                if rule["adaptive"]:
                    e = h * (K.T @ cls.E)
                    nrm = np.sqrt(np.mean((e / (rule["atol"] + rule["rtol"] * np.abs(y))) ** 2))
                    change = np.inf if nrm == 0 else 0.95 * nrm ** (-1 / (cls.order + 1))
                    nxt, ok = dt * min(max(change, 0.2), 10.0), nrm < 1
                    self.edge = min(getattr(self, "edge", 1), abs(nrm - 1))
                else:
                    nxt, ok = rule["h"], True
                if ok:
                    break
                self.rejections += 1
                dt = min(nxt, tmax - t)
                if k > 400:
                    raise OverflowError
            self.pieces.append((t, dt, h, y, K))
            self.scales.append(fac)
            y, t, dt = y1, t + dt, nxt
            self.ts.append(t)
            self.ys.append(y)
            if k > 400:
                raise OverflowError

    def __call__(self, cls, t):
        k = int(np.searchsorted(self.ts, t, side="right")) - 1
        k = min(max(k, 0), len(self.pieces) - 1)
        t0, dt, h, y, K = self.pieces[k]
        x = (t - t0) / dt
        return y + h * ((K.T @ cls.P) @ np.array([x ** (i + 1) for i in range(cls.P.shape[1])]))


def agrees(R, cls, ts, ys):
    tol = 1e-7 * (1 + np.max(np.abs(np.array(R.ys))))
    return (len(ts) == len(R.ts) and close(np.array(ts), np.array(R.ts), 1e-8) and
            close(ys, np.array(R.ys), tol))


def solve(d):
    P = c16.IVP(d)
    cls = d.pick([RK45, RK23])
    autonomous = d.bool()
    if autonomous:
        P.w = 0.0
    adaptive = d.bool()
    rule = dict(adaptive=adaptive, h=d.pick([0.25, 0.1, 0.3] if not adaptive else
                                            [0.1, 0.01, 0.5, 3.0]))
    if adaptive:
        rule["atol"], rule["rtol"] = d.pick([1e-2, 1e-4, 1e-1]), d.pick([1e-3, 1e-2, 0.0])
        sr = stepsize.AdaptiveSteps(rule["h"], rule["atol"], rule["rtol"])
    else:
        sr = stepsize.ConstantSteps(rule["h"])
    kind = d.pick(["plain", "perturbed"])
    facs = [1.0]
    if kind == "perturbed":
        facs = [d.pick([1.0, 1.1, 0.9, 0.75, 1.3]) for _ in range(7)]
    stops = sorted(P.t0 + d.pick([0.4, 0.85]) * P.T for _ in range(d.int(0, 2)))
    d.note("problem", "%s %s %s rule=%s factors=%s stops=%s" % (P.desc(), cls.__name__, kind, rule,
                                                              facs, stops))
    d.label(kind, cls.__name__, "adaptive" if adaptive else "constant")
    wrapped = scipy_wrapper.WrappedScipyRungeKutta(cls, steprule=sr)
    calls = []
    if kind == "perturbed":
        rng0 = np.random.default_rng(1)

        def pert(rng, step, solver_order, noise_scale, size=()):
            calls.append((rng is rng0, float(step), solver_order, noise_scale))
            return facs[(len(calls) - 1) % len(facs)] * step
        solver = pstep.PerturbedStepSolver(rng=rng0, solver=wrapped, noise_scale=0.5,
                                           perturb_function=pert)
    else:
        solver = wrapped
    noise = lambda k, dt: facs[k % len(facs)]
    try:
        R = Ref(P, cls, rule, noise, stops, False)
        S = Ref(P, cls, rule, noise, stops, True)
    except OverflowError:
        d.assume(False)
    for X in (R, S):
        d.assume(getattr(X, "edge", 1) > 1e-6)
    again = d.bool(1, 4)
    sol = solver.solve(P.ivp, stop_at=stops or None)
    if again:
        # solving again with the same object starts afresh
        calls.clear()
        sol = solver.solve(P.ivp, stop_at=stops or None)
    ts = np.asarray(sol.locations, dtype=float)
    ys = np.array([s.mean for s in sol.states])
    slope_reused = R.rejections + S.rejections > 0 or (kind == "perturbed" and not autonomous)
    if agrees(R, cls, ts, ys):
        ref = R
    elif slope_reused and agrees(S, cls, ts, ys):
        d.label("known finding F05")
        ref = S
    else:
        d.fail("grid %s and states\n%s\nexpected grid %s and states\n%s" % (ts, ys, R.ts,
                                                                         np.array(R.ys)))
    d.check(all(isinstance(s, randvars.Constant) for s in sol.states), "state types")
    if kind == "perturbed":
        d.check(len(calls) == ref.attempts, "%d perturbations drawn for %d attempted steps",
                len(calls), ref.attempts)
        d.check(all(c[0] and c[2] == cls.order and c[3] == 0.5 for c in calls),
                "perturbation function called with %s", calls[:3])
        d.check(close(np.array(sol.scales), np.array(ref.scales), 1e-9),
                "scales %s, expected %s", sol.scales, ref.scales)
    # dense output: interpolant of the (perturbed) step on the rescaled interval
    tol = 1e-6 * (1 + np.max(np.abs(ys)))
    qs = []
    for _ in range(d.int(1, 4)):
        k = d.int(0, len(ts) - 2)
        qs.append(float(ts[k] + d.pick([0.5, 0.1, 0.95, 0.0, 1.0]) * (ts[k + 1] - ts[k])))
    qs = sorted(set(qs))
    for t in qs:
        got, want = np.asarray(sol(t).mean), ref(cls, t)
        d.check(got.shape == (P.n,), "dense output has shape %s", got.shape)
        d.check(close(got, want, tol), "dense output at %s is %s, expected %s", t, got, want)
    got = sol(np.array(qs))
    d.check(close(np.array([g.mean for g in got]), np.array([ref(cls, t) for t in qs]), tol),
            "dense output at %s", qs)
    for k, t in enumerate(ts):
        d.check(close(np.asarray(sol(float(t)).mean), ys[k], tol), "dense output at grid point %s "
                "is %s, state %s", t, sol(float(t)).mean, ys[k])
    d.nontrivial()


def noise(d):
    """The perturbation functions have the stated distributions."""
    kind = d.pick(["uniform", "lognormal"])
    fn = pstep.perturb_uniform if kind == "uniform" else pstep.perturb_lognormal
    h = d.pick([0.5, 0.1, 0.9, 0.03])
    p, ns = d.int(1, 5), d.pick([1.0, 0.1, 3.0])
    seed = d.seed()
    d.note("call", "%s step=%s order=%s noise_scale=%s" % (kind, h, p, ns))
    N = 1500
    x = np.asarray(fn(rng=np.random.default_rng(seed), step=h, solver_order=p, noise_scale=ns,
                      size=N))
    d.check(x.shape == (N,), "shape %s", x.shape)
    y = fn(rng=np.random.default_rng(seed), step=h, solver_order=p, noise_scale=ns, size=N)
    d.check(np.array_equal(x, y), "same seed, different perturbations")
    s1 = fn(rng=np.random.default_rng(seed), step=h, solver_order=p, noise_scale=ns)
    d.check(np.shape(s1) == (), "scalar perturbation has shape %s", np.shape(s1))
    if kind == "uniform":
        s = ns * h ** (p + 0.5)
        u = (x - (h - s)) / (2 * s)
        d.check(np.all(u > -1e-9 * (1 + h / s)) and np.all(u < 1 + 1e-9 * (1 + h / s)),
                "samples outside [step - shift, step + shift]")
        pv = scipy.stats.kstest(u, "uniform").pvalue
    else:
        v = np.log1p(ns * h ** (2 * p))
        z = (np.log(x) - np.log(h) + 0.5 * v) / np.sqrt(v)
        d.assume(v > 1e-13)
        pv = scipy.stats.kstest(z, "norm").pvalue
    d.check(pv > 1e-9, "perturbations do not follow the %s distribution (KS p-value %g)", kind, pv)
    if kind == "uniform":
        try:
            fn(rng=np.random.default_rng(0), step=1.0 + d.pick([0.0, 1.0]), solver_order=p,
               noise_scale=ns)
            d.fail("uniform perturbation of a step >= 1 accepted")
        except ValueError:
            pass
    d.nontrivial()


def interface(d):
    """perturbsolve_ivp equals the solver assembled by hand; seeds; tiny noise = Runge-Kutta."""
    P = c16.IVP(d)
    P.w = 0.0
    meth = d.pick(["RK45", "RK23"])
    pert = d.pick(["step-lognormal", "step-uniform"])
    h = d.pick([0.25, 0.1, 0.2])
    seed = d.seed()
    ns = d.pick([1e-14, 1e-1])
    tol = d.pick([(1e-2, 1e-3), (1e-4, 1e-2)]) if d.bool(1, 3) else None
    if tol and d.bool():
        h = None
    d.note("call", "%s %s %s h=%s noise=%s tol=%s" % (P.desc(), meth, pert, h, ns, tol))
    kw = dict(adaptive=False) if tol is None else dict(adaptive=True, atol=tol[0], rtol=tol[1])
    run = lambda s: diffeq.perturbsolve_ivp(P.f, P.t0, P.t0 + P.T, P.y0, rng=np.random.default_rng(s),
                                            method=meth, perturb=pert, noise_scale=ns, step=h, **kw)
    if tol is not None:
        d.label("adaptive")
        drop = d.pick(["atol", "rtol"])
        try:
            kw[drop] = None
            run(seed)
            d.fail("adaptive steps without %s accepted" % drop)
        except ValueError as e:
            d.check("olerance" in str(e), "%s", e)
        kw.update(atol=tol[0], rtol=tol[1])
    a, b = run(seed), run(seed)
    A, B = np.array([s.mean for s in a.states]), np.array([s.mean for s in b.states])
    d.check(np.array_equal(A, B), "same seed, different solutions")
    if tol is None:
        sr = stepsize.ConstantSteps(h)
    else:
        sr = stepsize.AdaptiveSteps(h or stepsize.propose_firststep(P.ivp), atol=tol[0], rtol=tol[1])
    cls = dict(RK45=RK45, RK23=RK23)[meth]
    mk = (pstep.PerturbedStepSolver.construct_with_lognormal_perturbation if pert == "step-lognormal"
          else pstep.PerturbedStepSolver.construct_with_uniform_perturbation)
    c = mk(rng=np.random.default_rng(seed), noise_scale=ns,
           solver=scipy_wrapper.WrappedScipyRungeKutta(cls, steprule=sr)).solve(P.ivp)
    d.check(np.array_equal(A, np.array([s.mean for s in c.states])), "interface and solver differ")
    if ns < 1e-10 and tol is None:
        R = Ref(P, cls, dict(adaptive=False, h=h), lambda k, dt: 1.0, [], False)
        d.check(close(A, np.array(R.ys), 1e-5 * G.mag(A)), "vanishing noise: %s, Runge-Kutta %s", A,
                R.ys)
    elif ns > 1e-10:
        C = np.array([s.mean for s in run(seed + 1).states])
        moving = np.ptp(A, axis=0).max() > 1e-3  # an equilibrium is perturbed into itself
        d.check(not moving or not np.array_equal(A, C), "different seeds, equal solutions")
    d.nontrivial()


def _f05():
    """A rejected first step changes the slope used by the second attempt."""
    f = lambda t, y: -5.0 * y
    ivp = problems.InitialValueProblem(f=f, t0=0.0, tmax=1.0, y0=np.array([1.0]))
    s = scipy_wrapper.WrappedScipyRungeKutta(RK23, steprule=stepsize.AdaptiveSteps(1.0, 1e-4, 1e-4))
    st = s.initialize(ivp)
    s.attempt_step(st, 1.0)
    y = s.attempt_step(st, 0.1).rv.mean
    return not np.allclose(y, rk_step(RK23, f, 0.0, np.array([1.0]), np.array([-5.0]), 0.1)[0])


KNOWN = {"F05": _f05}

SUBS = [
    Sub("solve", solve, 1500, 25000),
    Sub("noise", noise, 300, 4000),
    Sub("interface", interface, 150, 2000),
]
