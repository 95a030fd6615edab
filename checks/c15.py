"""C15 ODE solver loop: grids, final time, time stops, callbacks, step rules, first step."""
import dataclasses

import numpy as np

from probnum import diffeq, problems, randvars
from probnum.diffeq import callbacks as cbmod
from probnum.diffeq import stepsize
from pbt.runner import Sub
from . import liblinops as L
from .librv import close

RULE = ("A case is an initial value problem, a step rule with generated error estimates, time "
        "stops and callbacks (or step-rule parameters); non-trivial if the sequence of "
        "attempted steps was compared with the documented step-selection rule.")


class Toy(diffeq.ODESolver):
    """Euler's method with scripted error estimates; records every call."""

    def __init__(self, steprule, order, script):
        super().__init__(steprule=steprule, order=order)
        self.script, self.log = script, []

    def initialize(self, ivp):
        self.log.append(("init",))
        return diffeq.ODESolverState(ivp=ivp, t=ivp.t0, rv=randvars.Constant(np.array(ivp.y0)))

    def attempt_step(self, state, dt):
        e = self.script(sum(1 for x in self.log if x[0] == "try"))
        y = state.rv.mean + dt * state.ivp.f(state.t, state.rv.mean)
        self.log.append(("try", float(state.t), np.array(state.rv.mean), float(dt), e))
        if len(self.log) > 4000:
            raise RuntimeError("endless stepping")
        return diffeq.ODESolverState(ivp=state.ivp, t=state.t + dt, rv=randvars.Constant(y),
                                     error_estimate=np.array(e), reference_state=state.rv.mean)

    def method_callback(self, state):
        self.log.append(("accepted", float(state.t)))

    def rvlist_to_odesol(self, times, rvs):
        return times, rvs


def step_rule(d, n):
    if d.bool(1, 3):
        h = d.pick([0.25, 0.1, 0.3, 1.0, 0.07, 5.0])
        return stepsize.ConstantSteps(h), ("constant", h)
    atol, rtol = d.pick([1.0, 0.5, 0.01]), d.pick([0.25, 1.0, 0.0])
    if d.bool(1, 4):
        atol = d.array(n, 0.25, 2)
    kw = {}
    if d.bool():
        kw["safetyscale"] = d.pick([0.9, 0.5, 0.99])
    if d.bool():
        kw["limitchange"] = d.pick([(0.5, 2.0), (0.1, 5.0)])
    h = d.pick([0.25, 0.1, 1.0, 0.01, 50.0])
    return (stepsize.AdaptiveSteps(h, atol, rtol, **kw),
            ("adaptive", h, atol, rtol, kw.get("limitchange", (0.2, 10.0)),
             kw.get("safetyscale", 0.95)))


def loop(d):
    n = d.int(1, 2)
    t0 = d.pick([0.0, 1.0, -0.7])
    T = d.pick([1.0, 0.3, 2.5, 0.1])
    A, b = d.array((n, n), -1, 1), d.array(n, -1, 1)
    y0 = d.array(n, -2, 2)
    ivp = problems.InitialValueProblem(f=lambda t, y: A @ y + b * t, t0=t0, tmax=t0 + T, y0=y0)
    rule, spec = step_rule(d, n)
    order = d.int(1, 4)
    # error estimates relative to the tolerance; mostly acceptable
    rel = [d.pick([0.5, 0.1, 0.9, 2.0, 0.001, 30.0, 1.5]) for _ in range(12)]
    if spec[0] == "adaptive" and all(r >= 1 for r in rel):
        rel[0] = 0.5
    script = lambda k: np.full(n, rel[k % len(rel)])
    # time stops: sorted, maybe repeated, before the start or after the end
    stops = None
    if d.bool(2, 3):
        stops = sorted(t0 + d.pick([0.5, 0.1, 0.2, 0.9, 1.0, 0.0, -0.5, 1.5, 1 / 3]) * T
                       for _ in range(d.size(0, 4, 15)))
    passed = stops
    if stops is not None:
        passed = d.pick([lambda: list(stops), lambda: np.array(stops), lambda: iter(stops),
                         lambda: tuple(stops)])()
    # callbacks: a jump of the state, a modified end time, or none
    trace, cbs, mods = [], [], []
    for i in range(d.weighted([(2, 0), (2, 1), (1, 2)])):
        what = d.pick(["jump", "tmax", "none"])
        frac, val = d.pick([0.4871, 0.2139, 0.9713]), d.pick([2.0, -1.0, 0.5])
        once = []
        if what == "tmax":
            newT = t0 + T * d.pick([2.0, 0.75, 1.25])
        else:
            newT = None

        def cond(state, frac=frac, once=once, i=i):
            hit = (not once) and state.t >= t0 + frac * T
            trace.append((i, float(state.t), np.array(state.rv.mean), hit))
            return hit

        def repl(state, what=what, val=val, newT=newT, once=once):
            once.append(1)
            if what == "jump":
                return dataclasses.replace(state, rv=randvars.Constant(state.rv.mean + val))
            if what == "tmax":
                new = problems.InitialValueProblem(f=state.ivp.f, t0=state.ivp.t0, tmax=newT,
                                                   y0=state.ivp.y0)
                return dataclasses.replace(state, ivp=new)
            return state
        cbs.append(cbmod.DiscreteCallback(replace=repl, condition=cond))
        mods.append((what, frac, val, newT))
    d.note("problem", "t0=%s T=%s n=%d A=%s b=%s y0=%s rule=%s order=%d errors=%s stops=%s "
           "callbacks=%s" % (t0, T, n, L.fmt(A), L.fmt(b), L.fmt(y0), spec, order, rel, stops,
                             mods))
    d.label(spec[0], *[m[0] for m in mods])
    arg = None if not cbs else (cbs[0] if len(cbs) == 1 and d.bool() else d.pick([list, tuple,
                                                                               iter])(cbs))
    solver = Toy(rule, order, script)
    # ---------------- reference
    ref_t, ref_y, tries, ref_trace = [t0], [y0], [], []
    t, y, tmax, dt, k = t0, y0, t0 + T, spec[1], 0
    fired = [False] * len(mods)
    raised = None
    slop = 1e-9 * max(1, abs(t0) + T)
    while t < tmax - slop and raised is None:
        dt = min(dt, tmax - t)
        for s in (stops or []):
            if s > t + slop:
                dt = min(dt, s - t) if t + dt > s - slop else dt
                break
        if tmax - (t + dt) < slop:
            dt = tmax - t
        while True:
            tries.append((t, y, dt))
            e = script(k)
            k += 1
            if spec[0] == "constant":
                nxt, ok = spec[1], True
            else:
                norm = np.sqrt(np.mean((e / (spec[2] + spec[3] * np.abs(y))) ** 2))
                ok = norm < 1
                fac = min(max(spec[5] * norm ** (-1 / (order + 1)), spec[4][0]), spec[4][1])
                nxt = fac * dt
                if nxt < 1e-15 or nxt > 1e15:
                    raised = True
                    break
            if ok:
                break
            dt = min(nxt, tmax - t)
            d.assume(len(tries) <= 300)
        if raised:
            break
        y, t, dt = y + dt * (A @ y + b * t), t + dt, nxt
        for i, (what, frac, val, newT) in enumerate(mods):
            ref_trace.append((i, t))
            d.assume(abs(t - t0 - frac * T) > slop)
            if not fired[i] and t >= t0 + frac * T:
                fired[i] = True
                if what == "jump":
                    y = y + val
                elif what == "tmax":
                    tmax = newT
        ref_t.append(t)
        ref_y.append(y)
    d.assume(raised or min(c for _, _, c in tries) > 1e-5)
    if raised:
        try:
            solver.solve(ivp, stop_at=passed, callbacks=arg)
        except RuntimeError:
            d.nontrivial()
            return
        d.fail("no error although the step size left [minstep, maxstep]")
    times, rvs = solver.solve(ivp, stop_at=passed, callbacks=arg)
    # knife-edge comparisons of the script against float rounding: same number of tries
    got = [x for x in solver.log if x[0] == "try"]
    times = np.array(times, dtype=float)
    d.check(times[0] == t0, "solution starts at %s, not %s", times[0], t0)
    if len(times) > 1:
        d.check(np.all(np.diff(times) > 0), "grid does not increase strictly: %s", times)
    if not any(m[0] == "tmax" for m in mods):
        d.check(np.all(times <= t0 + T + slop), "grid %s steps past tmax=%s", times, t0 + T)
        d.check(abs(times[-1] - (t0 + T)) <= slop, "grid ends at %s, not tmax=%s", times[-1], t0 + T)
    for s in (stops or []):
        if t0 < s < min(times[-1], tmax):
            d.check(np.min(np.abs(times - s)) <= slop, "time stop %s is not on the grid %s", s, times)
    d.check(len(got) == len(tries), "%d attempted steps, expected %d: %s vs %s", len(got),
            len(tries), [(g[1], g[3]) for g in got], [(a, c) for a, _, c in tries])
    for g, (a, yy, c) in zip(got, tries):
        d.check(abs(g[1] - a) <= slop and close(g[2], yy, 1e-7 * (1 + np.max(np.abs(yy)))),
                "step attempted from t=%s, y=%s; expected t=%s, y=%s", g[1], g[2], a, yy)
        d.check(abs(g[3] - c) <= slop, "attempted step %s at t=%s, expected %s", g[3], g[1], c)
    d.check(len(times) == len(ref_t) and close(times, np.array(ref_t), slop), "grid %s, expected %s",
            times, ref_t)
    for rv, yy in zip(rvs, ref_y):
        d.check(close(np.asarray(rv.mean), yy, 1e-7 * (1 + np.max(np.abs(yy)))),
                "state %s, expected %s", rv.mean, yy)
    acc = [x for x in solver.log if x[0] == "accepted"]
    d.check(len(acc) == len(ref_t) - 1, "method callback called %d times for %d steps", len(acc),
            len(ref_t) - 1)
    d.check([i for i, _, _, _ in trace] == [i for i, _ in ref_trace] and
            close(np.array([x for _, x, _, _ in trace]), np.array([x for _, x in ref_trace]), slop),
            "callbacks were evaluated at %s, expected %s", [(i, x) for i, x, _, _ in trace],
            ref_trace)
    d.nontrivial()


def steprule(d):
    n = d.size(1, 4, 12)
    scal = n == 1 and d.bool()
    atol = d.pick([1e-3, 1.0, 1e-8])
    rtol = d.pick([1e-2, 0.0, 1.0])
    if d.bool() and not scal:
        atol = atol * d.array(n, 0.5, 2)
    if d.bool() and not scal:
        rtol = rtol * d.array(n, 0.5, 2)
    kw = {}
    lim = d.pick([None, (0.5, 2.0), (0.1, 5.0)])
    if lim:
        kw["limitchange"] = lim
    saf = d.pick([None, 0.5, 0.99])
    if saf:
        kw["safetyscale"] = saf
    mi, ma = d.pick([(None, None), (1e-3, 10.0)])
    if mi:
        kw.update(minstep=mi, maxstep=ma)
    rule = stepsize.AdaptiveSteps(d.pos(), atol, rtol, **kw)
    err = d.array(n, -2, 2) * d.pick([1.0, 1e-4, 1e4])
    ref = d.array(n, -3, 3)
    if scal:
        err, ref = float(err[0]), float(ref[0])
        err = np.asarray(err)
    d.note("rule", "atol=%s rtol=%s err=%s ref=%s %s" % (atol, rtol, err, ref, kw))
    want = np.sqrt(np.mean(np.square(err / (atol + rtol * np.abs(ref)))))
    norm = rule.errorest_to_norm(err, ref)
    d.check(abs(norm - want) <= 1e-10 * want, "norm %s, expected %s", norm, want)
    for x in (norm, d.pick([0.999, 1.001, 1e-6, 1e3, 0.25]), 1.0):
        d.check(bool(rule.is_accepted(x)) == (x < 1), "is_accepted(%s)", x)
    h, rate = d.pick([0.1, 1.0, 3.0, 1e-2, 1e-3]), d.int(1, 6)
    e = d.pick([0.5, 2.0, 1e-5, 1e5, 1.0, 0.03]) if d.bool() else float(norm)
    lo, hi = lim or (0.2, 10.0)
    fac = (saf or 0.95) * (1 / e) ** (1 / rate) if e > 0 else np.inf
    want = min(max(fac, lo), hi) * h
    d.assume(abs(want - 1e-3) > 1e-9 and abs(want - 10) > 1e-9)
    bad = want < (mi or 1e-15) or want > (ma or 1e15)
    try:
        with np.errstate(all="ignore"):
            got = rule.suggest(h, np.float64(e), localconvrate=rate)
        d.check(not bad, "suggest returned %s outside [%s, %s]", got, mi, ma)
        d.check(abs(got - want) <= 1e-10 * want, "suggest(%s, %s, %s) = %s, expected %s", h, e,
                rate, got, want)
    except RuntimeError:
        d.check(bad, "suggest raised although %s is an admissible step", want)
    c = stepsize.ConstantSteps(h)
    d.check(c.firststep == h and c.suggest(1.7, e, localconvrate=rate) == h and
            bool(c.is_accepted(1e9)), "constant steps")
    d.nontrivial()


def firststep(d):
    n = d.size(1, 3, 10)
    y0 = d.array(n, -2, 2) * d.pick([1.0, 0.0, 1e3, 1e-7])
    A = d.array((n, n), -2, 2)
    b = d.array(n, -1, 1) if d.bool() else np.zeros(n)
    t0 = d.pick([0.0, 2.0, -1.0])
    f = lambda t, y: A @ y + b * (1 + t)
    ivp = problems.InitialValueProblem(f=f, t0=t0, tmax=t0 + 1, y0=y0)
    a, c = np.linalg.norm(y0), np.linalg.norm(f(t0, y0))
    d.note("ivp", "A=%s b=%s y0=%s t0=%s" % (L.fmt(A), L.fmt(b), L.fmt(y0), t0))
    got = stepsize.propose_firststep(ivp)
    d.check(np.isfinite(got) and got > 0, "proposed first step %s", got)
    if a > 1e-4 and c > 1e-4:
        d.check(abs(got - 0.01 * a / c) < 1e-10 * got, "proposed first step %s, expected %s", got,
                0.01 * a / c)
    d.nontrivial()


def linear_ivp(d, t0=None, T=None):
    n = d.int(1, 3)
    A = d.array((n, n), -1.5, 1.5, den=4)
    # never a vanishing residual: ODE filters cannot handle that (known finding F04 of C16)
    b = d.array(n, 0.5, 1.5)
    y0 = d.array(n, -2, 2)
    t0 = d.pick([0.0, 1.0, -0.5]) if t0 is None else t0
    T = d.pick([1.0, 0.5, 2.0]) if T is None else T
    return A, b, y0, t0, T


def interfaces(d):
    """probsolve_ivp and perturbsolve_ivp: grids, time stops, argument checks."""
    A, b, y0, t0, T = linear_ivp(d)
    f = lambda t, y: A @ y + b * np.cos(3 * t)
    df = lambda t, y: A
    stops = None
    if d.bool(2, 3):
        stops = sorted(t0 + d.pick([0.5, 0.1, 0.25, 0.9, 1.0, 0.0, -0.5, 1.5, 1 / 3]) * T
                       for _ in range(d.int(0, 3)))
    adaptive = d.bool()
    kw = dict(adaptive=adaptive, time_stops=stops)
    if adaptive:
        kw.update(atol=d.pick([1e-2, 1e-4]), rtol=d.pick([1e-2, 1e-4]))
        if d.bool():
            kw["step"] = d.pick([0.1, 0.01, 5.0])
    else:
        kw["step"] = d.pick([0.1, 0.25, 0.3, 0.07, 5.0])
    which = d.pick(["prob", "perturb"])
    d.note("call", "%s A=%s b=%s y0=%s t0=%s T=%s %s" % (which, L.fmt(A), L.fmt(b), L.fmt(y0),
                                                        t0, T, kw))
    d.label(which, "adaptive" if adaptive else "constant")
    if which == "prob":
        kw.update(method=d.pick(["EK0", "EK1", "ek1"]), algo_order=d.int(1, 3),
                  diffusion_model=d.pick(["dynamic", "constant"]), dense_output=d.bool())
        if adaptive and kw["algo_order"] == 1:
            kw.update(atol=1e-2, rtol=1e-2)  # tighter ones take this order many thousand steps
        run = lambda **k: diffeq.probsolve_ivp(f, t0, t0 + T, y0, df=df, **dict(kw, **k))
    else:
        if not adaptive:
            d.assume(min(kw["step"], T) < 1)
        kw.update(method=d.pick(["RK45", "RK23"]), noise_scale=d.pick([1e-3, 0.1]),
                  perturb=d.pick(["step-lognormal", "step-uniform"]))
        seed = d.seed()
        run = lambda **k: diffeq.perturbsolve_ivp(f, t0, t0 + T, y0,
                                                  rng=np.random.default_rng(seed), **dict(kw, **k))
    try:
        sol = run()
    except ValueError as e:
        if which == "perturb" and "Stepsize too large" in str(e):
            return
        raise
    except RuntimeError as e:
        # low-order priors are initialised too inaccurately for tight tolerances
        if which == "prob" and adaptive and (kw["algo_order"] == 1 or kw["atol"] < 1e-3) and "minimum step" in str(e):
            return
        raise
    ts = np.asarray(sol.locations)
    slop = 1e-9 * (1 + abs(t0) + T)
    d.check(ts[0] == t0 and abs(ts[-1] - t0 - T) < slop, "grid from %s to %s instead of %s to %s",
            ts[0], ts[-1], t0, t0 + T)
    d.check(np.all(np.diff(ts) > 0) and np.all(ts <= t0 + T + slop), "grid %s", ts)
    for s in stops or []:
        if t0 <= s <= t0 + T:
            d.check(np.min(np.abs(ts - s)) < slop, "time stop %s not in grid %s", s, ts)
    d.check(len(sol) == len(ts) == len(sol.states), "length %s of the solution, %s locations",
            len(sol), len(ts))
    tol0 = 1e-5 * (1 + np.max(np.abs(y0)))
    d.check(close(np.asarray(sol.states[0].mean), y0, tol0), "initial state %s, expected %s",
            sol.states[0].mean, y0)
    d.check(all(np.all(np.isfinite(s.mean)) and s.mean.shape == y0.shape for s in sol.states),
            "states %s", sol.states.mean)
    if not adaptive:
        gaps = np.diff(ts)
        d.check(np.all(gaps <= kw["step"] + slop), "constant step %s exceeded: %s", kw["step"], gaps)
        # every step that ends neither at a stop nor at the end has exactly the step size
        for i, g in enumerate(gaps):
            ends = [t0 + T] + list(stops or [])
            if min(abs(ts[i + 1] - e) for e in ends) > slop:
                d.check(abs(g - kw["step"]) < slop, "step %s instead of %s", g, kw["step"])
    # argument checks
    bad = d.pick(["method", "none", "tol", "model"])
    try:
        if bad == "method":
            run(method="EK7")
        elif bad == "tol" and adaptive:
            run(atol=None)
        elif bad == "model" and which == "prob":
            run(diffusion_model="banana")
        elif bad == "model":
            run(perturb="banana")
        else:
            bad = None
        d.check(bad is None, "invalid argument (%s) was accepted", bad)
    except ValueError:
        d.check(bad is not None, "ValueError")
    d.nontrivial()


SUBS = [
    Sub("loop", loop, 2000, 40000),
    Sub("steprule", steprule, 2000, 30000),
    Sub("firststep", firststep, 500, 5000),
    Sub("interfaces", interfaces, 160, 4000),
]
