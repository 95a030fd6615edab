"""C12 Kalman filtering and smoothing equal batch Gaussian regression; dense output and samples."""
import numpy as np

from probnum import problems, randprocs, randvars
from probnum.filtsmooth import gaussian
from probnum.filtsmooth.utils import merge_regression_problems
from probnum.randprocs.markov import continuous, discrete
from pbt.runner import Sub
from . import c11
from . import libgauss as G
from . import liblinops as L
from .librv import close, dense

RULE = ("A case is a Gauss-Markov prior (continuous or discrete, time-varying), a time grid, "
        "one measurement model per point and data, plus a query (filter, smoother, dense output, "
        "samples); non-trivial if the posterior was compared with conditioning the joint "
        "Gaussian of all states on all data.")


class Prior:
    """A Gauss-Markov prior together with exact transition matrices between time points."""

    def __init__(self, d, fwd, bwd, dense_output=False, max_n=3):
        kinds = ["integrator", "lti"] + ([] if dense_output else ["sequence"])
        self.kind = d.pick(kinds)
        self.t0 = d.pick([0.0, 1.0, -0.5])
        if self.kind == "integrator":
            tr, k, q, dim, F1, L1, desc = c11.prior(d, fwd, bwd, max_q=2)
            self.F, self.v = np.kron(np.eye(dim), F1), np.zeros(dim * (q + 1))
            Lm = np.kron(np.eye(dim), L1)
            self.LL = Lm @ Lm.T
            self.desc = desc
        elif self.kind == "lti":
            n = d.int(1, max_n)
            self.F, self.v = d.array((n, n), -1, 1, den=4), d.array(n, -1, 1, den=4)
            Lm = np.tril(d.array((n, n), -1, 1, den=4), -1) + np.diag(d.array(n, 0.5, 1.5, den=4))
            self.LL = Lm @ Lm.T
            tr = continuous.LTISDE(self.F, self.v, Lm, forward_implementation=fwd,
                                   backward_implementation=bwd)
            self.desc = "lti(F=%s v=%s L=%s)" % (L.fmt(self.F), L.fmt(self.v), L.fmt(Lm))
        else:
            n = d.int(1, max_n)
            self.mod = G.Model(d, n, n, fwd, bwd, noise="normal")
            tr = self.mod.tr
            self.desc = "sequence(%s)" % self.mod.desc()
        self.n = tr.state_dimension if self.kind != "sequence" else tr.input_dim
        self.rv0, self.m0, self.P0 = G.normal(d, self.n)
        cls = randprocs.markov.MarkovSequence if self.kind == "sequence" else randprocs.markov.MarkovProcess
        self.proc = cls(initarg=self.t0, initrv=self.rv0, transition=tr)
        self._cache = {}

    def step(self, t, dt, dif=1.0):
        if self.kind == "sequence":
            return self.mod.at(t, dif)
        if dt not in self._cache:
            self._cache[dt] = c11.exact(self.F, self.v, self.LL, dt)
        A, s, Q = self._cache[dt]
        return A, s, dif * Q

    def joint(self, grid, difs=None):
        """Joint moments of the states on a grid starting at t0."""
        steps = [self.step(grid[i], grid[i + 1] - grid[i], 1.0 if difs is None else difs[i])
                 for i in range(len(grid) - 1)]
        return G.joint(self.m0, self.P0, steps)


def setup(d, dense_output=False, max_N=4, tv_meas=None):
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    pr = Prior(d, fwd, bwd, dense_output)
    N = d.size(1, max_N, 6 * max_N, 15)
    first = pr.t0 + (0.0 if d.bool() else d.pick([0.5, 0.25]))
    ts = first + np.concatenate(([0.0], np.cumsum([d.pick([0.5, 1.0, 0.25]) for _ in range(N - 1)])))
    shared = d.bool()
    models, Y = [], []
    for i in range(N):
        if shared and models:
            mm = models[0]
        else:
            mm = G.Model(d, pr.n, (models[0].n_out if models and d.bool() else d.int(1, min(pr.n, 2))),
                         d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"]),
                         noise="normal", tv=tv_meas)
        models.append(mm)
        Y.append(d.array(mm.n_out, -3, 3))
    d.note("prior", "%s %s/%s t0=%s N(%s, %s)" % (pr.desc, fwd, bwd, pr.t0, L.fmt(pr.m0), L.fmt(pr.P0)))
    d.note("grid", L.fmt(ts))
    d.note("models", [m.desc() for m in (models[:1] if shared else models)])
    d.note("data", [L.fmt(y) for y in Y])
    mm = models[0].tr if shared and d.bool() else [m.tr for m in models]
    same = len({len(y) for y in Y}) == 1
    obs = np.array(Y) if same and d.bool() else Y
    prob = problems.TimeSeriesRegressionProblem(
        observations=obs, locations=ts if d.bool() else list(ts), measurement_models=mm)
    return pr, ts, models, Y, prob


class Ref:
    """Batch reference: joint prior on a grid, conditioned on subsets of the data."""

    def __init__(self, d, pr, ts, models, Y, extra=(), difs=None):
        self.grid = sorted(set([pr.t0] + list(ts) + list(extra)))
        self.n = pr.n
        dd = None
        if difs is not None:
            dd = [difs(0.5 * (a + b)) for a, b in zip(self.grid[:-1], self.grid[1:])]
        self.M, self.C = pr.joint(self.grid, dd)
        self.obs = []
        for t, mm, y in zip(ts, models, Y):
            H, b, R = mm.at(t)
            self.obs.append((t, (self.sl(t), H, b, R, y)))
        self.cond = 1.0
        for t, (sl, H, b, R, y) in self.obs:
            S = H @ self.C[sl, sl] @ H.T + R
            self.cond = max(self.cond, np.linalg.cond(S), G.mag(self.C[sl, sl]) / np.min(np.linalg.eigvalsh(R)))
        for a in self.grid:
            self.cond = max(self.cond, np.linalg.cond(self.C[self.sl(a), self.sl(a)]))
        d.assume(self.cond < 1e6 and G.mag(self.C) < 1e6)
        self.tol = 1e-8 * G.mag(self.M, self.C, *Y) * max(1, self.cond)

    def sl(self, t):
        i = self.grid.index(t)
        return slice(i * self.n, (i + 1) * self.n)

    def posterior(self, upto=np.inf):
        return G.condition_joint(self.M, self.C, [o for t, o in self.obs if t <= upto])

    def marg(self, t, upto=np.inf):
        m, P = self.posterior(upto)
        s = self.sl(t)
        return m[s], P[s, s]


def filtsmooth(d):
    pr, ts, models, Y, prob = setup(d)
    ref = Ref(d, pr, ts, models, Y)
    kal = gaussian.Kalman(pr.proc)
    filt, infos = kal.filter(prob)
    d.check(len(filt) == len(ts) and close(filt.locations, ts, 0), "filter locations %s", filt.locations)
    for i, t in enumerate(ts):
        m, P = ref.marg(t, t)
        G.check_normal(d, filt.states[i], m, P, ref.tol, "filter[%d]" % i)
    if d.bool():
        sm = kal.smooth(filt)
    else:
        sm, _ = kal.filtsmooth(prob)
    d.check(len(sm) == len(ts) and close(sm.locations, ts, 0), "smoother locations %s", sm.locations)
    for i, t in enumerate(ts):
        m, P = ref.marg(t)
        G.check_normal(d, sm.states[i], m, P, ref.tol * 10, "smoother[%d]" % i)
    # smoothing must not have changed the filtering posterior
    for i, t in enumerate(ts):
        m, P = ref.marg(t, t)
        G.check_normal(d, filt[i], m, P, ref.tol, "filter[%d] after smoothing" % i)
    L0 = sm.states
    d.check(close(L0.mean, np.stack([s.mean for s in sm.states]), 0), "states.mean")
    d.nontrivial()


def dense_out(d):
    pr, ts, models, Y, prob = setup(d, dense_output=True)
    extra = []
    for i in range(len(ts) - 1):
        if d.bool(2, 3):
            extra.append(float(ts[i] + d.pick([0.5, 0.25]) * (ts[i + 1] - ts[i])))
    if d.bool() or not extra:
        extra.append(float(ts[-1]) + d.pick([0.5, 1.0]))
    ref = Ref(d, pr, ts, models, Y, extra)
    kal = gaussian.Kalman(pr.proc)
    filt, _ = kal.filter(prob)
    sm = kal.smooth(filt)
    q = sorted(extra + [float(t) for t in ts if d.bool(1, 3)])
    if d.bool(1, 4):
        q = sorted(q + [q[0]])
    d.note("queries", q)
    tol = ref.tol * 10
    arg = d.pick([np.array, list, tuple])(q)
    out_s, out_f = sm(arg), filt(arg)
    d.check(len(out_s) == len(q) and len(out_f) == len(q), "number of dense outputs")
    for i, t in enumerate(q):
        m, P = ref.marg(t)
        G.check_normal(d, out_s[i], m, P, tol, "smoother(%s)" % t)
        m, P = ref.marg(t, t)
        G.check_normal(d, out_f[i], m, P, tol, "filter(%s)" % t)
    t = d.pick(q)
    x = d.pick([float, np.float64, np.asarray])(t)
    G.check_normal(d, sm(x), *ref.marg(t), tol, "smoother at a single location")
    G.check_normal(d, filt(x), *ref.marg(t, t), tol, "filter at a single location")
    if len(set(q)) > 1:
        for post in (sm, filt):
            try:
                post(np.array(q[::-1]))
            except ValueError:
                continue
            d.fail("unsorted locations accepted")
    for post in (sm, filt):
        try:
            post(float(ts[0]) - 1.0)
        except NotImplementedError:
            continue
        d.fail("extrapolation to the left returned a value")
    d.nontrivial()


def samples(d):
    """Transforming the base measure yields the joint posterior; samples are draws of that map."""
    pr, ts, models, Y, prob = setup(d, dense_output=True, max_N=3)
    extra = [float(ts[i] + 0.5 * (ts[i + 1] - ts[i])) for i in range(len(ts) - 1) if d.bool()]
    if d.bool():
        extra.append(float(ts[-1]) + d.pick([0.5, 1.0]))
        if d.bool():
            extra.append(extra[-1] + 0.5)
    ref = Ref(d, pr, ts, models, Y, extra)
    sm, _ = gaussian.Kalman(pr.proc).filtsmooth(prob)
    grid = np.array(sorted(list(ts) + extra))
    d.note("sample grid", L.fmt(grid))
    n, K = pr.n, len(grid)
    M, C = ref.posterior()
    idx = np.concatenate([np.arange(ref.sl(t).start, ref.sl(t).stop) for t in grid])
    M, C = M[idx], C[np.ix_(idx, idx)]
    tr = lambda B: np.asarray(sm.transform_base_measure_realizations(B, t=grid))
    Z = tr(np.zeros((K, n)))
    d.check(Z.shape == (K, n), "transform_base_measure_realizations shape %s", Z.shape)
    E = tr(np.eye(K * n).reshape(K * n, K, n)).reshape(K * n, K * n)
    z0 = Z.reshape(-1)
    F = (E - z0).T
    tol = ref.tol * 20
    d.check(close(z0, M, tol), "mean of samples %s, expected %s", z0, M)
    d.check(close(F @ F.T, C, tol), "covariance of samples %s, expected %s", F @ F.T, C)
    # sample() on requested locations, in the requested order
    rng = lambda: np.random.default_rng(seed)
    seed = d.seed()
    size = d.pick([(), (2,), 3, (2, 2)])
    sh = (size,) if isinstance(size, int) else size
    s = sm.sample(rng(), size=size)
    d.check(np.shape(s) == sh + (len(ts), n), "sample shape %s, expected %s", np.shape(s), sh + (len(ts), n))
    d.check(np.array_equal(s, sm.sample(rng=rng(), size=size)), "same seed, different samples")
    if extra:
        a = sm.sample(rng(), t=grid, size=size)
        d.check(np.shape(a) == sh + (K, n), "sample shape %s", np.shape(a))
        full = a
        perm = d.shuffled(range(K)) + ([d.int(0, K - 1)] if d.bool() else [])
        sub_ = [i for i in perm if grid[i] in extra] or perm
        # requesting a part of the locations (all off-grid ones) leaves the path unchanged
        take = perm if d.bool() else [i for i in perm if True]
        b = sm.sample(rng(), t=grid[take], size=size)
        d.check(np.shape(b) == sh + (len(take), n), "sample at %s has shape %s", grid[take], np.shape(b))
        d.check(close(b, full[..., take, :], tol), "samples at %s are not in the requested order",
                grid[take])
    # draws are distributed like the map of standard normals
    if d.bool(1, 8):
        NS = 250
        s = sm.sample(rng(), t=grid, size=(NS,)).reshape(NS, -1) - M
        ev, V = np.linalg.eigh(C)
        keep = ev > 1e-6 * max(ev[-1], 1e-6)
        W = s @ V[:, keep] / np.sqrt(ev[keep])
        Ee = W.T @ W / NS - np.eye(W.shape[1])
        d.check(np.max(np.abs(Ee)) < 7 * np.sqrt(2 / NS) * 1.3 and
                np.max(np.abs(W.mean(0))) < 7 / np.sqrt(NS), "samples have the wrong distribution: %s", Ee)
    d.nontrivial()


def smoother_diffusion(d):
    """Posteriors with a piecewise-constant diffusion use the right interval everywhere."""
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    pr = Prior(d, fwd, bwd, dense_output=True)
    N = d.int(2, 4)
    ts = pr.t0 + np.concatenate(([0.0], np.cumsum([d.pick([0.5, 1.0]) for _ in range(N - 1)])))
    dif = continuous.PiecewiseConstantDiffusion(pr.t0)
    vals = [d.pick([1.0, 4.0, 0.25, 2.0]) for _ in range(N - 1)]
    for v, t in zip(vals, ts[1:]):
        dif.update_in_place(v, t)
    val = lambda s: vals[min(max(int(np.searchsorted(ts, s, side="right")) - 1, 0), N - 2)]
    n = pr.n
    mm = G.Model(d, n, 1, noise="normal", tv=False)
    Y = [d.array(1, -2, 2) for _ in ts]
    d.note("case", "%s grid %s diffusions %s H=%s data %s" % (pr.desc, L.fmt(ts), vals, mm.desc(), Y))
    extra = [float(0.5 * (a + b)) for a, b in zip(ts[:-1], ts[1:]) if d.bool()] + [float(ts[-1]) + 0.5]
    ref = Ref(d, pr, ts, [mm] * N, Y, extra, difs=val)
    # filtering states from the reference (exact)
    states = [randvars.Normal(*ref.marg(t, t)) for t in ts]
    tr = pr.proc.transition
    filt = gaussian.FilteringPosterior(tr, locations=ts, states=states, diffusion_model=dif)
    rv_list = tr.smooth_list(filt.states, ts, _diffusion_list=dif[np.arange(N - 1)])
    sm = gaussian.SmoothingPosterior(filt, tr, locations=ts, states=rv_list, diffusion_model=dif)
    q = np.array(sorted(list(ts) + extra))
    tol = ref.tol * 50
    for t, f, s in zip(q, filt(q), sm(q)):
        G.check_normal(d, f, *ref.marg(t, t), tol, "filter(%s)" % t)
        G.check_normal(d, s, *ref.marg(t), tol, "smoother(%s)" % t)
    M, C = ref.posterior()
    K = len(q)
    idx = np.concatenate([np.arange(ref.sl(t).start, ref.sl(t).stop) for t in q])
    M, C = M[idx], C[np.ix_(idx, idx)]
    z0 = np.asarray(sm.transform_base_measure_realizations(np.zeros((K, n)), t=q)).reshape(-1)
    E = np.asarray(sm.transform_base_measure_realizations(np.eye(K * n).reshape(K * n, K, n), t=q))
    Fm = (E.reshape(K * n, K * n) - z0).T
    d.check(close(z0, M, tol) and close(Fm @ Fm.T, C, tol), "samples: covariance %s, expected %s",
            Fm @ Fm.T, C)
    d.nontrivial()


def online(d):
    """Filtering is sequential: states on a prefix do not depend on later data, and splitting
    or merging data sets gives the same result."""
    pr, ts, models, Y, prob = setup(d)
    N = len(ts)
    k = d.int(1, N)
    ref = Ref(d, pr, ts, models, Y)
    kal = gaussian.Kalman(pr.proc)
    gen = kal.filtered_states_generator(prob)
    for i in range(k):
        t, rv, _ = next(gen)
        d.check(t == ts[i], "generator location %s", t)
        G.check_normal(d, rv, *ref.marg(ts[i], ts[i]), ref.tol, "generator state %d" % i)
    if len({len(y) for y in Y}) == 1 and N >= 2:
        mask = [d.bool() for _ in ts]
        mask[0], mask[-1] = True, False
        a = [i for i in range(N) if mask[i]]
        b = [i for i in range(N) if not mask[i]]
        order = d.bool()
        mk = lambda ii: problems.TimeSeriesRegressionProblem(
            observations=np.array([Y[i] for i in ii]), locations=ts[ii],
            measurement_models=[models[i].tr for i in ii])
        parts = (mk(a), mk(b)) if order else (mk(b), mk(a))
        merged = merge_regression_problems(*parts)
        d.check(close(merged.locations, ts, 0), "merged locations %s", merged.locations)
        f, _ = kal.filter(merged)
        for i, t in enumerate(ts):
            G.check_normal(d, f.states[i], *ref.marg(t, t), ref.tol, "merged problem, filter[%d]" % i)
        try:
            merge_regression_problems(mk(a), mk(a))
        except ValueError:
            pass
        else:
            d.fail("problems sharing locations were merged")
    if N >= 2:
        bad = d.pick(["repeat", "unsorted"])
        loc = ts.copy()
        loc[1] = loc[0] if bad == "repeat" else loc[0] - 0.25
        try:
            kal.filter(problems.TimeSeriesRegressionProblem(
                observations=Y, locations=loc, measurement_models=[m.tr for m in models]))
        except ValueError:
            pass
        else:
            d.fail("%s locations accepted" % bad)
    d.nontrivial()


def units(d):
    """Measuring time, states and observations in other units (powers of two) changes the
    estimates only by the units."""
    fwd, bwd = d.pick(["classic", "sqrt"]), d.pick(["classic", "sqrt", "joseph"])
    n, m, N = d.int(1, 3), d.int(1, 2), d.size(1, 4, 15)
    F, v = d.array((n, n), -1, 1, den=4), d.array(n, -1, 1, den=4)
    Lm = np.tril(d.array((n, n), -1, 1, den=4), -1) + np.diag(d.array(n, 0.5, 1.5, den=4))
    H, b, R = d.array((m, n), -2, 2), d.array(m, -1, 1), G.spd(d, m)
    m0, P0 = d.array(n, -3, 3), G.spd(d, n)
    ts = np.cumsum([0.0 if d.bool() else 0.25] + [d.pick([0.5, 1.0, 0.25]) for _ in range(N - 1)])
    Y = d.array((N, m), -3, 3)
    s, y, c = 2.0 ** d.pick([0, -5, 8, 14]), 2.0 ** d.pick([0, -5, 8, 14]), 2.0 ** d.pick([0, -7, 6, 12])
    q = ts[0] + (ts[-1] - ts[0] + 0.5) * d.pick([0.3, 0.7, 1.25])
    d.note("problem", "F=%s v=%s L=%s H=%s b=%s R=%s N(%s,%s) t=%s Y=%s fwd=%s bwd=%s, units x %g y %g t %g" % (
        tuple(map(L.fmt, (F, v, Lm, H, b, R, m0, P0, ts, Y))) + (fwd, bwd, s, y, c)))

    def solve(s, y, c):
        tr = continuous.LTISDE(F / c, s * v / c, s * Lm / np.sqrt(c), forward_implementation=fwd, backward_implementation=bwd)
        x0 = randvars.Normal(s * m0, s * s * P0, s * np.linalg.cholesky(P0))
        mm = discrete.LTIGaussian(transition_matrix=H * y / s, noise=randvars.Normal(y * b, y * y * R, y * np.linalg.cholesky(R)),
                                  forward_implementation=fwd, backward_implementation=bwd)
        prob = problems.TimeSeriesRegressionProblem(observations=y * Y, locations=c * ts, measurement_models=mm)
        kal = gaussian.Kalman(randprocs.markov.MarkovProcess(initarg=0.0, initrv=x0, transition=tr))
        f, _ = kal.filter(prob)
        sm = kal.smooth(f)
        rvs = [("filter[%d]" % i, rv) for i, rv in enumerate(f.states)] + [("smoother[%d]" % i, rv) for i, rv in enumerate(sm.states)]
        if q > 0:
            rvs += [("filter(%g)" % q, f(c * q)), ("smoother(%g)" % q, sm(c * q))]
        return [(w, dense(rv.mean) / s, dense(rv.cov) / s ** 2) for w, rv in rvs]

    for (w, a, A), (_, e, E) in zip(solve(s, y, c), solve(1.0, 1.0, 1.0)):
        tol = 1e-6 * G.mag(e, E, Y, m0, P0)
        d.check(close(a, e, tol), "%s: mean %s in other units, %s", w, a, e)
        d.check(close(A, E, tol), "%s: cov %s in other units, %s", w, A, E)
    d.nontrivial()


SUBS = [
    Sub("units", units, 150, 4000),
    Sub("filtsmooth", filtsmooth, 800, 25000),
    Sub("dense_out", dense_out, 450, 15000),
    Sub("samples", samples, 250, 8000),
    Sub("smoother_diffusion", smoother_diffusion, 200, 6000),
    Sub("online", online, 300, 10000),
]
