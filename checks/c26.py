"""C26 Every method is a function of its arguments and the generator: no global state, no mutation."""
import warnings

import numpy as np
import scipy.sparse
import scipy.stats

import probnum
from probnum import diffeq, linalg, linops, problems, quad, randprocs, randvars
from probnum.filtsmooth import gaussian, particle
from probnum.linalg import solvers
from probnum.linalg.solvers import belief_updates, beliefs, information_ops, policies, stopping_criteria as sc
from probnum.functions import Zero
from probnum.randprocs import covfuncs
from probnum.randprocs.markov import continuous, discrete, integrator
from pbt.runner import Sub
from .librv import covmat, dense

RULE = ("A case is an entry point with generated arguments, run twice on the same objects and once on freshly "
        "built ones under a different global random state; non-trivial if a numerical result came back.")


def flat(x):
    """All numbers of a result, in order."""
    if x is None or isinstance(x, (str, bytes)):
        return []
    if isinstance(x, (bool, int, float, complex, np.generic)):
        return [np.asarray(x, dtype=float)]
    if isinstance(x, np.ndarray):
        return [np.array(x, dtype=float)] if x.dtype != object else [a for e in x for a in flat(e)]
    if scipy.sparse.issparse(x):
        return [x.toarray()]
    if isinstance(x, linops.LinearOperator):
        return [dense(x)]
    if isinstance(x, randvars.Categorical):
        return flat(x.support) + flat(x.probabilities)
    if isinstance(x, randvars.RandomVariable):
        return flat(x.mean) + flat(x.cov)
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [a for e in x for a in flat(e)]
    raise TypeError(type(x))


def options():
    return {k: getattr(probnum.config, k) for k in ('covariance_inversion_damping', 'matrix_free')}


def same(a, b, tol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if tol == 0.0:
            if not np.array_equal(x, y, equal_nan=True):
                return False
        else:
            s = 1 + np.nanmax(np.abs(x), initial=0.0)
            if not np.allclose(x, y, rtol=0, atol=tol * s, equal_nan=True):
                return False
    return True


# Each builder returns make() -> (run(rng) -> result, input arrays); it draws everything from d first.

def b_problinsolve(d):
    n = d.size(1, 4, 12)
    A = covmat(d, n) + np.eye(n)
    b = d.array(n, -2, 2)
    rep = d.pick(["array", "linop", "sparse"])
    x0 = d.array(n, -1, 1) if d.bool() else None

    def make():
        a, bb = A.copy(), b.copy()
        M = {"array": a, "linop": linops.Matrix(a), "sparse": scipy.sparse.csr_matrix(a)}[rep]
        kw, arrs = {}, [a, bb]
        if x0 is not None:
            kw["x0"] = x0.copy()
            arrs.append(kw["x0"])
        return (lambda rng: linalg.problinsolve(M, bb, **kw)[:3]), arrs
    return "problinsolve", make


def b_pls(d):
    n = d.int(2, 4)
    A = covmat(d, n) + np.eye(n)
    b = d.array(n, -2, 2)
    kind = d.pick(["random", "cg", "bayescg", "kaczmarz", "matrix", "symmatrix"])
    steps = d.int(1, n)
    C = covmat(d, n)
    prior_mat = d.bool()

    def make():
        a, bb, CC, m0 = A.copy(), b.copy(), C.copy(), np.zeros(n)
        sys = problems.LinearSystem(a, bb)
        stop = sc.MaxIterationsStoppingCriterion(steps) | sc.ResidualNormStoppingCriterion(atol=1e-5, rtol=1e-5)
        if kind in ("random", "cg"):
            P = policies.RandomUnitVectorPolicy(replace=False) if kind == "random" else policies.ConjugateGradientPolicy()
            s = solvers.ProbabilisticLinearSolver(
                policy=P, information_op=information_ops.ProjectedResidualInformationOp(),
                belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(), stopping_criterion=stop)
        else:
            s = {"bayescg": solvers.BayesCG, "kaczmarz": solvers.ProbabilisticKaczmarz, "matrix": solvers.MatrixBasedPLS,
                 "symmatrix": solvers.SymMatrixBasedPLS}[kind](stopping_criterion=stop)
        if kind in ("matrix", "symmatrix"):
            K = (linops.Kronecker if kind == "matrix" else linops.SymmetricKronecker)
            kron = (lambda: K(linops.Matrix(CC), linops.Matrix(CC))) if kind == "matrix" else (lambda: K(linops.Matrix(CC)))
            prior = beliefs.LinearSystemBelief(A=randvars.Normal(linops.Identity(n), kron()),
                                               Ainv=randvars.Normal(linops.Identity(n), kron()), b=randvars.Constant(bb))
        else:
            prior = beliefs.LinearSystemBelief(x=randvars.Normal(m0, CC))
        pick = (lambda q: [q.A.mean, q.Ainv.mean]) if kind in ("matrix", "symmatrix") else (lambda q: [q.x])
        return (lambda rng: pick(s.solve(prior, sys, rng=rng)[0]) + pick(prior)), [a, bb, CC, m0]
    return "pls:" + kind, make


def b_bayesquad(d):
    dim = d.int(1, 2)
    pol = d.pick(["bmc", "vdc"] if dim == 1 else ["bmc"])
    dom = (0.0, 1.0)
    meas = d.pick(["lebesgue", "gauss"]) if pol == "bmc" else "lebesgue"
    des = d.pick([None, "mc"] + (["latin"] if meas == "lebesgue" else []))
    coef = d.array(dim, -2, 2)
    n = d.int(3, 8)

    def make():
        opts = {"max_evals": n, "batch_size": 1}
        c = coef.copy()
        fun = lambda x: np.exp(-np.sum((x - 0.3) ** 2, axis=1)) + x @ c
        if des is not None:
            opts["n_initial_design_nodes"] = 2
        kw = dict(policy=pol, initial_design=des, options=opts)
        if meas == "gauss":
            kw["measure"] = quad.integration_measures.GaussianMeasure(mean=0.0, cov=1.0, input_dim=dim)
        else:
            kw["domain"] = dom
        keys = dict(opts)

        def run(rng):
            r, info = quad.bayesquad(fun, dim, rng=rng, **kw)
            assert opts == keys, "options were modified"
            return [r, info.iteration, info.nevals]
        return run, [c]
    return "bayesquad", make


def b_bq_data(d):
    dim = d.int(1, 2)
    n = d.int(1, 6)
    X = np.array([[(i * 0.17 + 0.05 * k + 0.01 * i * i) % 1.0 for k in range(dim)] for i in range(n)])
    y = d.array(n, -2, 2)

    def make():
        x, f = X.copy(), y.copy()
        return (lambda rng: quad.bayesquad_from_data(x, f, domain=(0.0, 1.0))[0]), [x, f]
    return "bayesquad_from_data", make


def b_ivp(d):
    which = d.pick(["EK0", "EK1"])
    adaptive = d.bool()
    order = d.int(1, 3)
    y0 = np.array([d.int(1, 15) / 16.0, d.dyadic(0.25, 1)])
    diff = d.pick(["dynamic", "constant"])
    dense_out = d.bool()
    stops = d.bool()
    seed_t = d.dyadic(0.125, 1.0)

    def make():
        y = y0.copy()
        f = lambda t, v: np.array([v[1] - 0.5 * v[0], -v[0] * v[1]])
        df = lambda t, v: np.array([[-0.5, 1.0], [-v[1], -v[0]]])
        ts = np.array([0.25, 0.5])
        kw = dict(df=df, method=which, adaptive=adaptive, algo_order=order, diffusion_model=diff, dense_output=dense_out)
        if adaptive:
            kw.update(atol=1e-2, rtol=1e-2)
        else:
            kw["step"] = 0.125
        if stops:
            kw["time_stops"] = ts

        def run(rng):
            sol = diffeq.probsolve_ivp(f, 0.0, 1.0, y, **kw)
            out = [sol.locations, list(sol.states), sol(seed_t)]
            if dense_out:
                out.append(sol.sample(rng=rng, t=np.array([0.1, 0.7]), size=2))
            return out
        return run, [y, ts]
    return "probsolve_ivp:" + which, make


def b_perturb(d):
    method = d.pick(["RK45", "RK23"])
    pert = d.pick(["step-lognormal", "step-uniform"])
    adaptive = d.bool()
    y0 = np.array([d.int(1, 15) / 16.0])

    def make():
        y = y0.copy()
        f = lambda t, v: v * (1 - v)
        kw = dict(method=method, perturb=pert, noise_scale=0.5, adaptive=adaptive)
        kw.update(dict(atol=1e-3, rtol=1e-3) if adaptive else dict(step=0.125))

        def run(rng):
            sol = diffeq.perturbsolve_ivp(f, 0.0, 1.0, y, rng=rng, **kw)
            return [sol.locations, list(sol.states), sol(0.3)]
        return run, [y]
    return "perturbsolve_ivp", make


def b_kalman(d):
    q = d.int(1, 2)
    N = d.int(2, 5)
    Y = d.array((N, 1), -2, 2)
    prior = d.pick(["iwp", "matern"])
    smooth = d.bool()

    def make():
        tr = integrator.IntegratedWienerTransition(num_derivatives=q, wiener_process_dimension=1) if prior == "iwp" else \
            integrator.MaternTransition(num_derivatives=q, wiener_process_dimension=1, lengthscale=1.0)
        proc = randprocs.markov.MarkovProcess(initarg=0.0, initrv=randvars.Normal(np.zeros(q + 1), np.eye(q + 1)), transition=tr)
        y, ts = Y.copy(), 0.25 * np.arange(N)
        H = np.eye(1, q + 1)
        mm = discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(np.zeros(1), 0.1 * np.eye(1)))
        prob = problems.TimeSeriesRegressionProblem(observations=y, locations=ts, measurement_models=mm)
        kal = gaussian.Kalman(proc)

        def run(rng):
            post = (kal.filtsmooth if smooth else kal.filter)(prob)[0]
            out = [list(post.states), post(np.array([0.1, 0.3]))]
            if smooth:
                out.append(post.sample(rng=rng, size=2))
            return [list(post.locations), [list(o) if isinstance(o, list) else o for o in out]]
        return run, [y, ts, H]
    return "kalman", make


def b_particle(d):
    N, Np = d.int(1, 3), d.pick([5, 20])
    Y = d.array((N, 1), -2, 2)
    imp = d.pick(["bootstrap", "ekf"])
    thr = d.pick([0.1, 2.0])

    def make():
        tr = continuous.LTISDE(-0.5 * np.eye(1), np.zeros(1), np.eye(1))
        proc = randprocs.markov.MarkovProcess(initarg=0.0, initrv=randvars.Normal(np.zeros(1), np.eye(1)), transition=tr)
        y, ts = Y.copy(), 0.5 * np.arange(N)
        mm = discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), 0.5 * np.eye(1)))
        prob = problems.TimeSeriesRegressionProblem(observations=y, locations=ts, measurement_models=mm)
        im = particle.BootstrapImportanceDistribution(tr) if imp == "bootstrap" else particle.LinearizationImportanceDistribution.from_ekf(tr)

        def run(rng):
            pf = particle.ParticleFilter(proc, im, num_particles=Np, rng=rng, resampling_percentage_threshold=thr)
            return list(pf.filter(prob)[0].states)
        return run, [y, ts]
    return "particle", make


def b_sample_rv(d):
    k = d.pick(["scalar", "vector", "matrix", "kron", "constant", "categorical", "scipy", "arith"])
    n = d.size(1, 3, 8)
    m, C = d.array(n, -2, 2), covmat(d, n)
    C2 = covmat(d, 2)
    p = d.array(3, 0.25, 4)
    size = d.pick([(), 3, (2, 2), (0,)])
    sp = d.pick(["gamma", "beta", "poisson", "norm", "mvn", "bernoulli", "dirichlet"])

    def make():
        mm, CC = m.copy(), C.copy()
        arrs = [mm, CC]
        build = {
            "scalar": lambda: randvars.Normal(float(m[0]), float(C[0, 0])),
            "vector": lambda: randvars.Normal(mm, CC),
            "matrix": lambda: randvars.Normal(np.outer(mm, [1.0, 2.0]), np.kron(CC, C2)),
            "kron": lambda: randvars.Normal(np.outer(mm, [1.0, 2.0]), linops.Kronecker(CC, C2)),
            "constant": lambda: randvars.Constant(mm),
            "categorical": lambda: randvars.Categorical(probabilities=p / p.sum(), support=np.array([[1.0], [2.0], [4.0]])),
            "arith": lambda: 2.0 * randvars.Normal(mm, CC) + mm,
            "scipy": lambda: randvars.asrandvar({
                "gamma": scipy.stats.gamma(2.0), "beta": scipy.stats.beta(2.0, 3.0), "poisson": scipy.stats.poisson(3.0),
                "norm": scipy.stats.norm(1.0, 2.0), "mvn": scipy.stats.multivariate_normal(np.zeros(2), C2),
                "bernoulli": scipy.stats.bernoulli(0.3), "dirichlet": scipy.stats.dirichlet([1.0, 2.0])}[sp]),
        }[k]
        rv = build()

        def run(rng):
            out = [rv.sample(rng, size)]
            if k == "categorical":
                out.append(rv.resample(rng))
            if k in ("vector", "matrix", "kron", "scalar", "arith"):
                out += [rv.mean, dense(rv.cov), rv.var, rv.std, rv.logpdf(rv.mean)]
            if k == "scipy":
                out.append(flat(build().sample(rng, size)))
            return out
        return run, arrs
    return "sample:" + k + (":" + sp if k == "scipy" else ""), make


def b_process(d):
    k = d.pick(["gp", "markov", "markov_seq"])
    n = d.size(1, 4, 10)
    X = np.sort(d.array((n,), 0, 3, 16)) + 0.01 * np.arange(n)
    size = d.pick([(), 2])

    def make():
        x = X.copy()
        if k == "gp":
            gp = randprocs.GaussianProcess(mean=Zero((), ()), cov=covfuncs.Matern((), nu=1.5))
            return (lambda rng: [gp.sample(rng, x, size), gp.mean(x), gp.cov.matrix(x), gp.std(x)]), [x]
        if k == "markov":
            tr = integrator.IntegratedWienerTransition(num_derivatives=1, wiener_process_dimension=1)
            proc = randprocs.markov.MarkovProcess(initarg=0.0, initrv=randvars.Normal(np.zeros(2), np.eye(2)), transition=tr)
            x += 0.25
        else:
            tr = discrete.LTIGaussian(transition_matrix=0.5 * np.eye(2), noise=randvars.Normal(np.zeros(2), np.eye(2)))
            proc = randprocs.markov.MarkovSequence(initarg=0.0, initrv=randvars.Normal(np.zeros(2), np.eye(2)), transition=tr)
        return (lambda rng: proc.sample(rng=rng, args=x, size=size)), [x]
    return "process:" + k, make


def b_zoo(d):
    k = d.pick(["spd", "sparse", "linsys", "ou", "pendulum", "measure", "design"])
    n = d.size(1, 4, 10)
    spec = d.array(n, 0.25, 4)

    def make():
        s = spec.copy()
        from probnum.problems.zoo import filtsmooth as FZ, linalg as LZ
        from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
        from probnum.quad.solvers.initial_designs import LatinDesign, MCDesign
        grid = np.array([0.0, 0.5, 1.0])
        data = lambda p: [p[0].observations, p[0].locations, p[0].solution]
        fn = {"spd": lambda r: LZ.random_spd_matrix(r, n, s), "sparse": lambda r: LZ.random_sparse_spd_matrix(r, 5, 0.5),
              "linsys": lambda r: [LZ.random_linear_system(r, np.diag(s)).solution],
              "ou": lambda r: data(FZ.ornstein_uhlenbeck(r, time_grid=grid)),
              "pendulum": lambda r: data(FZ.pendulum(r, timespan=(0.0, 0.1), step=0.025)),
              "measure": lambda r: [LebesgueMeasure(domain=(0.0, 1.0), input_dim=n).sample(3, r), GaussianMeasure(np.zeros(n), np.diag(s)).sample(3, r)],
              "design": lambda r: [LatinDesign(4, LebesgueMeasure(domain=(0.0, 1.0), input_dim=n))(r), MCDesign(4, LebesgueMeasure(domain=(0.0, 1.0), input_dim=n))(r)],
              }[k]
        return fn, [s, grid]
    return "zoo:" + k, make


def judge(builder):
    def fn(d):
        name, make = builder(d)
        d.label(name)
        seed = d.seed()
        g1, g2 = d.int(0, 10**6), d.int(0, 10**6)
        d.note("entry", name)
        opts = options()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(g1)
            st = np.random.get_state()
            run, arrs = make()
            snap = [a.copy() for a in arrs]
            rng = np.random.default_rng(seed)
            try:
                r1 = flat(run(rng))
            except (RuntimeError, np.linalg.LinAlgError) as e:
                if isinstance(e, (NotImplementedError, RecursionError)):
                    raise
                d.inconclusive("%s: %s" % (name, e))
            end1 = rng.bit_generator.state["state"]
            st2 = np.random.get_state()
            d.check(st[0] == st2[0] and np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], "%s changed the global random state", name)
            for a, b in zip(arrs, snap):
                d.check(np.array_equal(a, b), "%s modified its input: %s -> %s", name, b, a)
            d.check(options() == opts, "%s changed the configuration", name)
            # same objects again
            rng = np.random.default_rng(seed)
            r2 = flat(run(rng))
            d.check(same(r1, r2, 1e-8), "%s: a second run on the same objects differs: %s vs %s", name, r1, r2)
            d.check(rng.bit_generator.state["state"] == end1, "%s: the second run consumed a different amount of randomness", name)
            for a, b in zip(arrs, snap):
                d.check(np.array_equal(a, b), "%s modified its input on the second run", name)
            # fresh objects, other global state
            np.random.seed(g2)
            run3, arrs3 = make()
            r3 = flat(run3(np.random.default_rng(seed)))
            d.check(same(r1, r3, 1e-8), "%s: depends on something else than its arguments and the generator: %s vs %s", name, r1, r3)
        d.check(len(r1) > 0, "no result")
        d.nontrivial()
    return fn


SUBS = [
    Sub("linsolve", judge(b_problinsolve), 200, 3000),
    Sub("pls", judge(b_pls), 120, 2000),
    Sub("bayesquad", judge(b_bayesquad), 60, 800),
    Sub("bq_data", judge(b_bq_data), 80, 1000),
    Sub("probsolve", judge(b_ivp), 60, 800),
    Sub("perturb", judge(b_perturb), 60, 800),
    Sub("kalman", judge(b_kalman), 120, 1500),
    Sub("particle", judge(b_particle), 60, 800),
    Sub("sample_rv", judge(b_sample_rv), 500, 8000),
    Sub("process", judge(b_process), 200, 3000),
    Sub("zoo", judge(b_zoo), 150, 2000),
]
