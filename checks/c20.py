"""C20 Bayesian quadrature: the integral belief is the Gaussian process posterior."""
import warnings

import numpy as np

from probnum import randvars
from probnum.quad import bayesquad, bayesquad_from_data, multilevel_bayesquad_from_data
from probnum.quad.integration_measures import LebesgueMeasure
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.quad.solvers import BayesianQuadrature, BQState
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.stopping_criteria import ImmediateStop
from probnum.randprocs.covfuncs import ExpQuad, Matern
from pbt.runner import Sub
from . import libquad as Q
from .librv import close

RULE = ("A case is an integration measure, a kernel, nodes (distinct, possibly outside the domain), "
        "function values, jitter and scale estimation; non-trivial if an integral belief was compared "
        "with dense Gaussian conditioning on at least one node.")


def nodes_for(d, q, n):
    for _ in range(3):
        X = Q.points(d, q, n, outside=d.bool(1, 4))
        K = Q.kmat(q, X, X)
        if np.linalg.cond(K) < 1e7:
            return X
    d.inconclusive("ill-conditioned Gram matrix")


def options(d):
    """(options dict, jitter, scale estimation)"""
    jitter = d.pick([None, 0.0, 1e-3, 0.5])
    scale = d.pick(["default", "mle", None])
    o = {}
    if jitter is not None:
        o["jitter"] = jitter
    if scale != "default":
        o["scale_estimation"] = scale
    d.label(f"jitter:{jitter}", f"scale:{scale}")
    return (o if o or d.bool() else None), (1e-8 if jitter is None else jitter), ("mle" if scale == "default" else scale)


class Ref:
    def __init__(self, q, X, f, jitter, scale):
        self.q, self.X, self.f = q, X, f
        self.K = Q.kmat(q, X, X)
        self.z = Q.kmean(q, X)
        self.kpp = Q.kvar(q)
        A = self.K + jitter * np.eye(len(X))
        self.A = A
        self.tol = 1e-14 * np.linalg.cond(A) + 1e-8
        w = np.linalg.solve(A, self.z)
        self.mean = w @ f
        self.scale = f @ np.linalg.solve(A, f) / len(f) if scale == "mle" else 1.0
        self.var = self.scale * (self.kpp - w @ self.z)
        self.mtol = self.tol * (1 + np.sum(np.abs(w)) * np.max(np.abs(f)))
        self.stol = self.tol * (1 + abs(self.scale))
        self.vtol = self.tol * (1 + abs(self.scale)) * (1 + self.kpp + np.sum(np.abs(w * self.z)))

    def predict(self, Z):
        kx = Q.kmat(self.q, self.X, Z)
        w = np.linalg.solve(self.A, kx)
        return w.T @ self.f, self.scale * (1.0 - np.sum(w * kx, axis=0))


def compare(d, belief, ref, what):
    d.check(isinstance(belief, randvars.Normal) and belief.shape == (), "%s: belief %s", what, belief)
    d.check(close(belief.mean, ref.mean, ref.mtol), "%s: integral mean %s != %s", what, belief.mean, ref.mean)
    d.check(close(belief.var, ref.var, ref.vtol), "%s: integral variance %s != %s", what, belief.var, ref.var)
    d.check(belief.var <= ref.scale * ref.kpp + ref.vtol, "%s: variance increased", what)


def compare_state(d, st, ref, what):
    n = len(ref.X)
    d.check(np.array_equal(st.nodes, ref.X), "%s: nodes", what)
    d.check(np.array_equal(np.asarray(st.fun_evals), ref.f), "%s: fun_evals", what)
    d.check(np.shape(st.gram) == (n, n) and close(st.gram, ref.K, 1e-9), "%s: Gram matrix", what)
    d.check(close(st.kernel_means, ref.z, 1e-8 * (1 + np.max(np.abs(ref.z)))), "%s: kernel means", what)
    d.check(close(st.scale_sq, ref.scale, ref.stol), "%s: scale %s != %s", what, st.scale_sq, ref.scale)


def values(d, X):
    k = d.pick(["any", "any", "const", "linear", "zero", "small"])
    d.label("f:" + k)
    n = len(X)
    if k == "const":
        return np.full(n, d.pick([1.0, -2.0, 10.0]))
    if k == "linear":
        return X @ d.array(X.shape[1], -2, 2)
    if k == "zero":
        return np.zeros(n)
    f = d.array(n, -3, 3)
    return 1e-3 * f if k == "small" else f


def posterior(d):
    q = Q.gen(d)
    n = d.size(1, 6, 18)
    X = nodes_for(d, q, n)
    f = values(d, X)
    o, jitter, scale = options(d)
    ref = Ref(q, X, f, jitter, scale)
    X0, f0 = X.copy(), f.copy()
    way = d.pick(["data", "data", "method", "method-fun", "design-free"])
    d.label("way:" + way)
    kw = dict(kernel=q.kernel, measure=q.measure, options=o)
    if way == "data":
        if q.kind == "lebesgue" and not q.normalized and d.bool():
            kw.pop("measure")
            kw["domain"] = (q.lo.copy(), q.hi.copy()) if q.dim > 1 or d.bool() else (q.lo[0], q.hi[0])
        F, info = bayesquad_from_data(X, f, **kw)
        compare(d, F, ref, way)
    else:
        bq = BayesianQuadrature.from_problem(input_dim=q.dim, policy=None, **kw)
        if way == "method":
            F, st, info = bq.integrate(fun=None, nodes=X, fun_evals=f)
        elif way == "method-fun":
            F, st, info = bq.integrate(fun=lambda Y: f.copy(), nodes=X, fun_evals=None)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                F, st, info = bq.integrate(fun=lambda Y: f * 0 + 77.0, nodes=X, fun_evals=f)
        compare(d, F, ref, way)
        compare_state(d, st, ref, way)
        d.check(st.integral_belief.mean == F.mean, "state holds another belief")
        m, v = BQStandardBeliefUpdate.predict_integrand(X, st)
        if jitter == 0:
            d.check(close(m, f, ref.mtol * 10), "the prediction does not interpolate the data")
    d.check(info.nevals == n and info.iteration == 0 and bool(info.has_converged), "info %s", info)
    d.check(np.array_equal(X, X0) and np.array_equal(f, f0), "inputs were modified")
    d.nontrivial()


def incremental(d):
    """Batches one after the other == all at once; earlier states stay as they were."""
    q = Q.gen(d)
    n = d.size(2, 7, 18)
    X = nodes_for(d, q, n)
    f = values(d, X)
    _, jitter, scale = options(d)
    upd = BQStandardBeliefUpdate(jitter=jitter, scale_estimation=scale)
    prior = randvars.Normal(0.0, KernelEmbedding(q.kernel, q.measure).kernel_variance())
    st = BQState(measure=q.measure, kernel=q.kernel, integral_belief=prior)
    cuts = sorted({d.int(1, n - 1) for _ in range(d.int(1, 3))})
    beliefs, states = [prior], [st]
    Z = Q.points(d, q, 3, outside=True)
    for a, b in zip([0] + cuts, cuts + [n]):
        belief, st = upd(bq_state=st, new_nodes=X[a:b], new_fun_evals=f[a:b])
        ref = Ref(q, X[:b], f[:b], jitter, scale)
        compare(d, belief, ref, f"after {b} nodes")
        compare_state(d, st, ref, f"after {b} nodes")
        d.check(st.integral_belief.mean == belief.mean and st.integral_belief.var == belief.var, "state belief")
        prev = st.previous_integral_beliefs
        d.check(len(prev) == len(beliefs) and all(p is q_ or (p.mean == q_.mean and p.var == q_.var) for p, q_ in zip(prev, beliefs)),
                "previous beliefs are not the history")
        Zc = Z.copy()
        m, v = upd.predict_integrand(Z, st)
        wm, wv = ref.predict(Z)
        t = ref.tol * (1 + np.sum(np.abs(np.linalg.solve(ref.A, f[:b]))))
        d.check(np.shape(m) == (3,) and np.shape(v) == (3,), "predictions have shape %s", np.shape(m))
        d.check(close(m, wm, t), "predictive mean %s != %s", m, wm)
        d.check(close(v, wv, ref.tol * (1 + ref.scale) * 10), "predictive variance %s != %s", v, wv)
        d.check(np.array_equal(Z, Zc), "inputs were modified")
        if q.dim == 1 and q.kind == "lebesgue" and np.all((X[:b] >= q.lo) & (X[:b] <= q.hi)):
            g = lambda t: upd.predict_integrand(t.reshape(-1, 1), st)[0].reshape(t.shape)
            e = np.unique(np.concatenate([q.lo, q.hi, X[:b, 0]]))
            I = q.const * sum(Q.integrate(g, a_, b_, min(q.ells)) for a_, b_ in zip(e[:-1], e[1:]))
            d.check(close(I, belief.mean, 10 * ref.mtol), "integral of the predictive mean %s != integral mean %s", I, belief.mean)
            d.label("integrated")
        for k, s in enumerate(states):
            d.check(s.nodes.shape[0] == ([0] + cuts)[k], "an earlier state changed")
        beliefs.append(belief)
        states.append(st)
    m, v = upd.predict_integrand(Z, states[0])
    d.check(close(m, np.zeros(3), 0) and close(v, np.ones(3), 1e-12), "prediction from the prior")
    d.nontrivial()


def metamorphic(d):
    q = Q.gen(d)
    n = d.size(2, 6, 18)
    X = nodes_for(d, q, n)
    f = values(d, X)
    o, jitter, scale = options(d)
    ref = Ref(q, X, f, jitter, scale)
    run = lambda X, f, kernel=q.kernel, measure=q.measure: bayesquad_from_data(X, f, kernel=kernel, measure=measure, options=o)[0]
    F = run(X, f)
    kind = d.pick(["permute", "linear", "translate", "dilate", "span", "monotone"])
    d.label(kind)
    if kind == "permute":
        p = d.shuffled(list(range(n)))
        G = run(X[p], f[p])
        d.check(close(G.mean, F.mean, 2 * ref.mtol) and close(G.var, F.var, 2 * ref.vtol), "order of the nodes matters")
    elif kind == "linear":
        g = d.array(n, -2, 2)
        a, b = d.pick([2.0, -1.0, 0.5]), d.pick([1.0, -3.0, 0.0])
        G, H = run(X, g), run(X, a * f + b * g)
        t = ref.tol * (1 + np.sum(np.abs(np.linalg.solve(ref.A, ref.z)))) * 30
        d.check(close(H.mean, a * F.mean + b * G.mean, t), "mean is not linear in the data")
        if scale == "mle":
            H = run(X, a * f)
            d.check(close(H.var, a * a * F.var, 10 * ref.vtol), "variance does not scale with the data")
        else:
            d.check(close(H.var, F.var, 1e-12 * (1 + ref.kpp)), "variance depends on the data")
    elif kind in ("translate", "dilate"):
        s = d.array(q.dim, -2, 2) if kind == "translate" else np.zeros(q.dim)
        c = 1.0 if kind == "translate" else d.pick([2.0, 0.5, 4.0])
        if q.kind == "lebesgue":
            m2 = LebesgueMeasure((c * q.lo + s, c * q.hi + s), normalized=q.normalized)
            fac = 1.0 if q.normalized else c ** q.dim
        else:
            m2 = type(q.measure)(c * q.mu + s, c * c * q.cov)
            fac = 1.0
        k = q.kernel
        if q.kname == "expquad":
            k2 = ExpQuad((q.dim,), lengthscales=c * q.ells[0])
        elif q.kname == "matern":
            k2 = Matern((1,), q.nus[0], lengthscales=c * q.ells[0])
        else:
            k2 = type(k)((q.dim,), lengthscales=c * np.array(q.ells), nus=np.array(q.nus))
        G = run(c * X + s, f, kernel=k2, measure=m2)
        d.check(close(G.mean, fac * F.mean, 10 * fac * ref.mtol), "mean after the change of variables: %s, expected %s", G.mean, fac * F.mean)
        d.check(close(G.var, fac**2 * F.var, 10 * fac**2 * ref.vtol), "variance after the change of variables: %s, expected %s", G.var, fac**2 * F.var)
    elif kind == "span":
        # integrands in the span of the kernel functions are integrated exactly
        c = d.array(n, -2, 2)
        o2 = dict(jitter=0.0)
        G = bayesquad_from_data(X, ref.K @ c, kernel=q.kernel, measure=q.measure, options=o2)[0]
        t = (1e-13 * np.linalg.cond(ref.K) + 1e-8) * (1 + np.sum(np.abs(ref.z)) * 4)
        d.check(close(G.mean, ref.z @ c, t), "integral of a function of the span: %s != %s", G.mean, ref.z @ c)
    else:
        # more data never increases the (unscaled) variance
        o2 = dict(o or {}, scale_estimation=None)
        v = [float(bayesquad_from_data(X[:i], f[:i], kernel=q.kernel, measure=q.measure, options=o2)[0].var) for i in range(1, n + 1)]
        d.check(all(b <= a + 10 * ref.vtol for a, b in zip(v, v[1:])), "variance increased with data: %s", v)
        d.check(v[0] <= ref.kpp + ref.vtol and v[-1] >= -10 * ref.vtol, "variance out of range: %s", v)
    d.nontrivial()


def multilevel(d):
    q = Q.gen(d, dims=(1, 2))
    L = d.size(1, 4, 10)
    shared = d.bool(1, 3)
    if shared:
        Xs = [nodes_for(d, q, d.int(1, 4))] * L
    else:
        Xs = [nodes_for(d, q, d.int(1, 4)) for _ in range(L)]
    fs = [values(d, X) for X in Xs]
    o, jitter, scale = options(d)
    own = d.bool()
    qs = []
    for _ in range(L):
        ql = Q.Quad()
        ql.__dict__.update(q.__dict__)
        if own:
            Q.gen_kernel(d, ql)
        qs.append(ql)
    refs = [Ref(a, X, f, jitter, scale) for a, X, f in zip(qs, Xs, fs)]
    if max(np.linalg.cond(r.A) for r in refs) > 1e8:
        d.inconclusive("ill-conditioned Gram matrix")
    if own:
        kernels = tuple(a.kernel for a in qs)
    elif q.kname == "expquad" and q.ells[0] == 1.0:
        kernels = None
    else:
        kernels = L * (q.kernel,)
    F, infos = multilevel_bayesquad_from_data(
        nodes=(Xs[0],) if shared and d.bool() else tuple(Xs), fun_diff_evals=tuple(fs),
        kernels=kernels, measure=q.measure, options=o)
    d.check(close(F.mean, sum(r.mean for r in refs), sum(r.mtol for r in refs)), "multilevel mean %s != sum of the levels", F.mean)
    d.check(close(F.var, sum(r.var for r in refs), sum(r.vtol for r in refs)), "multilevel variance %s != sum of the levels", F.var)
    d.check(len(infos) == L and [i.nevals for i in infos] == [len(X) for X in Xs], "infos %s", infos)
    d.nontrivial()


def invalid(d):
    q = Q.gen(d, dims=(1, 2))
    n = d.int(2, 4)
    X = Q.points(d, q, n)
    f = d.array(n, -1, 1)
    bq = BayesianQuadrature.from_problem(input_dim=q.dim, kernel=q.kernel, measure=q.measure, policy=None)
    vdc = BayesianQuadrature.from_problem(input_dim=q.dim, kernel=q.kernel, measure=q.measure, policy="bmc")

    def rejects(fn, what, exc=ValueError):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn()
        except exc:
            return
        d.fail(f"{what}: not rejected")

    case = d.pick(["length", "ndim", "nodes-1d", "nothing", "no-nodes", "policy-no-fun", "no-rng", "jitter", "scale",
                   "no-domain", "design", "policy-name", "levels"])
    d.label(case)
    if case == "length":
        rejects(lambda: bayesquad_from_data(X, f[:-1], kernel=q.kernel, measure=q.measure), "fewer values than nodes")
    elif case == "ndim":
        rejects(lambda: bayesquad_from_data(X, f[:, None], kernel=q.kernel, measure=q.measure), "two-dimensional values")
    elif case == "nodes-1d":
        rejects(lambda: bayesquad_from_data(X[:, 0], f, kernel=q.kernel, measure=q.measure), "one-dimensional nodes")
    elif case == "nothing":
        rejects(lambda: bq.integrate(fun=None, nodes=X, fun_evals=None), "neither fun nor fun_evals")
    elif case == "no-nodes":
        rejects(lambda: bq.integrate(fun=lambda x: x[:, 0], nodes=None, fun_evals=None), "no policy and no nodes")
    elif case == "policy-no-fun":
        rejects(lambda: vdc.integrate(fun=None, nodes=X, fun_evals=f, rng=np.random.default_rng(1)), "policy without fun")
    elif case == "no-rng":
        p = d.pick(["bmc", "us", "mi", "ivr", "us_rand", "mi_rand", "ivr_rand"])
        b = BayesianQuadrature.from_problem(input_dim=q.dim, kernel=q.kernel, measure=q.measure, policy=p)
        rejects(lambda: b.integrate(fun=lambda x: x[:, 0], nodes=None, fun_evals=None), f"policy {p} without rng")
    elif case == "jitter":
        rejects(lambda: bayesquad_from_data(X, f, kernel=q.kernel, measure=q.measure, options=dict(jitter=-1e-3)), "negative jitter")
    elif case == "scale":
        rejects(lambda: bayesquad_from_data(X, f, kernel=q.kernel, measure=q.measure, options=dict(scale_estimation="abc")), "unknown scale estimation")
    elif case == "no-domain":
        rejects(lambda: bayesquad_from_data(X, f, kernel=q.kernel), "neither domain nor measure")
        rejects(lambda: bayesquad(lambda x: x[:, 0], q.dim, rng=np.random.default_rng(0)), "neither domain nor measure")
    elif case == "design":
        rejects(lambda: BayesianQuadrature.from_problem(input_dim=q.dim, measure=q.measure, policy=None, initial_design="mc"), "design without policy")
        rejects(lambda: BayesianQuadrature.from_problem(input_dim=q.dim, measure=q.measure, policy="bmc", initial_design="abc"), "unknown design", NotImplementedError)
    elif case == "policy-name":
        rejects(lambda: BayesianQuadrature.from_problem(input_dim=q.dim, measure=q.measure, policy="abc"), "unknown policy", NotImplementedError)
    else:
        rejects(lambda: multilevel_bayesquad_from_data((X, X), (f, f, f), measure=q.measure), "levels of nodes and values differ")
        rejects(lambda: multilevel_bayesquad_from_data((X,), (f, f), kernels=(q.kernel,), measure=q.measure), "levels of kernels differ")
    d.nontrivial()


SUBS = [
    Sub("posterior", posterior, 900, 12000),
    Sub("incremental", incremental, 600, 8000),
    Sub("metamorphic", metamorphic, 800, 10000),
    Sub("multilevel", multilevel, 300, 4000),
    Sub("invalid", invalid, 150, 1500),
]
