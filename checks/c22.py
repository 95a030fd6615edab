"""C22 Bayesian quadrature loop: node selection, budgets, stopping, acquisition functions."""
import warnings

import numpy as np

from probnum import randvars
from probnum.quad import bayesquad
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.quad.solvers import BayesianQuadrature, BQState
from probnum.quad.solvers.acquisition_functions import (
    IntegralVarianceReduction, MutualInformation, WeightedPredictiveVariance)
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.initial_designs import LatinDesign, MCDesign
from probnum.quad.solvers.policies import (
    MaxAcquisitionPolicy, RandomMaxAcquisitionPolicy, RandomPolicy, VanDerCorputPolicy)
from probnum.randprocs.covfuncs import ExpQuad
from pbt.runner import Sub
from . import libquad as Q
from .c20 import Ref, nodes_for
from .librv import close

RULE = ("A case is a quadrature problem, a policy, an initial design, user nodes, a batch size and "
        "stopping options (or a state for an acquisition function); non-trivial if at least one node "
        "choice or stopping decision was judged.")


def bitrev(m):
    """van der Corput element m from the binary digits of m, exactly."""
    s = bin(m)[2:]
    return int(s[::-1], 2) / 2 ** len(s)


def vdc(d):
    a = d.weighted([(4, d.int(1, 40)), (1, d.int(1, 10**6))])
    n = d.int(1, 12)
    seq = VanDerCorputPolicy.van_der_corput_sequence
    want = [bitrev(m) for m in range(a, a + n)]
    d.check(list(seq(a, a + n)) == want, "sequence from %s to %s", a, a + n)
    d.check(list(seq(a)) == want[:1], "single element %s", a)
    q = Q.gen(d, dims=(1,), kinds=("lebesgue",))
    b = d.int(1, 5)
    p = VanDerCorputPolicy(b, q.measure)
    k = d.int(0, 6)
    X = Q.points(d, q, max(k, 1))[:k]
    st = BQState(measure=q.measure, kernel=q.kernel, integral_belief=randvars.Normal(0.0, 1.0),
                 nodes=X if k else None, fun_evals=np.zeros(k) if k else None)
    N = p(st, None)
    d.check(np.shape(N) == (b, 1), "shape %s", np.shape(N))
    w = q.lo[0] + (q.hi[0] - q.lo[0]) * np.array([bitrev(m) for m in range(k + 1, k + 1 + b)])
    d.check(close(N[:, 0], w, 1e-12 * (1 + np.max(np.abs(w)))), "nodes %s != mapped sequence %s", N[:, 0], w)
    d.check(p.batch_size == b and not p.requires_rng, "batch_size")
    d.nontrivial()


def state(d, q, n, jitter, scale):
    st = BQState(measure=q.measure, kernel=q.kernel,
                 integral_belief=randvars.Normal(0.0, KernelEmbedding(q.kernel, q.measure).kernel_variance()))
    if n == 0:
        return st, None
    X = nodes_for(d, q, n)
    f = d.array(n, -3, 3)
    d.assume(np.any(f))
    _, st = BQStandardBeliefUpdate(jitter=jitter, scale_estimation=scale)(bq_state=st, new_nodes=X, new_fun_evals=f)
    return st, Ref(q, X, f, jitter, scale)


def density(q, Z):
    if q.kind == "lebesgue":
        return np.where(np.all((Z >= q.lo) & (Z <= q.hi), 1), q.const, 0.0)
    L = np.linalg.cholesky(q.cov)
    z = np.linalg.solve(L, (Z - q.mu).T)
    return np.exp(-0.5 * np.sum(z**2, 0)) / np.prod(np.diag(L)) / (2 * np.pi) ** (q.dim / 2)


def rho2(q, ref, Z):
    """Squared correlation of f(z) and the integral, by conditioning; also posterior variance of f(z)
    relative to the scale."""
    kz, kpp = Q.kmean(q, Z), Q.kvar(q)
    if ref is None:
        return kz**2 / kpp, np.ones(len(Z)), kpp
    kx = Q.kmat(q, ref.X, Z)
    w = np.linalg.solve(ref.A, kx)
    v = 1.0 - np.sum(w * kx, 0)
    c = kz - w.T @ ref.z
    V = kpp - ref.z @ np.linalg.solve(ref.A, ref.z)
    return c**2 / (v * V), v, V


def acquisition(d):
    q = Q.gen(d)
    n = d.size(0, 4, 12)
    jitter, scale = d.pick([0.0, 1e-3, 1e-8]), d.pick(["mle", None])
    st, ref = state(d, q, n, jitter, scale)
    m = d.size(1, 4, 12)
    Z = Q.points(d, q, m, outside=True)
    Z0 = Z.copy()
    r2, v, V = rho2(q, ref, Z)
    if np.any(v < 1e-3) or V < 1e-4 * Q.kvar(q) or np.any(r2 > 0.999) or (ref is not None and np.linalg.cond(ref.A) > 1e6):
        d.inconclusive("nearly determined")
    us, g1 = WeightedPredictiveVariance()(Z, st)
    ivr, g2 = IntegralVarianceReduction()(Z, st)
    mi, g3 = MutualInformation()(Z, st)
    d.check(g1 is None and g2 is None and g3 is None, "gradients")
    for nm, x in (("us", us), ("ivr", ivr), ("mi", mi)):
        d.check(np.shape(x) == (m,), "%s has shape %s", nm, np.shape(x))
    p = density(q, Z)
    d.check(close(us, v * p**2, 1e-7 * (1e-6 + np.max(p**2))), "uncertainty sampling %s != %s", us, v * p**2)
    d.check(close(ivr, r2, 1e-6), "integral variance reduction %s != %s", ivr, r2)
    d.check(close(mi, -0.5 * np.log1p(-r2), 1e-3), "mutual information %s != %s", mi, -0.5 * np.log1p(-r2))
    d.check(np.array_equal(Z, Z0), "inputs were modified")
    # the reduction is the one that an actual observation brings (fixed scale)
    if scale is None and jitter == 0.0:
        z = Z[:1]
        _, st2 = BQStandardBeliefUpdate(jitter=0.0, scale_estimation=None)(bq_state=st, new_nodes=z, new_fun_evals=np.array([1.5]))
        a, b = float(st.integral_belief.var), float(st2.integral_belief.var)
        d.check(close((a - b) / a, ivr[0], 1e-5), "variance went from %s to %s, predicted relative reduction %s", a, b, ivr[0])
        d.label("observed")
    d.nontrivial()


ACQ = dict(us=WeightedPredictiveVariance, ivr=IntegralVarianceReduction, mi=MutualInformation)


def policies(d):
    q = Q.gen(d, dims=(1, 1, 2))
    st, ref = state(d, q, d.int(0, 3), 1e-3, d.pick(["mle", None]))
    kind = d.weighted([(4, "rand"), (1, "max"), (2, "bmc"), (2, "mc"), (3, "latin")])
    d.label(kind)
    s = d.seed()
    rng = lambda: np.random.default_rng(s)
    if kind in ("rand", "max"):
        name = d.pick(list(ACQ))
        d.label(name)
        acq = ACQ[name]()
        val = lambda Z: np.asarray(acq(np.asarray(Z), st)[0])
        if kind == "rand":
            k = d.int(1, 12)
            pol = RandomMaxAcquisitionPolicy(batch_size=1, acquisition_func=acq, n_candidates=k)
        else:
            k = d.int(1, 3)
            pol = MaxAcquisitionPolicy(batch_size=1, acquisition_func=acq, n_restarts=k)
        try:
            x = pol(st, rng())
        except RuntimeError as e:
            if kind == "max" and "maximizer" in str(e):
                d.inconclusive("the optimizer gave up")
            raise
        d.check(np.shape(x) == (1, q.dim), "node of shape %s", np.shape(x))
        C = q.measure.sample(k, rng=rng())
        best = np.max(val(C))
        if kind == "rand":
            d.check(any(np.array_equal(x[0], c) for c in C), "node %s is not one of the candidates", x)
            d.check(val(x)[0] >= best - 1e-9 * (1 + abs(best)), "chosen value %s < best candidate %s", val(x)[0], best)
        else:
            d.check(val(x)[0] >= best - 1e-9 * (1 + abs(best)), "chosen value %s < value at a start %s", val(x)[0], best)
        d.check(pol.requires_rng and pol.batch_size == 1, "requires_rng / batch_size")
        d.check(np.array_equal(x, pol(st, rng())), "not reproducible")
        N = x
    elif kind == "bmc":
        b = d.int(1, 5)
        pol = RandomPolicy(b, q.measure.sample)
        N = pol(st, rng())
        d.check(np.shape(N) == (b, q.dim), "shape %s", np.shape(N))
        d.check(np.array_equal(N, pol(st, rng())), "not reproducible")
        if b > 1:
            d.check(len(np.unique(N, axis=0)) == b, "repeated nodes")
    else:
        n = d.int(1, 9)
        if kind == "latin" and q.kind == "gauss":
            try:
                LatinDesign(n, q.measure)
            except ValueError:
                d.nontrivial()
                return
            d.fail("latin design on an unbounded domain")
        des = (MCDesign if kind == "mc" else LatinDesign)(n, q.measure)
        N = des(rng())
        d.check(np.shape(N) == (n, q.dim), "shape %s", np.shape(N))
        d.check(des.requires_rng and des.n_nodes == n, "design attributes")
        d.check(np.array_equal(N, des(rng())), "not reproducible")
        if kind == "latin":
            for i in range(q.dim):
                u = (N[:, i] - q.lo[i]) / (q.hi[i] - q.lo[i]) * n
                cells = np.clip(np.floor(u), 0, n - 1)
                near = np.min(np.abs(u - np.round(u))) < 1e-9
                d.check(near or sorted(cells) == list(range(n)), "axis %s is not stratified: %s", i, u)
    if q.kind == "lebesgue":
        d.check(np.all((N >= q.lo - 1e-12) & (N <= q.hi + 1e-12)), "nodes outside of the domain: %s", N)
    d.check(np.all(np.isfinite(N)), "nodes %s", N)
    d.nontrivial()


def loop(d):
    q = Q.gen(d, dims=(1, 1, 2), kernels=None)
    pols = ["bmc", "bmc", "us_rand", "ivr_rand", "mi_rand"]
    if q.dim == 1 and q.kind == "lebesgue":
        pols += ["vdc", "vdc", "vdc"]
    if d.bool(1, 12):
        pols = ["us", "ivr", "mi"]
    policy = d.pick(pols)
    design = d.weighted([(3, None), (1, "mc"), (1, "latin" if q.kind == "lebesgue" else "mc")])
    o, opt = {}, {}
    jitter = d.pick([1e-3, 1e-2, 1e-4])
    o["jitter"] = jitter
    scale = d.pick(["mle", None, "default"])
    if scale != "default":
        o["scale_estimation"] = scale
    else:
        scale = "mle"
    b = d.int(1, 4)
    if policy in ("bmc", "vdc"):
        if b > 1 or d.bool():
            o["batch_size"] = b
    else:
        b = 1
        o["n_candidates"], o["n_restarts"] = d.int(1, 6), 2
    nd = 0
    if design:
        nd = d.pick([None, 1, 3])
        if nd:
            o["n_initial_design_nodes"] = nd
        else:
            nd = 5 * q.dim
    crit = d.subset(["max", "var", "rel"])
    max_evals = d.pick([0, 1, 2, 5, 8]) if "max" in crit else (12 if d.bool() or policy not in ("bmc", "vdc") else None)
    var_tol = d.pick([1e-1, 1e-2, 1e-3, 1e3]) if "var" in crit else None
    rel_tol = d.pick([0.5, 0.1, 1e-2, 0.9]) if "rel" in crit else None
    if max_evals is None and (var_tol is None and rel_tol is None):
        default = True
        if q.dim > 1 or policy not in ("bmc", "vdc"):
            max_evals, default = 6, False
    else:
        default = False
    if not default and max_evals is None:
        max_evals = 20  # keeps the case finite
    for k, v in (("max_evals", max_evals), ("var_tol", var_tol), ("rel_tol", rel_tol)):
        if v is not None:
            o[k] = v
    if default:
        max_evals, var_tol = 25 * q.dim, 1e-6
        d.label("default")
    fk = d.pick(["any", "any", "zero", "const"])
    c, w = d.array(q.dim, -2, 2), d.dyadic(-2, 2)
    batches = []

    def fun(X):
        batches.append(np.array(X, copy=True))
        if fk == "zero":
            return np.zeros(len(X))
        if fk == "const":
            return np.full(len(X), 1.5)
        return np.cos(X @ c) + w

    f_of = lambda X: np.zeros(len(X)) if fk == "zero" else np.full(len(X), 1.5) if fk == "const" else np.cos(X @ c) + w
    user = None
    seed = d.seed()
    d.label("policy:" + policy, f"design:{design}", "crit:" + "+".join(crit), "f:" + fk)
    if (fk == "zero" or not np.any(c)) and policy in ("us", "ivr", "mi"):
        d.inconclusive("acquisition functions of a vanishing scale")
    if d.bool(1, 3):
        user = Q.points(d, q, d.int(1, 3))
        if np.linalg.cond(Q.kmat(q, user, user)) > 1e7:
            d.inconclusive("ill-conditioned Gram matrix")
    old = np.seterr(all="ignore")
    try:
        if user is None and d.bool():
            kw = dict(measure=q.measure)
            if q.kind == "lebesgue" and not q.normalized and d.bool():
                kw = dict(domain=(q.lo, q.hi))
            F, info = bayesquad(fun, q.dim, kernel=q.kernel, policy=policy, initial_design=design,
                                rng=np.random.default_rng(seed), options=o, **kw)
            st = None
        else:
            bq = BayesianQuadrature.from_problem(input_dim=q.dim, kernel=q.kernel, measure=q.measure, policy=policy,
                                                 initial_design=design, options=o)
            given = user is not None and d.bool()
            F, st, info = bq.integrate(fun=fun, nodes=user, fun_evals=f_of(user) if given else None,
                                       rng=None if policy == "vdc" and not design else np.random.default_rng(seed))
            if user is not None and not given:
                d.check(np.array_equal(batches[0], user), "first evaluation is not at the given nodes")
                batches = batches[1:]
    except RuntimeError as e:
        if policy in ("us", "ivr", "mi") and "maximizer" in str(e):
            d.inconclusive("the optimizer gave up")
        raise
    finally:
        np.seterr(**old)
    # assemble the history of node sets
    start = np.zeros((0, q.dim)) if user is None else user
    if design:
        d.check(len(batches) >= 1 and len(batches[0]) == nd, "initial design of %s nodes", len(batches[0]) if batches else 0)
        start = np.vstack([start, batches[0]])
        batches = batches[1:]
    d.check(all(len(x) == b for x in batches), "batch sizes %s", [len(x) for x in batches])
    sets = [start]
    for x in batches:
        sets.append(np.vstack([sets[-1], x]))
    if policy == "vdc":
        for s_, x in zip(sets, batches):
            wv = q.lo[0] + (q.hi[0] - q.lo[0]) * np.array([bitrev(m) for m in range(len(s_) + 1, len(s_) + 1 + b)])
            d.check(close(x[:, 0], wv, 1e-12 * (1 + np.max(np.abs(wv)))), "van der Corput nodes")
    # beliefs along the way and stopping decisions
    def near(a, t, tol):
        return abs(a - t) <= tol

    prev = None
    for k, X in enumerate(sets):
        if len(X):
            ref = Ref(q, X, f_of(X), jitter, scale)
            mean, var, mt, vt = ref.mean, ref.var, ref.mtol, ref.vtol
        else:
            ref, mean, var, mt, vt = None, 0.0, Q.kvar(q), 1e-12, 1e-9
        stop = max_evals is not None and len(X) >= max_evals
        edge = False
        if var_tol is not None:
            edge |= near(var, var_tol, vt)
            stop |= var <= var_tol
        if rel_tol is not None and prev is not None:
            dm = abs(mean - prev)
            edge |= bool(np.any(f_of(X))) and near(dm, rel_tol * abs(mean), 10 * mt)
            stop |= dm <= rel_tol * abs(mean)
        if edge:
            d.inconclusive("threshold")
        last = k == len(sets) - 1
        # with data at the start, the estimate before it is that of the prior (zero)
        prior_only = k == 0 and len(X) > 0 and not np.any(f_of(X)) and rel_tol is not None
        d.check(prior_only or stop == last, "after %s evaluations (mean %s, var %s, previous mean %s) stopping is %s, but the loop %s (max_evals=%s var_tol=%s rel_tol=%s)",
                len(X), mean, var, prev, stop, "ended" if last else "went on", max_evals, var_tol, rel_tol)
        prev = mean
    if ref is not None:
        d.check(close(F.mean, mean, mt), "integral mean %s != %s", F.mean, mean)
    d.check(close(F.var, var, vt), "integral variance %s != %s", F.var, var)
    d.check(info.nevals == len(sets[-1]) and info.iteration == len(batches) and bool(info.has_converged), "info %s", info)
    if st is not None:
        d.check(np.array_equal(st.nodes, sets[-1]), "state nodes")
        d.check(len(st.previous_integral_beliefs) == len(batches) + (1 if len(start) else 0), "number of previous beliefs")
    d.nontrivial()


SUBS = [
    Sub("vdc", vdc, 300, 4000),
    Sub("acquisition", acquisition, 700, 9000),
    Sub("policies", policies, 500, 6000),
    Sub("loop", loop, 700, 9000),
]
