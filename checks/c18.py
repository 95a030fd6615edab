"""C18 Probabilistic linear solvers: beliefs are exact Gaussian posteriors of the observations made."""
import numpy as np
import scipy.sparse

from probnum import LambdaStoppingCriterion, linops, problems, randvars
from probnum.linalg import solvers
from probnum.linalg.solvers import (belief_updates, beliefs, information_ops, policies,
                                    stopping_criteria as sc)
from probnum.utils import linalg as ulinalg
from pbt.runner import Sub
from . import libgauss as G
from . import liblinops as L
from .librv import close, covmat, dense

RULE = ("A case is a linear system (dense, sparse or operator), a prior, a policy and a number of "
        "steps; non-trivial if at least one step was taken and every belief on the way was "
        "compared with conditioning the prior on all observations at once.")


def matrix(d, n, kind):
    """A well-conditioned n x n matrix, symmetric positive definite or general."""
    if kind == "spd":
        B = d.array((n, n), -1, 1, den=4)
        return B @ B.T / max(1, n) + np.diag(d.array(n, 0.5, 2.0, den=4))
    A = d.array((n, n), -1, 1, den=4)
    return A / max(1, n) + np.diag(d.array(n, 1.25, 2.5, den=4) * d.pick([1, -1]))


def represent(d, A):
    r = d.pick(["array", "array", "linop", "csr", "linop-sum"])
    d.label("A:" + r)
    if r == "linop":
        return linops.Matrix(A)
    if r == "linop-sum":
        return linops.Matrix(A - np.eye(len(A))) + linops.Identity(len(A))
    if r == "csr":
        return scipy.sparse.csr_matrix(A)
    return A.copy()


class FixedPolicy(policies.LinearSolverPolicy):
    def __init__(self, actions):
        self.actions = actions

    def __call__(self, solver_state, rng=None):
        return self.actions[solver_state.step % len(self.actions)].copy()


def x_prior(d, n):
    m, C = d.array(n, -2, 2), covmat(d, n)
    rep = d.pick(["array", "linop", "scaling"])
    if rep == "scaling":
        s = d.pick([1.0, 0.5, 2.0])
        return randvars.Normal(m, linops.Scaling(s, shape=(n, n))), m, s * np.eye(n)
    return randvars.Normal(m, linops.aslinop(C) if rep == "linop" else C), m, C


def condition(m, C, H, y, R):
    """Condition N(m, C) on H x + N(0, R) = y by the pseudo-inverse of the (scaled) Gram matrix."""
    S = H @ C @ H.T + R
    s = np.sqrt(np.clip(np.diag(S), 0, None))
    s[s == 0] = 1.0
    Si = np.linalg.pinv(S / np.outer(s, s), rcond=1e-10, hermitian=True) / np.outer(s, s)
    K = C @ H.T @ Si
    return m + K @ (y - H @ m), C - K @ H @ C


def well_posed(C, H, R):
    """All non-zero observations are clearly independent (a sequential update divides by rounding
    errors otherwise)."""
    S = H @ C @ H.T + R
    keep = np.diag(S) > 0
    S = S[np.ix_(keep, keep)]
    s = np.sqrt(np.diag(S))
    return not np.any(np.linalg.eigvalsh(S / np.outer(s, s)) < 1e-5)


def solution(d):
    """Solution-based inference equals conditioning the prior on all projections at once."""
    n = d.size(1, 5, 12)
    A = matrix(d, n, d.pick(["spd", "gen"]))
    b = d.array(n, -3, 3) if not d.bool(1, 12) else A @ d.array(n, -1, 1)
    x0, m, C = x_prior(d, n)
    if d.bool(1, 12):
        b = A @ m  # the prior mean is the solution
    lam = d.weighted([(3, 0.0), (1, 0.25), (1, 2.0)])
    pol_name = d.pick(["cg", "cg", "fixed", "unit", "cg-reorth"])
    if pol_name == "fixed":
        acts = [d.array(n, -2, 2) for _ in range(d.int(1, 4))]
        pol = FixedPolicy(acts)
    elif pol_name == "unit":
        pol = policies.RandomUnitVectorPolicy(replace=d.bool())
    elif pol_name == "cg":
        pol = policies.ConjugateGradientPolicy()
    else:
        fn = d.pick([ulinalg.gram_schmidt, ulinalg.modified_gram_schmidt,
                     ulinalg.double_gram_schmidt])
        which = d.int(1, 3)
        pol = policies.ConjugateGradientPolicy(
            reorthogonalization_fn_residual=fn if which & 1 else None,
            reorthogonalization_fn_action=fn if which & 2 else None)
    d.label("policy:" + pol_name, "noise" if lam else "exact")
    steps = d.int(1, n if pol_name == "unit" else n + 2)
    Ar = represent(d, A)
    d.note("system", "A=%s b=%s prior=N(%s,%s) noise=%s %s steps=%d" % (
        L.fmt(A), L.fmt(b), L.fmt(m), L.fmt(C), lam, pol_name, steps))
    keep = b.copy()
    sol = solvers.ProbabilisticLinearSolver(
        policy=pol, information_op=information_ops.ProjectedResidualInformationOp(),
        belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=lam),
        stopping_criterion=sc.MaxIterationsStoppingCriterion(steps))
    B = A @ C @ A.T
    M, k, S, ys, xs = G.mag(m, C, b, np.linalg.inv(A)), 0, [], [], []
    good = True
    for st in sol.solve_iterator(beliefs.LinearSystemBelief(x=x0), problems.LinearSystem(Ar, b),
                                 rng=np.random.default_rng(d.seed())):
        d.check(st.step == k, "step %s after %d iterations", st.step, k)
        mean, cov = dense(st.belief.x.mean), dense(st.belief.x.cov)
        d.check(np.all(np.isfinite(mean)) and np.all(np.isfinite(cov)),
                "belief after %d steps is not finite: %s %s", k, mean, cov)
        d.check(close(st.residual, b - A @ mean, 1e-9 * G.mag(b, A @ mean)),
                "residual %s, b - A x = %s", st.residual, b - A @ mean)
        if k:
            s = np.asarray(st.actions[k - 1])
            S.append(s)
            y = s @ (b - A @ xs[-1])
            d.check(close(st.observations[k - 1], y, 1e-9 * G.mag(s, b) ** 2),
                    "observation %s, projected residual %s", st.observations[k - 1], y)
            if pol_name == "unit":
                d.check(sorted(s.tolist()) == [0.0] * (n - 1) + [1.0], "action %s", s)
                if not pol.replace:
                    d.check(len({int(np.argmax(a)) for a in S}) == k,
                            "sampling without replacement repeats an action: %s", S)
            H = np.array([t @ A for t in S])
            good = good and well_posed(C, H, lam * np.eye(k))
            if good:
                # observed: s.(A x) + noise = s.b, whatever the mean was at that time
                em, eC = condition(m, C, H, np.array([t @ b for t in S]), lam * np.eye(k))
                tol = 1e-5 * G.mag(em, eC, m, C)
                d.check(close(mean, em, tol), "after %d steps: mean %s, exact posterior %s", k,
                        mean, em)
                d.check(close(cov, eC, tol), "after %d steps: cov %s, exact posterior %s", k, cov, eC)
        xs.append(mean)
        k += 1
    d.check(k == steps + 1, "%d iterations with maxiter=%d", k - 1, steps)
    if pol_name.startswith("cg") and lam == 0.0 and good:
        T = np.array([s for s in S if np.linalg.norm(s) > 1e-6])[:n]
        Gm = T @ B @ T.T if len(T) else np.zeros((0, 0))
        dg = np.sqrt(np.diag(Gm))
        off = Gm / np.outer(dg, dg) - np.eye(len(T))
        d.check(np.all(np.abs(off) < 1e-4), "actions are not conjugate: %s", off)
        if len(T) == n:
            d.check(close(xs[-1], np.linalg.solve(A, b), 1e-4 * M), "after n steps x = %s, A^-1 b = %s",
                    xs[-1], np.linalg.solve(A, b))
    d.check(np.array_equal(b, keep), "right-hand side modified")
    d.check(np.array_equal(dense(x0.mean), m), "prior modified")
    d.nontrivial()


def matrix_prior(d, n, sym):
    if sym:
        M, W = d.array((n, n), -1, 1), covmat(d, n)
        M = M + M.T
        C = 0.5 * (np.einsum("ik,jl->ijkl", W, W) + np.einsum("il,jk->ijkl", W, W))
        Wr = d.pick([lambda W: W, linops.aslinop])(W)
        cov = linops.SymmetricKronecker(Wr)  # acts on symmetric matrices
    else:
        M, V, W = d.array((n, n), -1, 1), covmat(d, n), covmat(d, n)
        C = np.einsum("ik,jl->ijkl", V, W)
        cov = linops.Kronecker(linops.aslinop(V), linops.aslinop(W))
    Mr = linops.aslinop(M) if d.bool() else M.copy()
    return randvars.Normal(Mr, cov), M, C.reshape(n * n, n * n)


def symmetrizer(n):
    P = np.zeros((n, n, n, n))
    for i in range(n):
        for j in range(n):
            P[i, j, i, j] += 0.5
            P[i, j, j, i] += 0.5
    return P.reshape(n * n, n * n)


def W2(C, n):
    """The factor W (up to sign) of a symmetric Kronecker covariance: Var(M_ij)s give W_ii, W_ij."""
    C = C.reshape(n, n, n, n)
    w = np.sqrt(np.einsum("iiii->i", C))
    return np.array([[C[i, i, i, j] / w[i] if w[i] else 0.0 for j in range(n)] for i in range(n)])


def matrix_based(d):
    """Matrix-based inference equals conditioning the priors of A and its inverse on all products."""
    sym = d.bool()
    n = d.size(1, 4, 10)
    A = matrix(d, n, "spd" if sym else "gen")
    b = d.array(n, -3, 3)
    Ap, MA, CA = matrix_prior(d, n, sym)
    Hp, MH, CH = matrix_prior(d, n, sym)
    given_x = d.bool()
    prior = beliefs.LinearSystemBelief(
        A=Ap, Ainv=Hp, b=None if given_x and d.bool() else randvars.Constant(b),
        x=x_prior(d, n)[0] if given_x else None)
    if d.bool():
        acts = [d.array(n, -2, 2) for _ in range(d.int(1, 3))]
        pol = FixedPolicy(acts)
    else:
        pol = policies.RandomUnitVectorPolicy(replace=False)
    steps = d.int(1, n)
    d.label("symmetric" if sym else "general", "n=%d" % n)
    d.note("system", "A=%s b=%s A0=%s Ainv0=%s sym=%s steps=%d" % (
        L.fmt(A), L.fmt(b), L.fmt(MA), L.fmt(MH), sym, steps))
    mb = belief_updates.matrix_based
    sol = (solvers.SymMatrixBasedPLS if sym else solvers.MatrixBasedPLS)(
        policy=pol, stopping_criterion=sc.MaxIterationsStoppingCriterion(steps))
    S, good, k = [], True, 0
    P = symmetrizer(n)
    for st in sol.solve_iterator(prior, problems.LinearSystem(represent(d, A), b),
                                 rng=np.random.default_rng(d.seed())):
        if k:
            s = np.asarray(st.actions[k - 1])
            S.append(s)
            d.check(close(st.observations[k - 1], A @ s, 1e-10 * G.mag(s, A)), "observation %s, As=%s",
                    st.observations[k - 1], A @ s)
            for name, rv, M, C, inp, out in (
                    ("A", st.belief.A, MA, CA, S, [A @ t for t in S]),
                    ("Ainv", st.belief.Ainv, MH, CH, [A @ t for t in S], S)):
                H = np.vstack([np.kron(np.eye(n), t[None, :]) for t in inp])
                R = np.zeros((len(H), len(H)))
                T = np.array(inp)
                if not well_posed(C.reshape(n, n, n, n)[0, :, 0, :] if not sym else W2(C, n), T,
                                  np.zeros((len(T), len(T)))):
                    good = False
                    continue
                em, eC = condition(M.ravel(), C, H, np.concatenate(out), R)
                tol = 1e-5 * G.mag(em, eC, M, C)
                d.check(close(dense(rv.mean), em.reshape(n, n), tol),
                        "%s mean after %d steps: %s, exact posterior %s", name, k, dense(rv.mean), em)
                rC = dense(rv.cov) @ P if sym else dense(rv.cov)
                d.check(close(rC, eC, tol), "%s cov after %d steps: %s, exact posterior %s",
                        name, k, rC, eC)
            hm, hC = dense(st.belief.Ainv.mean), dense(st.belief.Ainv.cov)
            B = np.kron(np.eye(n), b[None, :])
            d.check(close(dense(st.belief.x.mean), hm @ b, 1e-8 * G.mag(hm, b)),
                    "x mean %s, E[H] b = %s", dense(st.belief.x.mean), hm @ b)
            if not sym:
                d.check(close(dense(st.belief.x.cov), B @ hC @ B.T, 1e-7 * G.mag(hC, b)),
                        "x cov %s, Cov(H b) = %s", dense(st.belief.x.cov), B @ hC @ B.T)
        mean = dense(st.belief.x.mean)
        d.check(close(st.residual, b - A @ mean, 1e-8 * G.mag(b, A @ mean)),
                "residual %s, b - A x = %s", st.residual, b - A @ mean)
        k += 1
    d.check(k == steps + 1, "%d iterations with maxiter=%d", k - 1, steps)
    if good:
        d.nontrivial()


def criterion(d, n):
    """A stopping criterion and its meaning as a function of (step, |r|, traces, |b|, n)."""
    k = d.pick(["max", "max", "resid", "resid", "post"])
    if k == "max":
        m = d.pick([None, 0, 1, 2, 3, 5, 10 * n])
        mm = 10 * n if m is None else m
        return sc.MaxIterationsStoppingCriterion(m), (lambda s: s["step"] >= mm), "max(%s)" % m
    atol, rtol = d.pick([0.0, 1e-8, 1e-2, 0.5, 10.0]), d.pick([0.0, 1e-8, 1e-2, 0.25])
    if k == "resid":
        return (sc.ResidualNormStoppingCriterion(atol=atol, rtol=rtol),
                lambda s: cmp(s["res"], max(atol, rtol * s["b"])), "resid(%s,%s)" % (atol, rtol))
    q = d.pick(["x", "A", "Ainv"])
    return (sc.PosteriorContractionStoppingCriterion(qoi=q, atol=atol, rtol=rtol),
            lambda s: cmp(np.sqrt(abs(s[q])), max(atol, rtol * s["b"])),
            "post(%s,%s,%s)" % (q, atol, rtol))


class Close(Exception):
    pass


def cmp(a, b):
    if abs(a - b) <= 1e-9 * max(1.0, abs(a)):
        if a == 0.0 and b == 0.0:
            return True
        raise Close
    return a <= b


def combine(d, n, depth):
    if depth == 0 or d.bool(1, 3):
        return criterion(d, n)
    op = d.pick(["and", "or", "not"])
    c1, f1, n1 = combine(d, n, depth - 1)
    if op == "not":
        return ~c1, lambda s: not f1(s), "~" + n1
    c2, f2, n2 = combine(d, n, depth - 1)
    if op == "and":
        return c1 & c2, lambda s: f1(s) and f2(s), "(%s & %s)" % (n1, n2)
    return c1 | c2, lambda s: f1(s) or f2(s), "(%s | %s)" % (n1, n2)


def stopping(d):
    """The solver stops in the first state in which the (combined) stopping criterion holds."""
    n = d.size(1, 4, 9)
    A = matrix(d, n, "spd")
    b = d.array(n, -3, 3)
    crit, meaning, name = combine(d, n, d.int(0, 3))
    cap = d.int(0, n + 1)
    kind = d.pick(["solution", "sym"])
    if kind == "solution":
        prior = beliefs.LinearSystemBelief(
            x=x_prior(d, n)[0], A=matrix_prior(d, n, True)[0], Ainv=matrix_prior(d, n, True)[0])
        io, up = (information_ops.ProjectedResidualInformationOp(),
                  belief_updates.solution_based.ProjectedResidualBeliefUpdate())
    else:
        prior = beliefs.LinearSystemBelief(
            A=matrix_prior(d, n, True)[0], Ainv=matrix_prior(d, n, True)[0], b=randvars.Constant(b))
        io, up = (information_ops.MatVecInformationOp(),
                  belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate())
    d.note("call", "%s A=%s b=%s stop=%s cap=%d" % (kind, L.fmt(A), L.fmt(b), name, cap))
    pol = policies.ConjugateGradientPolicy() if d.bool() else FixedPolicy(list(np.eye(n)))
    comp = solvers.ProbabilisticLinearSolver(
        policy=pol, information_op=io, belief_update=up,
        stopping_criterion=crit | LambdaStoppingCriterion(lambda solver_state: solver_state.step >= cap))
    prob = problems.LinearSystem(A, b)

    def facts(st):
        return dict(step=st.step, res=np.linalg.norm(b - A @ dense(st.belief.x.mean)),
                    b=np.linalg.norm(b), x=np.trace(dense(st.belief.x.cov)),
                    A=np.trace(dense(st.belief.A.cov)), Ainv=np.trace(dense(st.belief.Ainv.cov)))

    hist = []
    try:
        for st in comp.solve_iterator(prior, prob):
            f = facts(st)
            want = meaning(f)
            d.check(bool(crit(st)) == want, "criterion says %s in state %s, meaning %s", crit(st), f,
                    want)
            hist.append(want or f["step"] >= cap)
    except Close:
        d.inconclusive("at the tolerance")
    d.check(hist[-1] and not any(hist[:-1]), "stopped after %d steps; holds: %s", len(hist) - 1, hist)
    bel, fin = comp.solve(prior, prob)
    d.check(fin.step == len(hist) - 1, "solve took %d steps, iterator %d", fin.step, len(hist) - 1)
    d.check(bel is fin.belief or np.array_equal(dense(bel.x.mean), dense(fin.belief.x.mean)),
            "returned belief is not that of the final state")
    d.nontrivial()


def named(d):
    """BayesCG, Kaczmarz and matrix-based solvers converge, are stateless and reproducible."""
    n = d.size(1, 6, 16)
    name = d.pick(["bayescg", "kaczmarz", "sym", "mat"])
    probs = []
    for _ in range(d.int(1, 3)):
        A = matrix(d, n, "spd" if name == "sym" else d.pick(["spd", "gen"]))
        probs.append((A, represent(d, A), d.array(n, -3, 3)))
    cls = dict(bayescg=solvers.BayesCG, kaczmarz=solvers.ProbabilisticKaczmarz,
               sym=solvers.SymMatrixBasedPLS, mat=solvers.MatrixBasedPLS)[name]
    atol, rtol = d.pick([(1e-5, 1e-5), (1e-8, 0.0), (0.0, 1e-3), (1.0, 0.0)])
    mk = lambda: cls() if atol == rtol else cls(
        stopping_criterion=sc.MaxIterationsStoppingCriterion(4 * n + 4)
        | sc.ResidualNormStoppingCriterion(atol=atol, rtol=rtol))
    maxit = 10 * n if atol == rtol else 4 * n + 4
    seed = d.seed()
    d.label(name)
    d.note("solver", "%s atol=%s rtol=%s problems=%s" % (
        name, atol, rtol, [(L.fmt(A), L.fmt(b)) for A, _, b in probs]))
    shared, x0 = mk(), x_prior(d, n)[0]
    MA, MH = matrix_prior(d, n, name == "sym")[0], matrix_prior(d, n, name == "sym")[0]
    for A, Ar, b in probs:
        prior = beliefs.LinearSystemBelief(x=x0) if name in ("bayescg", "kaczmarz") else \
            beliefs.LinearSystemBelief(A=MA, Ainv=MH, b=randvars.Constant(b))
        prob = problems.LinearSystem(Ar, b)
        bel, st = shared.solve(prior, prob, rng=np.random.default_rng(seed))
        bel2, st2 = mk().solve(prior, prob, rng=np.random.default_rng(seed))
        d.check(st.step == st2.step and np.array_equal(dense(bel.x.mean), dense(bel2.x.mean)),
                "a reused solver gives %s after %d steps, a fresh one %s after %d", dense(bel.x.mean),
                st.step, dense(bel2.x.mean), st2.step)
        x, bn = dense(bel.x.mean), np.linalg.norm(b)
        d.check(x.shape == b.shape, "solution has shape %s, rhs %s", x.shape, b.shape)
        d.check(np.all(np.isfinite(x)), "solution %s", x)
        d.check(st.step <= maxit, "%d steps", st.step)
        res = np.linalg.norm(b - A @ x)
        if st.step < maxit:
            d.check(res <= max(atol, rtol * bn) * (1 + 1e-6) + 1e-14 * G.mag(b, x),
                    "stopped at residual norm %s, tolerance %s", res, max(atol, rtol * bn))
        if name == "bayescg":
            cond = np.linalg.cond(A @ dense(x0.cov) @ A.T)
            if cond < 1e3 and max(atol, rtol * bn) > 1e-9 * cond:
                d.check(st.step <= n + 2, "%d steps for a system of size %d", st.step, n)
    d.nontrivial()


def unit_vectors(d):
    """Random unit vectors are drawn with the stated probabilities."""
    n = d.size(2, 5, 12)
    A = d.array((n, n), -2, 2)
    A[np.arange(n), np.arange(n)] += 0.5
    if d.bool():
        A[d.int(0, n - 1)] *= 4
    how = d.pick(["uniform", "rownorm"])
    d.note("policy", "%s A=%s" % (how, L.fmt(A)))
    p = np.ones(n) / n if how == "uniform" else np.sum(A ** 2, axis=1) / np.sum(A ** 2)
    pol = policies.RandomUnitVectorPolicy(probabilities=how, replace=True)
    st = solvers.LinearSolverState(problems.LinearSystem(represent(d, A), np.ones(n)),
                                   beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n))))
    rng, N = np.random.default_rng(d.seed()), 400
    counts = np.sum([pol(st, rng=rng) for _ in range(N)], axis=0)
    d.check(counts.sum() == N, "actions are not unit vectors")
    # a deviation by six standard deviations (plus slack) has probability below 1e-8
    d.check(np.all(np.abs(counts - N * p) <= 6 * np.sqrt(N * p * (1 - p)) + 6),
            "drawn %s, expected %s", counts, N * p)
    d.nontrivial()


def units(d):
    """Rescaling the system and the prior (powers of two) rescales the beliefs of every
    iteration and changes nothing else."""
    n = d.size(1, 4, 10)
    A = matrix(d, n, d.pick(["spd", "gen"]))
    b, m, C = d.array(n, -3, 3), d.array(n, -2, 2), covmat(d, n)
    c, s = 2.0 ** d.pick([0, -10, 7, 16, -20]), 2.0 ** d.pick([0, -12, 9, 20])
    pol_name = d.pick(["cg", "fixed", "unit", "cg"])
    acts = [d.array(n, -2, 2) for _ in range(d.int(1, 3))]
    seed, steps, rep = d.seed(), d.int(1, n), d.pick(["array", "linop"])
    d.note("system", "A=%s b=%s prior=N(%s,%s) %s steps=%d, A in unit %g, x in unit %g" % (
        L.fmt(A), L.fmt(b), L.fmt(m), L.fmt(C), pol_name, steps, c, s))
    runs = []
    for u, v in ((1.0, 1.0), (c, s)):
        pol = {"cg": policies.ConjugateGradientPolicy(), "fixed": FixedPolicy(acts),
               "unit": policies.RandomUnitVectorPolicy()}[pol_name]
        sol = solvers.ProbabilisticLinearSolver(
            policy=pol, information_op=information_ops.ProjectedResidualInformationOp(),
            belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(),
            stopping_criterion=sc.MaxIterationsStoppingCriterion(steps))
        x0 = randvars.Normal(v * m, linops.aslinop(v * v * C) if rep == "linop" else v * v * C)
        runs.append([(dense(st.belief.x.mean) / v, dense(st.belief.x.cov) / v ** 2, st.residual / (u * v))
                     for st in sol.solve_iterator(beliefs.LinearSystemBelief(x=x0), problems.LinearSystem(u * A, u * v * b),
                                                  rng=np.random.default_rng(seed))])
    d.check(len(runs[0]) == len(runs[1]), "%d iterations, %d in other units", len(runs[0]), len(runs[1]))
    for k, (p, q) in enumerate(zip(*runs)):
        if np.linalg.norm(p[2]) < 1e-7 * G.mag(b):
            break  # converged: what remains is rounding
        for what, i in (("mean", 0), ("cov", 1), ("residual", 2)):
            d.check(close(q[i], p[i], 1e-6 * G.mag(p[i], m, C)), "%s after %d steps: %s in other units, %s", what, k, q[i], p[i])
    d.nontrivial()


SUBS = [
    Sub("units", units, 200, 4000),
    Sub("solution", solution, 1200, 20000),
    Sub("matrix_based", matrix_based, 600, 10000),
    Sub("stopping", stopping, 600, 8000),
    Sub("named", named, 500, 6000),
    Sub("unit_vectors", unit_vectors, 60, 600),
]
