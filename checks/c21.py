"""C21 Kernel embeddings and integration measures against numerical quadrature."""
import numpy as np

from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.randprocs.covfuncs import ExpQuad, Linear, Matern, ProductMatern, RatQuad, WhiteNoise
from pbt.runner import Sub
from . import libquad as Q
from .librv import close

RULE = ("A case is an integration measure (Lebesgue on a box, normalised or not; Gaussian), a kernel "
        "with random smoothness and lengthscales, and evaluation points; non-trivial if at least one "
        "value was compared with an independent numerical integral.")


def embedding(d):
    q = Q.gen(d)
    emb = KernelEmbedding(q.kernel, q.measure)
    n = d.size(1, 3, 20)
    X = Q.points(d, q, n, outside=True)
    if d.bool(1, 4) and q.kind == "lebesgue":
        X[0] = d.pick([q.lo, q.hi])  # corners of the domain
    X0 = X.copy()
    want = Q.kmean(q, X)
    got = np.asarray(emb.kernel_mean(X), dtype=float)
    d.check(got.shape == (n,), "kernel_mean has shape %s", got.shape)
    top = max(float(np.max(want)), Q.mass(q) * 1e-3)
    d.check(close(got, want, 1e-9 * top), "kernel_mean %s != integral of the kernel %s", got, want)
    d.check(np.array_equal(X, X0), "kernel_mean changed its input")
    v, kpp = emb.kernel_variance(), Q.kvar(q)
    d.check(np.ndim(v) == 0 and np.isfinite(v), "kernel_variance returned %s", v)
    d.check(close(v, kpp, 1e-9 * max(kpp, 1e-2 * Q.mass(q) ** 2)),
            "kernel_variance %s != double integral %s", v, kpp)
    # one point at a time
    one = np.array([emb.kernel_mean(X[i:i + 1])[0] for i in range(n)])
    d.check(close(one, got, 1e-13 * top), "kernel_mean depends on the batch")
    inside = q.kind == "gauss" or np.all((X >= q.lo) & (X <= q.hi))
    d.label("inside" if inside else "outside")
    d.nontrivial()


def relations(d):
    """Relations between embeddings: the kernel variance is the integral of the kernel mean,
    translation and scaling of the problem, normalisation, splitting the domain."""
    q = Q.gen(d, dims=(1, 1, 2))
    emb = KernelEmbedding(q.kernel, q.measure)
    v = float(emb.kernel_variance())
    if q.kind == "lebesgue":
        if q.dim == 1:
            f = lambda t: np.asarray(emb.kernel_mean(t.reshape(-1, 1))).reshape(t.shape)
            got = q.const * Q.integrate(f, q.lo[0], q.hi[0], min(q.ells) / 2)
            d.check(close(got, v, 1e-8 * max(v, 1e-3)), "integral of kernel_mean %s != kernel_variance %s", got, v)
        else:
            t = [np.polynomial.legendre.leggauss(40)[0] for _ in range(2)]
            w = np.polynomial.legendre.leggauss(40)[1]
            if min(q.ells) < 0.5:
                d.inconclusive("short lengthscale")
            G = np.stack(np.meshgrid(*[(q.lo[i] + q.hi[i]) / 2 + (q.hi[i] - q.lo[i]) / 2 * t[i]
                                       for i in range(2)], indexing="ij"), -1).reshape(-1, 2)
            W = np.outer(w, w).reshape(-1) * np.prod((q.hi - q.lo) / 2)
            got = q.const * W @ emb.kernel_mean(G)
            d.check(close(got, v, 1e-6 * max(v, 1e-3)), "integral of kernel_mean %s != kernel_variance %s", got, v)
        # additivity in the domain (unnormalised means)
        ax = d.int(0, q.dim - 1)
        cut = q.lo[ax] + (q.hi[ax] - q.lo[ax]) * d.pick([0.25, 0.5, 0.875])
        hi1, lo2 = q.hi.copy(), q.lo.copy()
        hi1[ax] = lo2[ax] = cut
        X = Q.points(d, q, 3, outside=True)
        parts = [KernelEmbedding(q.kernel, LebesgueMeasure(dom)) for dom in
                 [(q.lo, hi1), (lo2, q.hi)]]
        got = sum(p.kernel_mean(X) for p in parts)
        d.check(close(q.const * got, emb.kernel_mean(X), 1e-9 * Q.mass(q)),
                "kernel means of the two halves of the domain do not add up")
    else:
        X = Q.points(d, q, 3)
        # reflection at the mean
        d.check(close(emb.kernel_mean(2 * q.mu - X), emb.kernel_mean(X), 1e-12), "no reflection symmetry")
        # shrinking covariance: the embedding becomes the kernel
        tiny = GaussianMeasure(q.mu.copy(), 1e-12 * q.cov)
        k = q.kernel(X, q.mu[None, :])
        d.check(close(KernelEmbedding(q.kernel, tiny).kernel_mean(X), k, 1e-6), "Dirac limit")
    d.nontrivial()


def units(d):
    """Changing the unit of length: measure, lengthscales and points scaled by a power of two."""
    q = Q.gen(d)
    u = 2.0 ** d.pick([-14, -20, -7, 5, 12])
    norm = q.kind == "gauss" or q.normalized
    if q.kind == "gauss":
        m = GaussianMeasure(u * q.mu, u**2 * q.cov)
    else:
        m = LebesgueMeasure((u * q.lo, u * q.hi), normalized=q.normalized)
    if q.kname == "expquad":
        k = ExpQuad((q.dim,), lengthscales=u * q.ells[0])
    elif q.kname == "matern":
        k = Matern((1,), q.nus[0], lengthscales=u * q.ells[0])
    else:
        k = ProductMatern((q.dim,), lengthscales=u * np.array(q.ells), nus=np.array(q.nus))
    d.note("unit", "%s" % u)
    n = d.size(1, 3, 20)
    X = Q.points(d, q, n, outside=True)
    f = 1.0 if norm else u**q.dim
    base, emb = KernelEmbedding(q.kernel, q.measure), KernelEmbedding(k, m)
    want, got = np.asarray(base.kernel_mean(X)), np.asarray(emb.kernel_mean(u * X)) / f
    d.check(close(got, want, 1e-9 * max(np.max(np.abs(want)), 1e-3 * Q.mass(q))),
            "kernel_mean in other units %s, expected %s", got, want)
    want, got = base.kernel_variance(), emb.kernel_variance() / f**2
    d.check(close(got, want, 1e-9 * max(want, 1e-2 * Q.mass(q) ** 2)),
            "kernel_variance in other units %s, expected %s", got, want)
    want, got = np.asarray(q.measure(X)), np.asarray(m(u * X)) * (u**q.dim if norm else 1.0)
    d.check(close(got, want, 1e-9 * max(1e-3, np.max(want))), "density in other units %s, expected %s", got, want)
    s = d.seed()
    a, b = q.measure.sample(3, rng=np.random.default_rng(s)), m.sample(3, rng=np.random.default_rng(s))
    if q.kind == "lebesgue":
        d.check(np.all((b >= u * q.lo) & (b <= u * q.hi)), "samples outside of the domain")
        d.check(close(b / u, a, 1e-9 * (1 + np.max(np.abs(a)))), "samples in other units %s, expected %s", b / u, a)
    d.nontrivial()


def measure(d):
    dim = d.pick([1, 1, 2, 3])
    q = Q.gen_measure(d, dim)
    m = q.measure
    d.check(m.input_dim == dim, "input_dim %s", m.input_dim)
    d.check(len(m.domain) == 2 and np.shape(m.domain[0]) == (dim,) and np.shape(m.domain[1]) == (dim,), "domain shapes")
    n = d.size(1, 4, 20)
    X = Q.points(d, q, n, outside=True)
    p = np.asarray(m(X))
    d.check(p.shape == (n,), "density has shape %s", p.shape)
    if q.kind == "gauss":
        L = np.linalg.cholesky(q.cov)
        z = np.linalg.solve(L, (X - q.mu).T)
        want = np.exp(-0.5 * np.sum(z**2, 0)) / np.prod(np.diag(L)) / (2 * np.pi) ** (dim / 2)
        d.check(close(m.mean, q.mu, 1e-12) and close(m.cov, q.cov, 1e-12), "mean/cov %s %s", m.mean, m.cov)
        d.check(np.shape(m.mean) == (dim,) and np.shape(m.cov) == (dim, dim), "shape of mean / cov")
        d.check(np.all(np.isneginf(m.domain[0])) and np.all(np.isposinf(m.domain[1])), "domain of a Gaussian measure")
        off = q.cov - np.diag(np.diag(q.cov))
        d.check(bool(m.diagonal_covariance) == (not np.any(off)), "diagonal_covariance")
    else:
        inside = np.all((X >= q.lo) & (X <= q.hi), axis=1)
        want = np.where(inside, q.const, 0.0)
        d.check(np.array_equal(m.domain[0], q.lo) and np.array_equal(m.domain[1], q.hi), "domain %s", m.domain)
    d.check(close(p, want, 1e-10 * max(1e-3, np.max(want))), "density %s != %s", p, want)
    # samples
    s = d.seed()
    N = d.weighted([(3, d.int(1, 5)), (1, 800)])
    S = m.sample(N, rng=np.random.default_rng(s))
    d.check(np.shape(S) == (N, dim), "samples have shape %s", np.shape(S))
    d.check(np.array_equal(S, m.sample(N, rng=np.random.default_rng(s))), "samples are not reproducible")
    if q.kind == "lebesgue":
        d.check(np.all((S >= q.lo) & (S <= q.hi)), "samples outside of the domain")
        mu, cov = (q.lo + q.hi) / 2, np.diag((q.hi - q.lo) ** 2 / 12)
    else:
        mu, cov = q.mu, q.cov
    if N >= 800:
        Lc = np.linalg.cholesky(cov)
        Z = np.linalg.solve(Lc, (S - mu).T)
        d.check(np.all(np.abs(Z.mean(1)) < 8 / np.sqrt(N)), "sample mean is off: %s", Z.mean(1))
        C = Z @ Z.T / N
        d.check(np.all(np.abs(C - np.eye(dim)) < 16 / np.sqrt(N)), "sample covariance is off: %s", C)
        d.label("moments")
    d.nontrivial()


def raises(d, exc, fn, what):
    try:
        fn()
    except exc:
        return
    d.fail(f"{what}: not rejected")


def invalid(d):
    dim = d.int(1, 3)
    lo = d.array(dim, -3, 3)
    hi = lo + d.array(dim, 0.25, 3)
    case = d.pick(["empty", "dim", "sizes", "pairs", "2d", "nonpos", "kernel-dim", "kernel-type", "matern-dim", "volume", "nu"])
    d.label(case)
    i = d.int(0, dim - 1)
    if case == "empty":
        h = hi.copy()
        h[i] = lo[i] - d.pick([0.0, 1.0])
        raises(d, ValueError, lambda: LebesgueMeasure((lo, h)), "empty domain")
    elif case == "dim" and dim > 1:
        raises(d, ValueError, lambda: LebesgueMeasure((lo, hi), input_dim=dim + d.pick([-1, 1]) if dim > 2 else dim + 1), "wrong input_dim")
    elif case == "sizes":
        raises(d, ValueError, lambda: LebesgueMeasure((lo, np.append(hi, 9.0))), "limits of different size")
    elif case == "pairs":
        raises(d, ValueError, lambda: LebesgueMeasure((lo, hi, hi)), "three limits")
    elif case == "2d":
        raises(d, ValueError, lambda: LebesgueMeasure((lo[:, None], hi[:, None])), "matrices as limits")
    elif case == "nonpos":
        raises(d, ValueError, lambda: LebesgueMeasure((0.0, 1.0), input_dim=d.pick([0, -1])), "non-positive dimension")
    elif case == "kernel-dim":
        k = d.pick([ExpQuad, Matern])((dim + 1,))
        raises(d, ValueError, lambda: KernelEmbedding(k, LebesgueMeasure((lo, hi))), "kernel of another dimension")
    elif case == "kernel-type":
        k = d.pick([RatQuad, Linear, WhiteNoise])((dim,))
        raises(d, NotImplementedError, lambda: KernelEmbedding(k, LebesgueMeasure((lo, hi))), "unknown pair")
        k = ProductMatern((dim,), lengthscales=1.0, nus=1.5)
        raises(d, NotImplementedError, lambda: KernelEmbedding(k, GaussianMeasure(lo, np.eye(dim))), "unknown pair")
    elif case == "matern-dim" and dim > 1:
        e = KernelEmbedding(Matern((dim,)), LebesgueMeasure((lo, hi)))
        raises(d, NotImplementedError, lambda: e.kernel_mean(lo[None]), "multivariate Matern mean")
        raises(d, NotImplementedError, e.kernel_variance, "multivariate Matern variance")
    elif case == "volume":
        raises(d, ValueError, lambda: LebesgueMeasure((0.0, np.inf), input_dim=dim, normalized=True), "infinite volume")
    elif case == "nu":
        k = ProductMatern((dim,), lengthscales=1.0, nus=d.pick([1.0, 4.5, 0.75]))
        e = KernelEmbedding(k, LebesgueMeasure((lo, hi)))
        raises(d, NotImplementedError, lambda: e.kernel_mean(lo[None]), "unknown smoothness (mean)")
        raises(d, NotImplementedError, e.kernel_variance, "unknown smoothness (variance)")
    d.nontrivial()


SUBS = [
    Sub("embedding", embedding, 1500, 20000),
    Sub("relations", relations, 600, 8000),
    Sub("units", units, 600, 8000),
    Sub("measure", measure, 800, 10000),
    Sub("invalid", invalid, 200, 2000),
]
