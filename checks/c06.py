"""C06 Sampling: shape, dtype, reproducibility and distribution."""
import numpy as np
import scipy.stats

import probnum as pn
from probnum import linops, randvars
from pbt.runner import Sub
from . import c04, c05
from . import liblinops as L
from . import librv as R

RULE = ("A case is a random variable (a Normal after arithmetic and views, or a wrapped SciPy "
        "distribution), a seed and a sample size; non-trivial if samples were drawn and "
        "compared (shape, dtype, reproducibility, standardised moments at 7 sigma).")

SIZES = [(), (3,), 2, (2, 3), (2, 1), (1, 2), (0,), [2, 2], np.int64(3)]


def as_tuple(size):
    return (int(size),) if np.ndim(size) == 0 and not isinstance(size, tuple) else tuple(size)


def gen(d):
    x = R.normal(d, psd=True, symkron_ok=False)
    for _ in range(d.int(0, 2)):
        if d.bool():
            if x.scale < 1e4:
                x = c04.step(d, x)
        else:
            x, _ = c05.view(d, x)
    d.note("rv", x.desc[:1500])
    return x


def shapes(d):
    x = gen(d)
    rv = x.rv
    size, seed = d.pick(SIZES), d.seed()
    d.note("size", repr(size))
    s = rv.sample(np.random.default_rng(seed), size=size)
    want = as_tuple(size) + x.shape
    d.check(np.shape(s) == want, "sample(size=%s) has shape %s, expected %s", size, np.shape(s),
            want)
    d.check(np.asarray(s).dtype == rv.dtype, "sample dtype %s, rv dtype %s",
            np.asarray(s).dtype, rv.dtype)
    d.check(np.all(np.isfinite(s)), "samples not finite: %s", s)
    for _ in range(d.int(0, 2)):
        q = d.pick(["mean", "cov", "var", "std", "chol"])
        if q == "chol":
            R.check_chol(d, x, "rv")
        else:
            getattr(rv, q)
    s2 = rv.sample(rng=np.random.default_rng(seed), size=size)
    d.check(np.array_equal(s, s2), "same seed, different samples: %s / %s", s, s2)
    if isinstance(s, np.ndarray) and s.size:
        s2[...] = 17.0
        s3 = rv.sample(np.random.default_rng(seed), size=size)
        d.check(np.array_equal(s, s3), "samples change after writing into an earlier sample")
    R.check_rv(d, x, "after sampling")
    for bad in (np.random.RandomState(1), 3, None):
        try:
            rv.sample(bad, size=size)
        except TypeError:
            continue
        d.fail("rng %r accepted" % (bad,))
    d.nontrivial()


N = 1500


def moments(d):
    x = gen(d)
    seed = d.seed()
    size = d.pick([(N,), (N // 3, 3), (5, N // 5)])
    d.note("seed", seed)
    s = np.asarray(x.rv.sample(np.random.default_rng(seed), size=size))
    d.check(s.shape == size + x.shape, "shape %s", s.shape)
    n = x.M.size
    S = s.reshape(N, n) - x.M.reshape(-1)
    w, V = np.linalg.eigh(x.C)
    big = w > (1e-6 if x.f32 else 1e-9) * max(1.0, w[-1])
    tol = (1e-2 if x.f32 else 1e-3) * np.sqrt(x.scale)
    dead = S @ V[:, ~big]
    d.check(np.all(np.abs(dead) <= tol), "samples vary by %s in a direction of zero variance",
            np.max(np.abs(dead), initial=0))
    if not big.any():
        return
    Z = (S @ V[:, big]) / np.sqrt(w[big])
    z = np.abs(Z.mean(0)) * np.sqrt(N)
    d.check(np.all(z < 7), "standardised sample mean off by %s sigma", z)
    k = Z.shape[1]
    E = np.abs(Z.T @ Z / N - np.eye(k))
    sig = np.where(np.eye(k) > 0, np.sqrt(2 / N), 1 / np.sqrt(N))
    d.check(np.all(E < 7.5 * sig), "standardised sample covariance off by %s", E)
    lag = np.abs(np.sum(Z[1:] * Z[:-1], 0)) / np.sqrt(N)
    d.check(np.all(lag < 7.5), "successive samples are correlated: %s", lag)
    lag = np.abs(np.sum(Z[N // 2:] * Z[: N // 2], 0)) / np.sqrt(N // 2)
    d.check(np.all(lag < 7.5), "halves of the sample are correlated: %s", lag)
    k4 = np.abs((Z ** 4).mean(0) - 3)
    d.check(np.all(k4 < 3), "fourth moment off by %s", k4)
    d.nontrivial()


def symkron(d):
    """Symmetric Kronecker covariance: realisations are symmetric perturbations of the mean,
    with the covariance projected onto the symmetric matrices."""
    n = d.int(2, 3)
    A = R.covmat(d, n)
    M = d.array((n, n))
    d.note("A", L.fmt(A))
    rv = randvars.Normal(M, linops.SymmetricKronecker(A))
    size = d.pick([(), (3,), (2, 2), 4])
    seed = d.seed()
    s = rv.sample(np.random.default_rng(seed), size=size)
    d.check(s.shape == as_tuple(size) + (n, n), "sample(size=%s) has shape %s", size, s.shape)
    d.check(np.array_equal(s, rv.sample(np.random.default_rng(seed), size=size)),
            "not reproducible")
    size = d.pick([(N,), (N // 3, 3)])
    s = rv.sample(np.random.default_rng(seed), size=size).reshape(N, n, n) - M
    d.check(np.allclose(s, np.swapaxes(s, 1, 2), atol=1e-8), "perturbation not symmetric")
    P = np.zeros((n * n, n * n))
    for i in range(n):
        for j in range(n):
            P[i * n + j, i * n + j] += 0.5
            P[i * n + j, j * n + i] += 0.5
    C = P @ np.kron(A, A) @ P
    w, V = np.linalg.eigh(C)
    big = w > 1e-9 * w[-1]
    Z = (s.reshape(N, n * n) @ V[:, big]) / np.sqrt(w[big])
    k = Z.shape[1]
    d.check(np.all(np.abs(Z.mean(0)) * np.sqrt(N) < 7), "sample mean")
    E = np.abs(Z.T @ Z / N - np.eye(k))
    sig = np.where(np.eye(k) > 0, np.sqrt(2 / N), 1 / np.sqrt(N))
    d.check(np.all(E < 7.5 * sig), "standardised sample covariance off by %s", E)
    d.nontrivial()


def categorical(d):
    k = d.size(2, 5, 15)
    w = np.array([d.int(0, 4) for _ in range(k)], float)
    if w.sum() == 0:
        w[0] = 1
    p = w / w.sum()
    esh = d.pick([(), (2,)])
    sup = (np.arange(k) * 10.0)
    sup = sup if esh == () else np.stack([sup, -sup], -1)
    d.note("p", L.fmt(p))
    rv = randvars.Categorical(p, sup)
    size = d.pick([(N,), (N // 3, 3)])
    for smp in (rv.sample(np.random.default_rng(d.seed()), size),):
        first = smp.reshape((N,) + esh)
        first = first if esh == () else first[:, 0]
        f = np.array([np.mean(first == 10.0 * i) for i in range(k)])
        sd = np.sqrt(p * (1 - p) / N)
        d.check(np.all(np.abs(f - p) <= 7 * sd + 1e-12), "frequencies %s, probabilities %s", f, p)
    d.nontrivial()


def wrapped(d):
    """asrandvar(scipy distribution) answers like the scipy distribution."""
    name = d.pick(["norm", "uniform", "gamma", "beta", "poisson", "binom", "bernoulli",
                   "mvn", "mvt_norm1"])
    d.label(name)
    a, b = d.pos(0.5, 3), d.pos(0.5, 3)
    d.note("dist", "%s(%s, %s)" % (name, a, b))
    st = scipy.stats
    disc = name in ("poisson", "binom", "bernoulli")
    dist = {"norm": lambda: st.norm(a, b), "uniform": lambda: st.uniform(a, b),
            "gamma": lambda: st.gamma(a, scale=b), "beta": lambda: st.beta(a, b),
            "poisson": lambda: st.poisson(a), "binom": lambda: st.binom(4, a / 4),
            "bernoulli": lambda: st.bernoulli(a / 4),
            "mvn": lambda: st.multivariate_normal([a, b], [[2, 0.5], [0.5, 1]]),
            "mvt_norm1": lambda: st.multivariate_normal([a], [[b]])}[name]()
    rv = pn.asrandvar(dist)
    mean = np.asarray(dist.mean() if callable(getattr(dist, "mean", None)) else dist.mean)
    d.check(np.allclose(rv.mean, mean), "mean %s, expected %s", rv.mean, mean)
    d.check(rv.shape == mean.shape, "shape %s, expected %s", rv.shape, mean.shape)
    if name not in ("mvn", "mvt_norm1"):
        d.check(np.allclose(rv.var, dist.var()), "var %s, expected %s", rv.var, dist.var())
    else:
        d.check(np.allclose(rv.cov, dist.cov), "cov %s", rv.cov)
    size = d.pick([(), 3, (2, 2)])
    seed = d.seed()
    s = rv.sample(np.random.default_rng(seed), size=size)
    want = as_tuple(size) + mean.shape
    d.check(np.shape(s) == want, "sample shape %s, expected %s", np.shape(s), want)
    d.check(np.array_equal(s, rv.sample(np.random.default_rng(seed), size=size)),
            "not reproducible")
    if mean.shape == ():
        x = d.int(0, 4) if disc else d.pos(0.125, 4)
        d.check(np.isclose(rv.cdf(x), dist.cdf(x)), "cdf(%s) = %s", x, rv.cdf(x))
        if disc:
            d.check(np.isclose(rv.pmf(x), dist.pmf(x)), "pmf(%s) = %s", x, rv.pmf(x))
        else:
            d.check(np.isclose(rv.pdf(x), dist.pdf(x)), "pdf(%s) = %s", x, rv.pdf(x))
            d.check(np.isclose(rv.logpdf(x), dist.logpdf(x)), "logpdf(%s) = %s", x,
                    rv.logpdf(x))
            q = d.pick([0.1, 0.5, 0.8])
            d.check(np.isclose(rv.quantile(q), dist.ppf(q)), "quantile(%s) = %s", q,
                    rv.quantile(q))
        d.check(np.isclose(rv.std, dist.std()), "std %s", rv.std)
        d.check(np.isclose(rv.median, dist.median()), "median %s", rv.median)
    d.nontrivial()


SUBS = [
    Sub("shapes", shapes, 3000, 60000),
    Sub("moments", moments, 1500, 30000),
    Sub("symkron", symkron, 200, 3000),
    Sub("categorical", categorical, 200, 3000),
    Sub("wrapped", wrapped, 300, 3000),
]


def _size_one():
    rv = randvars.Normal(np.zeros(2), np.eye(2))
    return rv.sample(np.random.default_rng(0), size=1).shape == (2,)


def _dirichlet():
    try:
        return pn.asrandvar(scipy.stats.dirichlet([1.0, 2.0, 1.5])).mean.shape != (3,)
    except ValueError:
        return True


KNOWN = {"F02": _size_one, "F03": _dirichlet}
