"""Generators and numerical-quadrature oracles for Bayesian quadrature."""
import numpy as np

from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.randprocs.covfuncs import ExpQuad, Matern, ProductMatern

from . import librv

_GLX, _GLW = np.polynomial.legendre.leggauss(16)


def matern(nu, r, ell):
    z = np.sqrt(2 * nu) * np.abs(r) / ell
    poly = {0.5: 1.0 + 0 * z, 1.5: 1 + z, 2.5: 1 + z + z**2 / 3,
            3.5: 1 + z + 2 * z**2 / 5 + z**3 / 15}[nu]
    return poly * np.exp(-z)


def expquad(r, ell):
    return np.exp(-0.5 * (r / ell) ** 2)


def integrate(f, a, b, width):
    """Composite Gauss-Legendre integral of the smooth function f with panels of at most width."""
    if b <= a:
        return 0.0
    m = int(np.clip(np.ceil((b - a) / width), 1, 4000))
    e = np.linspace(a, b, m + 1)
    h = np.diff(e) / 2
    t = (e[:-1] + h)[:, None] + h[:, None] * _GLX[None, :]
    return float(np.sum(f(t) * _GLW[None, :] * h[:, None]))


class Quad:
    """measure, kernel: objects under test; factors[i](r): univariate kernel along axis i;
    ells[i]; lo/hi; gauss: (mu, cov) or None; const: density constant for Lebesgue."""


def gen_measure(d, dim, kinds=("lebesgue", "lebesgue", "gauss")):
    q = Quad()
    q.dim = dim
    kind = d.pick(list(kinds))
    d.label("measure:" + kind)
    q.kind = kind
    if kind == "lebesgue":
        same = d.bool(1, 3)
        lo = d.array(dim, -4, 4)
        width = d.array(dim, 0.25, 4)
        if same:
            lo[:] = lo[0]
            width[:] = width[0]
        hi = lo + width
        normalized = d.bool()
        q.normalized = normalized
        form = d.pick(["arrays", "arrays", "scalars" if same else "arrays", "lists"])
        if form == "scalars":
            q.measure = LebesgueMeasure((float(lo[0]), float(hi[0])), input_dim=dim, normalized=normalized)
        elif form == "lists":
            q.measure = LebesgueMeasure([list(lo), list(hi)] if dim > 1 else [lo[0], hi[0]],
                                        input_dim=d.pick([None, dim]), normalized=normalized)
        else:
            q.measure = LebesgueMeasure((lo.copy(), hi.copy()), input_dim=d.pick([None, dim]),
                                        normalized=normalized)
        q.lo, q.hi = lo, hi
        q.const = 1.0 / np.prod(width) if normalized else 1.0
        q.center, q.spread = (lo + hi) / 2, width / 2
    else:
        mu = d.array(dim, -3, 3)
        form = d.pick(["scalars", "diag", "full", "full"])
        if form == "scalars":
            mu[:] = mu[0]
            s = d.pick([0.25, 1.0, 2.5])
            cov = s * np.eye(dim)
            how = d.pick(["float", "array"])
            d.label("gauss:scalars:" + how)
            if how == "float":
                q.measure = GaussianMeasure(float(mu[0]), float(s), input_dim=dim)
            else:
                q.measure = GaussianMeasure(np.array([mu[0]]), np.array([s]), input_dim=dim)
        else:
            cov = np.diag(d.array(dim, 0.125, 4)) if form == "diag" else librv.covmat(d, dim)
            d.label("gauss:" + form)
            q.measure = GaussianMeasure(mu.copy(), cov.copy())
        q.mu, q.cov = mu, cov
        q.center, q.spread = mu, np.sqrt(np.diag(cov))
    return q


def gen_kernel(d, q, kinds=None):
    dim = q.dim
    if q.kind == "gauss":
        kinds = ["expquad"]
    elif kinds is None:
        kinds = ["expquad", "pmatern", "matern" if dim == 1 else "pmatern"]
    k = d.pick(kinds)
    d.label("kernel:" + k)
    q.kname = k
    nus = [0.5, 1.5, 2.5, 3.5]
    ell = d.weighted([(4, None), (1, 0.125), (1, 8.0)])
    if ell is None:
        ell = d.dyadic(0.25, 4)
    if k == "expquad":
        q.kernel = ExpQuad((dim,), lengthscales=ell) if not (ell == 1 and d.bool()) else ExpQuad((dim,))
        q.ells = [ell] * dim
        q.factors = [lambda r, e=ell: expquad(r, e)] * dim
    elif k == "matern":
        nu = d.pick(nus)
        q.kernel = Matern((1,), nu, lengthscales=ell)
        q.ells, q.factors = [ell], [lambda r, e=ell, n=nu: matern(n, r, e)]
        q.nus = [nu]
    else:
        if d.bool(1, 3):
            nn, ee = [d.pick(nus)] * dim, [ell] * dim
            q.kernel = ProductMatern((dim,), lengthscales=ell, nus=nn[0])
        else:
            nn = [d.pick(nus) for _ in range(dim)]
            ee = [d.dyadic(0.25, 4) for _ in range(dim)]
            q.kernel = ProductMatern((dim,), lengthscales=np.array(ee), nus=np.array(nn))
        q.ells = ee
        q.factors = [lambda r, e=e, n=n: matern(n, r, e) for n, e in zip(nn, ee)]
        q.nus = nn
    return q


def gen(d, dims=(1, 1, 2, 3), kinds=("lebesgue", "lebesgue", "gauss"), kernels=None):
    dim = d.pick(list(dims))
    q = gen_measure(d, dim, kinds)
    d.label(f"dim:{dim}")
    return gen_kernel(d, q, kernels)


def kmat(q, X, Y):
    """Gram matrix from the textbook formulas."""
    K = np.ones((len(X), len(Y)))
    for i, f in enumerate(q.factors):
        K = K * f(X[:, None, i] - Y[None, :, i])
    return K


def kmean(q, X):
    """Numerical integrals of the kernel in one argument against the measure."""
    out = np.ones(len(X))
    if q.kind == "lebesgue":
        for i, f in enumerate(q.factors):
            a, b, w = q.lo[i], q.hi[i], q.ells[i] / 2
            for j, x in enumerate(X[:, i]):
                c = min(max(x, a), b)
                g = lambda t, x=x, f=f: f(t - x)
                out[j] *= integrate(g, a, c, w) + integrate(g, c, b, w)
        return out * q.const
    lam, Q = np.linalg.eigh(q.cov)
    U = (X - q.mu) @ Q
    for i, la in enumerate(lam):
        s, ell = np.sqrt(la), q.ells[0]
        for j, u in enumerate(U[:, i]):
            g = lambda t, u=u: np.exp(-0.5 * t**2 / la - 0.5 * ((u - t) / ell) ** 2)
            out[j] *= integrate(g, -14 * s, 14 * s, min(s, ell)) / np.sqrt(2 * np.pi * la)
    return out


def kvar(q):
    out = 1.0
    if q.kind == "lebesgue":
        for i, f in enumerate(q.factors):
            R = q.hi[i] - q.lo[i]
            out *= 2 * integrate(lambda t: (R - t) * f(t), 0.0, R, q.ells[i] / 2)
        return out * q.const**2
    for la in np.linalg.eigvalsh(q.cov):
        s, ell = np.sqrt(2 * la), q.ells[0]
        g = lambda t: np.exp(-0.5 * t**2 / (2 * la) - 0.5 * (t / ell) ** 2)
        out *= integrate(g, -14 * s, 14 * s, min(s, ell)) / np.sqrt(2 * np.pi * 2 * la)
    return out


def mass(q):
    if q.kind == "gauss":
        return 1.0
    return q.const * np.prod(q.hi - q.lo)


def points(d, q, n, outside=False):
    """Evaluation points around the bulk of the measure (in the domain unless outside)."""
    U = d.array((n, q.dim), -1, 1, den=32)
    f = 1.0 if not outside else d.pick([1.0, 2.5])
    if q.kind == "gauss":
        f *= 2
    return q.center + f * U * q.spread
