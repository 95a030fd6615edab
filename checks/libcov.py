"""Random covariance functions with scalar closed-form references."""
import math

import numpy as np
import scipy.special

from probnum.randprocs import covfuncs

SHAPES = [(), (1,), (2,), (3,)]


def matern1(r, nu):
    """Matern correlation at scaled distance r = |x - y| / l."""
    if r == 0:
        return 1.0
    z = math.sqrt(2 * nu) * r
    p = nu - 0.5
    if p == int(p) and p >= 0:
        p = int(p)
        s = sum(math.factorial(p + i) / (math.factorial(i) * math.factorial(p - i))
                * (2 * z) ** (p - i) for i in range(p + 1))
        return math.exp(-z) * math.factorial(p) / math.factorial(2 * p) * s
    if z > 600:
        return 0.0
    return 2 ** (1 - nu) / math.gamma(nu) * z ** nu * float(scipy.special.kv(nu, z))


NUS = [0.5, 1.5, 2.5, 3.5, 4.5, 1.0, 2.0, 0.75]
RARE_NUS = [0.49, 0.6, 1.505, 2.4999, 3.0, 5.5, 6.5, 7.5, 9.5, 12.5, 15.5]


def pick_nu(d, half_integer=False):
    pool = RARE_NUS if d.bool(1, 4) else NUS
    return d.pick([v for v in pool if not half_integer or (v - .5) == int(v - .5)])



def base(d, shape, half_integer=False, psd_only=True, keops_free=False):
    """(covfunc, ref(a, b), name); ref takes flat float vectors."""
    kinds = ["expquad", "matern", "ratquad", "white", "linear", "poly"]
    if len(shape) <= 1:
        kinds += ["prodmatern"]
    else:
        kinds = ["expquad", "matern", "ratquad"]
    if keops_free:
        kinds = [k for k in kinds if k not in ("expquad", "matern")]
    kind = d.pick(kinds)
    d.label("k:" + kind)
    n = int(np.prod(shape)) if shape else 1
    if kind in ("expquad", "matern"):
        if shape and d.bool():
            ls = d.array(shape, 0.25, 4)
        else:
            ls = d.pick([1.0, 0.5, 2.0, 3, 0.125])
        lv = np.broadcast_to(np.asarray(ls, float), shape).reshape(-1) if shape else \
            np.asarray([float(ls)])
    if kind == "expquad":
        k = covfuncs.ExpQuad(shape, lengthscales=ls)
        return k, (lambda a, b: math.exp(-0.5 * float(np.sum(((a - b) / lv) ** 2)))), \
            "ExpQuad(l=%s)" % ls
    if kind == "matern":
        nu = pick_nu(d, half_integer)
        k = covfuncs.Matern(shape, nu=nu, lengthscales=ls)
        return k, (lambda a, b: matern1(math.sqrt(float(np.sum(((a - b) / lv) ** 2))), nu)), \
            "Matern(nu=%s, l=%s)" % (nu, ls)
    if kind == "ratquad":
        ls, al = d.pick([1.0, 0.5, 2.0, 3]), d.pick([1.0, 0.5, 3, 2.5, 0.01, 60.0, 100.0])
        k = covfuncs.RatQuad(shape, lengthscale=ls, alpha=al)
        return k, (lambda a, b: (1 + float(np.sum((a - b) ** 2)) / (2 * al * ls ** 2)) ** -al), \
            "RatQuad(l=%s, alpha=%s)" % (ls, al)
    if kind == "white":
        s = d.pick([1.0, 0.5, 2.0, 0.0, 3])
        k = covfuncs.WhiteNoise(shape, sigma_sq=s)
        return k, (lambda a, b: float(s) if np.array_equal(a, b) else 0.0), "White(%s)" % s
    if kind == "linear":
        c = d.pick([0.0, 1.0, 0.5, 2])
        k = covfuncs.Linear(shape, constant=c)
        return k, (lambda a, b: float(a @ b) + c), "Linear(%s)" % c
    if kind == "poly":
        c, e = d.pick([0.0, 1.0, 0.5, 2]), d.pick([1, 2, 3, 4, 7])
        k = covfuncs.Polynomial(shape, constant=c, exponent=e)
        return k, (lambda a, b: (float(a @ b) + c) ** e), "Poly(%s,%s)" % (c, e)
    if shape == ():
        ls, nu = d.pick([1.0, 0.5, 2.0]), pick_nu(d)
        k = covfuncs.ProductMatern((), lengthscales=ls, nus=nu)
        return k, (lambda a, b: matern1(abs(float(a[0] - b[0])) / ls, nu)), \
            "ProductMatern(%s,%s)" % (ls, nu)
    ls = d.array(n, 0.25, 4) if d.bool() else d.pick([1.0, 0.5, 2.0])
    nus = np.array([pick_nu(d) for _ in range(n)]) if d.bool() else pick_nu(d)
    k = covfuncs.ProductMatern(shape, lengthscales=ls, nus=nus)
    lv, nv = np.broadcast_to(ls, n), np.broadcast_to(nus, n)

    def ref(a, b):
        r = 1.0
        for i in range(n):
            r *= matern1(abs(float(a[i] - b[i])) / lv[i], nv[i])
        return r
    return k, ref, "ProductMatern(%s,%s)" % (ls, nus)


def tree(d, shape, depth, keops_free=False, neg=False):
    if depth == 0 or d.bool(1, 3):
        return base(d, shape, keops_free=keops_free)
    op = d.pick(["sum", "prod", "scale", "rscale", "same"])
    d.label("k:" + op)
    k1, r1, n1 = tree(d, shape, depth - 1, keops_free, neg)
    if op == "same":
        # the same object more than once
        k2, r2, n2 = tree(d, shape, 0, keops_free, neg)
        how = d.pick(["k+k", "k*k", "(k+h)+k", "(k*h)*k", "k+(h+k)"])
        k = {"k+k": lambda: k1 + k1, "k*k": lambda: k1 * k1, "(k+h)+k": lambda: (k1 + k2) + k1,
             "(k*h)*k": lambda: (k1 * k2) * k1, "k+(h+k)": lambda: k1 + (k2 + k1)}[how]()
        r = {"k+k": lambda u, v: 2 * u, "k*k": lambda u, v: u * u, "(k+h)+k": lambda u, v: 2 * u + v,
             "(k*h)*k": lambda u, v: u * u * v, "k+(h+k)": lambda u, v: 2 * u + v}[how]
        return k, (lambda a, b: r(r1(a, b), r2(a, b))), "[%s: k=%s, h=%s]" % (how, n1, n2)
    if op in ("sum", "prod"):
        k2, r2, n2 = tree(d, shape, depth - 1, keops_free, neg)
        if op == "sum":
            return k1 + k2, (lambda a, b: r1(a, b) + r2(a, b)), "(%s + %s)" % (n1, n2)
        return k1 * k2, (lambda a, b: r1(a, b) * r2(a, b)), "(%s * %s)" % (n1, n2)
    s = d.pick([2.0, 0.5, 3, np.float64(1.5), 1, 0.0] + ([-1.0, -2, -0.5] if neg else []))
    k = k1 * s if op == "scale" else s * k1
    return k, (lambda a, b: s * r1(a, b)), "(%s * %s)" % (s, n1)


def points(d, batch, shape, dtype=float, lo=-2, hi=2, spread=True):
    sh = tuple(batch) + tuple(shape)
    if np.issubdtype(dtype, np.integer):
        return d.int_array(sh, -3, 3).astype(dtype)
    x = d.array(sh, lo, hi)
    if spread and d.bool(1, 12):
        # nearly coinciding, or far apart
        d.label("spread")
        x = x * d.pick([2.0 ** -20, 2.0 ** -7, 2.0 ** 4, 2.0 ** 7])
    return x.astype(dtype)


def near(d, x):
    """A copy of x with one entry moved by very little (double precision only)."""
    y = np.array(x)
    if y.dtype == np.float64 and y.size:
        i = d.choice(y.size - 1)
        y.flat[i] = d.pick([lambda v: np.nextafter(v, np.inf), lambda v: v + 2.0 ** -30,
                            lambda v: v - 2.0 ** -20])(y.flat[i])
    return y


def flat(x, shape):
    n = int(np.prod(shape)) if shape else 1
    return np.asarray(x, float).reshape(-1, n)


def refmat(ref, x0, x1, shape):
    A, B = flat(x0, shape), flat(x1, shape)
    return np.array([[ref(a, b) for b in B] for a in A]).reshape(len(A), len(B))
