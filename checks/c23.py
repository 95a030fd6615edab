"""C23 Problem zoo: every problem is what its documentation says, and its reference solution solves it."""
import itertools
import math

import numpy as np
import scipy.integrate
import scipy.sparse
import scipy.special

from probnum import linops, problems, randvars
from probnum.problems.zoo import diffeq as Z, filtsmooth as FZ, linalg as LZ, quad as QZ
from pbt.runner import Sub
from .librv import close, dense

RULE = ("A case is one zoo problem with generated parameters; non-trivial if at least one parameter differs "
        "from its default and a documented formula, derivative, conserved quantity or reference solution was "
        "compared.")


def posf(d, lo, hi):
    return lo + (hi - lo) * d.int(0, 64) / 64.0


def covmat(rv):
    return np.atleast_2d(dense(rv.cov))


# ------------------------------------------------------------------ initial value problems

def ref_threebody(y, p):
    mu = 0.012277471
    a = ((y[0] + mu) ** 2 + y[1] ** 2) ** 1.5
    b = ((y[0] - (1 - mu)) ** 2 + y[1] ** 2) ** 1.5
    return [y[2], y[3],
            y[0] + 2 * y[3] - (1 - mu) * (y[0] + mu) / a - mu * (y[0] - (1 - mu)) / b,
            y[1] - 2 * y[2] - (1 - mu) * y[1] / a - mu * y[1] / b]


def ref_lorenz96(y, p):
    n = len(y)
    return [(y[(i + 1) % n] - y[(i - 2) % n]) * y[(i - 1) % n] - y[i] + p[0] for i in range(n)]


IVPS = {
    "threebody": (4, 0, ref_threebody, [0.994, 0, 0, -2.00158510637908252240537862224]),
    "vanderpol": (2, 1, lambda y, p: [y[1], p[0] * (1 - y[0] ** 2) * y[1] - y[0]], [2.0, 0.0]),
    "rigidbody": (3, 3, lambda y, p: [p[0] * y[1] * y[2], p[1] * y[0] * y[2], p[2] * y[0] * y[1]], [1.0, 0.0, 0.9]),
    "logistic": (1, 2, lambda y, p: [p[0] * y[0] * (1 - y[0] / p[1])], [0.1]),
    "fitzhughnagumo": (2, 4, lambda y, p: [y[0] - y[0] ** 3 / 3 - y[1] + p[0], (y[0] + p[1] - p[2] * y[1]) / p[3]],
                       [1.0, -1.0]),
    "lotkavolterra": (2, 4, lambda y, p: [p[0] * y[0] - p[1] * y[0] * y[1], -p[2] * y[1] + p[3] * y[0] * y[1]],
                      [20.0, 20.0]),
    "seir": (4, 3, None, [998, 1, 1, 0]),
    "lorenz63": (3, 3, lambda y, p: [p[0] * (y[1] - y[0]), y[0] * (p[1] - y[2]) - y[1], y[0] * y[1] - p[2] * y[2]],
                 [0.0, 1.0, 1.05]),
    "lorenz96": (None, 1, ref_lorenz96, None),
}


def jacobian(f, y, m):
    n = len(y)
    J = np.zeros((m, n))
    for i in range(n):
        h = 1e-4 * (1 + abs(y[i]))
        e = np.zeros(n)
        e[i] = h
        # fourth order central difference: exact for the polynomial vector fields of degree <= 4
        J[:, i] = (8 * (f(y + e) - f(y - e)) - (f(y + 2 * e) - f(y - 2 * e))) / (12 * h)
    return J


def ivp(d):
    name = d.pick(sorted(IVPS))
    dim, npar, ref, y0def = IVPS[name]
    d.label("ivp:" + name)
    kw = {}
    t0 = d.weighted([(1, 0.0), (3, d.dyadic(-8, 8, 2))])
    tmax = t0 + d.dyadic(1, 16, 2)
    kw["t0"], kw["tmax"] = t0, tmax
    par = None
    if npar and d.bool(4, 5):
        par = tuple(posf(d, 0.05, 8.0) for _ in range(npar))
        if name in ("rigidbody", "lorenz63", "lorenz96", "vanderpol"):
            par = tuple(p * d.pick([1, 1, -1]) for p in par)
        if d.bool(1, 4):
            par = tuple(float(max(1, round(abs(p)))) for p in par)
        form = par
        if name == "vanderpol":
            form = d.pick([par, par[0], int(round(par[0])) or 1, np.float64(par[0])])
            par = (float(np.ravel(form)[0]),)
        elif d.bool(1, 3) and name != "seir":
            form = d.pick([list(par), np.array(par)])
        kw["params"] = form
        d.nontrivial()
    defaults = {"vanderpol": (10.0,), "rigidbody": (-2.0, 1.25, -0.5), "logistic": (3.0, 1.0),
                "fitzhughnagumo": (0.2, 0.2, 3.0, 1.0), "lotkavolterra": (0.5, 0.05, 0.5, 0.05),
                "seir": (0.3, 0.3, 0.1), "lorenz63": (10.0, 28.0, 8 / 3), "lorenz96": (8.0,)}
    p = par if par is not None else defaults.get(name, ())
    y0 = None
    if name == "lorenz96":
        dim = d.int(4, 7)
        if d.bool(2, 3):
            y0 = d.array((dim,), -3, 3, 8)
        else:
            kw["num_variables"] = dim
            y0def = np.ones(dim) / p[0]
    elif d.bool(2, 3):
        if name in ("logistic", "lotkavolterra", "seir"):
            y0 = np.array([posf(d, 0.05, 5.0) for _ in range(dim)])
            if name == "logistic":
                y0 = np.array([p[1] * posf(d, 0.05, 0.95)]) if d.bool(3, 4) else np.array([p[1] * posf(d, 1.0, 2.0)])
        else:
            y0 = d.array((dim,), -2, 2, 8)
        d.nontrivial()
    if y0 is not None:
        kw["y0"] = y0.copy()
    prob = getattr(Z, name)(**kw)
    d.check(isinstance(prob, problems.InitialValueProblem), "type")
    d.check(prob.t0 == t0 and prob.tmax == tmax, "time span %s %s", prob.t0, prob.tmax)
    w0 = np.asarray(y0def if y0 is None else y0, dtype=float)
    d.check(np.shape(prob.y0) == (dim,) and close(prob.y0, w0, 1e-12 * (1 + np.max(np.abs(w0)))), "y0 %s != %s", prob.y0, w0)
    d.check(prob.dimension == dim, "dimension")
    if name == "seir":
        N = float(np.sum(w0))
        ref = lambda y, p: [-p[1] * y[0] * y[2] / N, p[1] * y[0] * y[2] / N - p[0] * y[1], p[0] * y[1] - p[2] * y[2], p[2] * y[2]]
    for _ in range(3):
        y = d.array((dim,), -2, 2, 16)
        t = d.dyadic(-4, 8, 2)
        if name == "threebody":
            mu = 0.012277471
            d.assume(min(math.hypot(y[0] + mu, y[1]), math.hypot(y[0] - 1 + mu, y[1])) > 0.3)
        yy = y.copy()
        got = prob.f(t, yy)
        d.check(isinstance(got, np.ndarray), "%s: the vector field returns a %s", name, type(got).__name__)
        got = np.asarray(got, dtype=float)
        want = np.array(ref(y, p), dtype=float)
        sc = 1 + np.max(np.abs(want))
        d.check(np.array_equal(yy, y), "vector field changed its input")
        d.check(got.shape == (dim,) and close(got, want, 1e-11 * sc), "%s: f(%s) = %s, documented %s", name, y, got, want)
        if prob.df is not None:
            J = np.asarray(prob.df(t, y.copy()), dtype=float)
            W = jacobian(lambda v: np.array(ref(v, p), dtype=float), y, dim)
            d.check(J.shape == (dim, dim) and close(J, W, 1e-6 * (1 + np.max(np.abs(W)))), "%s: Jacobian at %s: %s != %s", name, y, J, W)
        if prob.ddf is not None:
            H = np.asarray(prob.ddf(t, y.copy()), dtype=float)
            h = 1e-3
            W2 = (np.array(prob.df(t, y + h)) - np.array(prob.df(t, y - h))) / (2 * h)
            d.check(close(np.ravel(H), np.ravel(W2), 1e-6 * (1 + np.max(np.abs(W2)))), "second derivative %s != %s", H, W2)
    if prob.df is not None:
        d.label("jacobian")
    d.check((prob.df is not None) == (name not in ("threebody", "lorenz96")), "Jacobian availability")
    if name == "logistic":
        d.check(prob.solution is not None, "no solution")
    if prob.solution is not None:
        d.check(close(np.asarray(prob.solution(t0)), w0, 1e-10 * (1 + np.max(np.abs(w0)))), "solution at t0 is %s, not y0 %s", prob.solution(t0), w0)
        for _ in range(3):
            t = t0 + (tmax - t0) * d.dyadic(0, 16, 1) / 16.0
            a, b = p
            e = math.exp(-a * (t - t0))
            want = b / (1 + (b / w0[0] - 1) * e)
            got = np.asarray(prob.solution(t), dtype=float)
            d.check(close(got, [want], 1e-9 * (1 + abs(want))), "solution(%s) = %s, exact %s (t0=%s)", t, got, want, t0)
        d.label("solution")
    if name == "threebody" and par is None and y0 is None:
        pass


def ivp_invalid(d):
    n = d.int(1, 3)
    y = d.array((n,), -1, 1, 4)
    for kw in (dict(num_variables=n), dict(y0=y)):
        try:
            Z.lorenz96(**kw)
        except ValueError:
            continue
        d.fail("Lorenz96 with %s variables accepted" % n)
    p = Z.lorenz96(y0=d.array((d.int(4, 6),), -1, 1, 4), num_variables=d.int(0, 9))
    d.check(p.dimension == len(p.y0), "num_variables is ignored if y0 is given")
    d.nontrivial()


# ------------------------------------------------------------------ quadrature problems

def gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


X60, W60 = gl(60)


def pieces(breaks):
    """Composite Gauss rule on [0,1] with the given break points."""
    bs = [0.0] + sorted(b for b in set(breaks) if 0 < b < 1) + [1.0]
    xs, ws = [], []
    for a, b in zip(bs[:-1], bs[1:]):
        xs.append(a + (b - a) * X60)
        ws.append((b - a) * W60)
    return np.concatenate(xs), np.concatenate(ws)


def genz_ref(name, a, u):
    dim = len(a)
    if name == "genz_continuous":
        return lambda x: math.exp(-sum(a[i] * abs(x[i] - u[i]) for i in range(dim)))
    if name == "genz_cornerpeak":
        return lambda x: (1 + sum(a[i] * x[i] for i in range(dim))) ** (-(dim + 1.0))
    if name == "genz_discontinuous":
        return lambda x: 0.0 if any(x[i] > u[i] for i in range(dim)) else math.exp(sum(a[i] * x[i] for i in range(dim)))
    if name == "genz_gaussian":
        return lambda x: math.exp(-sum(a[i] ** 2 * (x[i] - u[i]) ** 2 for i in range(dim)))
    if name == "genz_oscillatory":
        return lambda x: math.cos(2 * math.pi * u[0] + sum(a[i] * x[i] for i in range(dim)))
    if name == "genz_productpeak":
        return lambda x: math.prod(1 / (a[i] ** -2.0 + (x[i] - u[i]) ** 2) for i in range(dim))
    if name == "bratley1992":
        return lambda x: sum((-1) ** i * math.prod(x[:i]) for i in range(1, dim + 1))
    if name == "roos_arnold":
        return lambda x: math.prod(abs(4 * v - 2) for v in x)
    if name == "gfunction":
        return lambda x: math.prod((abs(4 * v - 2) + (i - 2) / 2) / (1 + (i - 2) / 2) for i, v in enumerate(x, 1))
    if name == "morokoff_caflisch_1":
        return lambda x: (1 + 1 / dim) ** dim * math.prod(v ** (1 / dim) for v in x)
    return lambda x: math.prod(dim - v for v in x) / (dim - 0.5) ** dim


def exact(name, a, u):
    """Reference value of the integral over the unit cube."""
    dim = len(a)

    def prod1(f, brk):
        tot = 1.0
        for i in range(dim):
            x, w = pieces(brk(i))
            tot *= float(np.sum(w * f(i, x)))
        return tot

    if name == "genz_continuous":
        return prod1(lambda i, x: np.exp(-a[i] * np.abs(x - u[i])), lambda i: [u[i], 0.25, 0.5, 0.75])
    if name == "genz_gaussian":
        return prod1(lambda i, x: np.exp(-(a[i] * (x - u[i])) ** 2), lambda i: [u[i], 0.25, 0.5, 0.75])
    if name == "genz_productpeak":
        return prod1(lambda i, x: 1 / (a[i] ** -2.0 + (x - u[i]) ** 2), lambda i: [u[i], 0.25, 0.5, 0.75, (u[i] + 0.05) % 1, (u[i] - 0.05) % 1])
    if name == "genz_discontinuous":
        return prod1(lambda i, x: np.where(x > u[i], 0.0, np.exp(a[i] * x)), lambda i: [u[i]])
    if name == "genz_oscillatory":
        v = np.exp(2j * np.pi * u[0])
        for i in range(dim):
            x, w = pieces([0.5])
            v = v * np.sum(w * np.exp(1j * a[i] * x))
        return float(v.real)
    if name == "genz_cornerpeak":
        # (1+s)^-(d+1) = int_0^inf r^d e^{-r(1+s)} dr / d!
        def g(r):
            return r ** dim * np.exp(-r) * np.prod([-np.expm1(-r * a[i]) / (r * a[i]) for i in range(dim)], axis=0)
        tot, lo = 0.0, 0.0
        for hi in [0.1, 0.5, 1, 2, 4, 8, 16, 32, 64]:
            r = lo + (hi - lo) * X60
            tot += (hi - lo) * float(np.sum(W60 * g(r)))
            lo = hi
        return tot / math.factorial(dim)
    if name == "bratley1992":
        return sum((-0.5) ** i for i in range(1, dim + 1))
    return 1.0


GENZ = ["genz_continuous", "genz_cornerpeak", "genz_discontinuous", "genz_gaussian", "genz_oscillatory", "genz_productpeak"]
PLAIN = ["bratley1992", "roos_arnold", "gfunction", "morokoff_caflisch_1", "morokoff_caflisch_2"]


def gen_uniform(d, maxdim=5):
    genz = d.bool(3, 4)
    name = d.pick(GENZ if genz else PLAIN)
    dim = d.int(1, maxdim)
    kw = {}
    a, u = np.full(dim, 5.0), np.full(dim, 0.5)
    if genz:
        if d.bool(4, 5):
            hi = {"genz_cornerpeak": 3.0, "genz_oscillatory": 6.0, "genz_productpeak": 8.0}.get(name, 6.0)
            lo = 1.0 if name == "genz_oscillatory" else 0.5
            a = np.array([posf(d, lo, hi) for _ in range(dim)])
            kw["a"] = a.copy()
            d.nontrivial()
        if d.bool(4, 5):
            u = np.array([d.weighted([(1, 0.0), (1, 1.0), (6, d.int(1, 15) / 16.0)]) for _ in range(dim)])
            kw["u"] = u.copy()
            d.nontrivial()
    else:
        d.nontrivial()
    d.label(name)
    return name, dim, a, u, kw


def box_points(d, dim, n):
    x = np.array([[d.weighted([(1, 0.0), (1, 1.0), (1, 0.5), (7, d.int(0, 64) / 64.0)]) for _ in range(dim)] for _ in range(n)])
    return x.reshape(n, dim)


def uniform(d):
    name, dim, a, u, kw = gen_uniform(d)
    prob = getattr(QZ, name)(dim, **kw)
    d.check(isinstance(prob, problems.QuadratureProblem), "type")
    lo, hi = prob.measure.domain
    d.check(prob.measure.input_dim == dim and np.all(np.asarray(lo) == 0) and np.all(np.asarray(hi) == 1) and np.shape(lo) == (dim,), "domain")
    n = d.int(1, 5)
    x = box_points(d, dim, n)
    if kw.get("u") is not None and d.bool(1, 2):
        x[0] = u
        d.label("at-u")
    f = genz_ref(name, a, u)
    want = np.array([f(list(r)) for r in x])
    xx = x.copy()
    got = np.asarray(prob.fun(xx))
    d.check(got.shape == (n, 1), "shape of the values: %s", got.shape)
    d.check(np.array_equal(x, xx), "integrand changed its input")
    d.check(close(got[:, 0], want, 1e-10 * (1 + np.max(np.abs(want)))), "%s at %s: %s != %s", name, x, got[:, 0], want)
    sol = prob.solution
    d.check(np.ndim(sol) == 0, "solution is not a scalar: %s", sol)
    ex = exact(name, a, u)
    tol = 1e-9 * (1 + abs(ex))
    if name in ("genz_oscillatory", "genz_cornerpeak"):
        tol += 1e-13 * 2 ** dim * 10 / float(np.prod(a))
    d.check(abs(float(sol) - ex) <= tol, "%s(dim=%s, a=%s, u=%s): solution %s, integral %s", name, dim, a, u, float(sol), ex)
    # invalid points
    bad = x.copy()
    bad[d.int(0, n - 1), d.int(0, dim - 1)] = d.pick([-0.25, 1.25, -1e-6, 1 + 1e-6])
    for b in (bad, np.hstack([x, x[:, :1]])):
        try:
            prob.fun(b)
        except ValueError:
            continue
        d.fail("%s evaluated outside the unit cube" % name)
    if name in GENZ:
        w = d.pick(["a", "u", "range"])
        k = dict(a=a.copy(), u=u.copy())
        if w == "range":
            k["u"][d.int(0, dim - 1)] = d.pick([-0.5, 1.5, 1 + 1e-9, -1e-9])
        else:
            k[w] = np.append(k[w], 0.5) if d.bool() else k[w].reshape(1, -1)
        try:
            getattr(QZ, name)(dim, **k)
        except ValueError:
            return
        d.fail("%s accepted invalid %s" % (name, w))


def norm_cdf(v):
    return 0.5 * math.erfc(-v / math.sqrt(2))


def transformed(d):
    name, dim, a, u, kw = gen_uniform(d, 3)
    base = getattr(QZ, name)(dim, **kw)

    def par(lo, pos):
        k = d.weighted([(1, "default"), (2, "scalar"), (2, "array"), (1, "int")])
        if k == "default":
            return None
        if k == "int":
            return d.int(1, 3)
        g = (lambda: posf(d, 0.25, 4.0)) if pos else (lambda: d.dyadic(-3, 3, 3))
        return np.array([g() for _ in range(dim)]) if k == "array" else float(g())

    m, s = par(-2, False), par(0, True)
    args = {}
    if m is not None:
        args["mean"] = m
    if s is not None:
        args["std"] = s
    prob = QZ.uniform_to_gaussian_quadprob(base, **args)
    mm = np.broadcast_to(0.0 if m is None else m, (dim,)).astype(float)
    ss = np.broadcast_to(1.0 if s is None else s, (dim,)).astype(float)
    d.check(prob.measure.input_dim == dim, "dimension")
    d.check(close(prob.measure.mean, mm, 1e-12) and close(prob.measure.cov, np.diag(ss ** 2), 1e-10), "measure N(%s, %s) for mean %s std %s", prob.measure.mean, prob.measure.cov, m, s)
    d.check(abs(float(prob.solution) - float(base.solution)) <= 1e-12 * (1 + abs(float(base.solution))), "solution changed")
    n = d.int(1, 4)
    x = np.array([[mm[i] + ss[i] * d.dyadic(-3, 3, 3) for i in range(dim)] for _ in range(n)])
    z = np.array([[norm_cdf((x[k, i] - mm[i]) / ss[i]) for i in range(dim)] for k in range(n)])
    f = genz_ref(name, a, u)
    if name == "genz_discontinuous":
        d.assume(np.min(np.abs(z - u)) > 1e-9)
    want = np.array([f(list(r)) for r in z])
    got = np.asarray(prob.fun(x.copy()))
    d.check(got.shape == (n, 1) and close(got[:, 0], want, 1e-9 * (1 + np.max(np.abs(want)))), "h(%s) = %s, f(Phi) = %s", x, got, want)
    d.nontrivial()


def transformed_invalid(d):
    dim = d.int(1, 3)
    p = QZ.genz_continuous(dim)
    from probnum.quad.integration_measures import LebesgueMeasure
    lo, hi = np.zeros(dim), np.ones(dim)
    (lo if d.bool() else hi)[d.int(0, dim - 1)] = d.pick([0.25, 0.5])
    p.measure = LebesgueMeasure(domain=(lo, hi), input_dim=dim)
    try:
        QZ.uniform_to_gaussian_quadprob(p)
    except ValueError:
        d.nontrivial()
        return
    d.fail("transformation accepted the domain %s %s" % (lo, hi))


def moment(k, v):
    return 0.0 if k % 2 else v ** (k // 2) * float(math.prod(range(k - 1, 0, -2)))


def polynomials(d):
    dim = d.int(1, 4)
    kw = {}
    p = d.int(1, 3)
    a, b = np.ones((1, dim)), np.ones((1, dim), dtype=int)
    if d.bool(4, 5):
        a = d.array((p, dim), -2, 2, 4)
        kw["a"] = a.copy()
    if d.bool(6, 7):
        b = np.array([[d.weighted([(3, 2 * d.int(0, 3)), (1, d.int(0, 5))]) for _ in range(dim)] for _ in range(p)])
        kw["b"] = b.copy()
        d.nontrivial()
    k = d.weighted([(1, "default"), (3, "float"), (1, "int"), (1, "npfloat"), (2, "matrix")])
    v = np.ones(dim)
    if k == "matrix":
        v = np.array([posf(d, 0.25, 4.0) for _ in range(dim)])
        kw["var"] = np.diag(v)
    elif k != "default":
        s = d.int(1, 3) if k == "int" else posf(d, 0.25, 4.0)
        v = np.full(dim, float(s))
        kw["var"] = np.float64(s) if k == "npfloat" else s
    d.label("var:" + k)
    prob = QZ.sum_polynomials(dim, **kw)
    A, B = np.broadcast_arrays(a, b)
    n = d.int(1, 4)
    x = d.array((n, dim), -3, 3, 8)
    want = np.array([sum(math.prod(A[j, i] * x[r, i] ** int(B[j, i]) for i in range(dim)) for j in range(len(A))) for r in range(n)])
    got = np.asarray(prob.fun(x.copy()))
    d.check(got.shape == (n, 1) and close(got[:, 0], want, 1e-10 * (1 + np.max(np.abs(want)))), "f(%s) = %s != %s", x, got, want)
    d.check(close(prob.measure.mean, np.zeros(dim), 1e-12) and close(prob.measure.cov, np.diag(v), 1e-10), "measure cov %s, var %s", prob.measure.cov, v)
    terms = [math.prod(A[j, i] * moment(int(B[j, i]), v[i]) for i in range(dim)) for j in range(len(A))]
    d.check(abs(float(prob.solution) - sum(terms)) <= 1e-9 * (1 + sum(map(abs, terms))), "solution %s, exact %s (a=%s b=%s var=%s)", float(prob.solution), sum(terms), A, B, v)
    bad = dict(kw)
    w = d.pick(["a-dim", "b-dim", "a-shape", "neg"])
    if w == "a-dim":
        bad["a"] = np.ones((1, dim + 1))
    elif w == "b-dim":
        bad["b"] = np.ones((1, dim + 1), dtype=int)
    elif w == "a-shape":
        bad["a"] = np.ones(dim)
    else:
        bad["b"] = np.full((1, dim), -2)
    try:
        QZ.sum_polynomials(dim, **bad)
    except ValueError:
        return
    d.fail("invalid parameters accepted: " + w)


def box6(f, dim):
    """Integral of f over [-3,3]^dim by a composite Gauss rule."""
    xs, ws = [], []
    m = 12
    x, w = gl(20)
    for k in range(m):
        lo = -3 + 6 * k / m
        xs.append(lo + 6 / m * x)
        ws.append(6 / m * w)
    x, w = np.concatenate(xs), np.concatenate(ws)
    if dim == 1:
        return float(np.sum(w * f(x[:, None]))), x
    P = np.array(np.meshgrid(x, x, indexing="ij")).reshape(2, -1).T
    return float(np.sum(np.outer(w, w).ravel() * f(P))), x


def emukit(d):
    name = d.pick(["hennig1d", "hennig2d", "sombrero2d", "circulargaussian2d"])
    kw = {}
    c, w, m, v = np.array([[1, 0.5], [0.5, 1]]), 1.0, 0.0, 1.0
    if name == "hennig2d" and d.bool(3, 4):
        B = d.array((2, 2), -1, 1, 4)
        c = B @ B.T + 0.25 * np.eye(2)
        kw["c"] = c.copy()
    if name == "sombrero2d" and d.bool(3, 4):
        w = d.pick([posf(d, 0.25, 4.0), d.int(1, 3)])
        kw["w"] = w
    if name == "circulargaussian2d":
        if d.bool(2, 3):
            m = d.pick([0, posf(d, 0.25, 3.0), d.int(0, 3)])
            kw["m"] = m
        if d.bool(2, 3):
            v = d.pick([posf(d, 0.25, 3.0), d.int(1, 3)])
            kw["v"] = v
    d.label(name + ("*" if kw else ""))
    prob = getattr(QZ, name)(**kw)
    dim = 1 if name == "hennig1d" else 2
    lo, hi = prob.measure.domain
    d.check(prob.measure.input_dim == dim and np.all(np.asarray(lo) == -3) and np.all(np.asarray(hi) == 3), "domain")
    n = d.int(1, 5)
    x = d.array((n, dim), -3, 3, 16)
    if d.bool(1, 3):
        x[0] = 0.0
    r = np.sqrt(np.sum(x * x, axis=1))
    if name == "hennig1d":
        want = np.exp(-x[:, 0] ** 2 - np.sin(3 * x[:, 0]) ** 2)
    elif name == "hennig2d":
        want = np.array([math.exp(-float(z @ c @ z) - math.sin(3 * float(z @ z))) for z in x])
    elif name == "sombrero2d":
        want = np.sinc(r * w)
    else:
        want = (2 * np.pi * v) ** -0.5 * r ** 2 * np.exp(-(r - m) ** 2 / (2 * v))
    with np.errstate(all="ignore"):
        got = np.asarray(prob.fun(x.copy()))
    d.check(got.shape == (n,) and close(got, want, 1e-10 * (1 + np.max(np.abs(want)))), "%s(%s) at %s: %s != %s", name, kw, x, got, want)
    if prob.solution is not None:
        with np.errstate(all="ignore"):
            I, _ = box6(prob.fun, dim)
        d.check(abs(I - float(prob.solution)) <= 2e-6 * (1 + abs(I)), "%s(%s): solution %s, integral %s", name, kw, prob.solution, I)
        d.label("solution")
    else:
        d.check(bool(kw), "no solution for the default parameters")
    d.nontrivial()
    bad = {"hennig2d": [dict(c=np.eye(3)), dict(c=np.diag([1.0, -1.0]))],
           "sombrero2d": [dict(w=0.0), dict(w=-posf(d, 0.25, 2))],
           "circulargaussian2d": [dict(m=-posf(d, 0.25, 2)), dict(v=0.0), dict(v=-posf(d, 0.25, 2))]}.get(name, [])
    for k in bad:
        try:
            getattr(QZ, name)(**k)
        except ValueError:
            continue
        d.fail("%s accepted %s" % (name, k))


# ------------------------------------------------------------------ linear algebra

def spd(d):
    n = d.size(1, 7, 25)
    seed = d.seed()
    spec = None
    if d.bool(3, 4):
        spec = np.array([posf(d, 0.01, 50.0) for _ in range(n)])
        if d.bool(1, 4):
            spec[:] = spec[0]
        d.nontrivial()
    arg = None if spec is None else d.pick([spec, list(spec), tuple(spec)])
    A = LZ.random_spd_matrix(np.random.default_rng(seed), d.pick([n, np.int64(n)]), arg) if spec is not None else \
        LZ.random_spd_matrix(np.random.default_rng(seed), n)
    d.check(np.shape(A) == (n, n) and np.array_equal(A, A.T), "not symmetric")
    ev = np.linalg.eigvalsh(A)
    d.check(np.all(ev > 0), "not positive definite: %s", ev)
    if spec is not None:
        d.check(close(ev, np.sort(spec), 1e-10 * np.max(spec)), "spectrum %s != %s", ev, np.sort(spec))
    B = LZ.random_spd_matrix(np.random.default_rng(seed), n, arg)
    d.check(np.array_equal(A, B), "not reproducible")
    if n > 1 and (spec is None or np.ptp(spec) > 0):
        C = LZ.random_spd_matrix(np.random.default_rng(seed + 1), n, arg)
        d.check(not np.array_equal(A, C), "does not use the generator")
    if spec is not None:
        bad = spec.copy()
        bad[d.int(0, n - 1)] = d.pick([0.0, -1.0])
        try:
            LZ.random_spd_matrix(np.random.default_rng(seed), n, bad)
        except ValueError:
            return
        d.fail("non-positive spectrum accepted")


def sparse_spd(d):
    n = d.size(1, 12, 40)
    dens = d.weighted([(1, 0.0), (1, 1.0), (4, d.int(1, 19) / 20.0)])
    lo = posf(d, 0.05, 1.0)
    hi = lo + posf(d, 0.05, 1.0)
    kw = {}
    if d.bool():
        kw = dict(chol_entry_min=lo, chol_entry_max=hi)
    else:
        lo, hi = 0.1, 1.0
    fmt = d.pick([None, "csr", "csc", "coo", "dok", "lil"])
    if fmt:
        kw["format"] = fmt
    seed = d.seed()
    S = LZ.random_sparse_spd_matrix(np.random.default_rng(seed), n, dens, **kw)
    d.check(scipy.sparse.issparse(S) and S.format == (fmt or "csr"), "format %s", S.format)
    A = S.toarray()
    d.check(A.shape == (n, n) and np.allclose(A, A.T, atol=1e-14), "not symmetric")
    L = np.linalg.cholesky(A)   # raises if not positive definite
    d.check(close(np.diag(L), np.ones(n), 1e-8), "diagonal of the Cholesky factor: %s", np.diag(L))
    off = L[np.tril_indices(n, -1)]
    nz = off[np.abs(off) > 1e-8]
    d.check(len(nz) == 0 or (np.min(nz) >= lo - 1e-8 and np.max(nz) <= hi + 1e-8), "off-diagonal entries %s outside [%s, %s]", nz, lo, hi)
    if dens == 1.0:
        d.check(len(nz) == len(off), "density one is not dense")
    if dens == 0.0:
        d.check(len(nz) == 0, "density zero has entries")
    d.check(len(nz) <= round(dens * n * n), "%s off-diagonal entries at density %s", len(nz), dens)
    T = LZ.random_sparse_spd_matrix(np.random.default_rng(seed), n, dens, **kw)
    d.check(np.array_equal(T.toarray(), A), "not reproducible")
    if n > 2:
        d.nontrivial()
    try:
        LZ.random_sparse_spd_matrix(np.random.default_rng(0), n, d.pick([-0.1, 1.1]))
    except ValueError:
        return
    d.fail("invalid density accepted")


def linsys(d):
    m, n = d.int(1, 5), d.int(1, 5)
    kind = d.pick(["array", "sparse", "linop", "callable", "callable-kw"])
    d.label("linsys:" + kind)
    A = d.array((m, n), -3, 3, 4)
    arg = {"array": A, "sparse": scipy.sparse.csr_matrix(A), "linop": linops.Matrix(A)}.get(kind)
    kw = {}
    seen = []
    if kind == "callable":
        n = m
        arg = LZ.random_spd_matrix
        kw = dict(dim=n)
    elif kind == "callable-kw":
        def arg(rng, rows, cols):
            seen.append((rows, cols))
            return rng.standard_normal((rows, cols))
        kw = dict(rows=m, cols=n)
    rv = None
    if d.bool():
        mu = d.array((n,), -3, 3, 4)
        kindrv = d.pick(["const", "normal"])
        rv = randvars.Constant(mu) if kindrv == "const" else randvars.Normal(mu, np.diag([posf(d, 0.1, 2) for _ in range(n)]))
        kw["solution_rv"] = rv
    seed = d.seed()
    S = LZ.random_linear_system(np.random.default_rng(seed), arg, **kw)
    M = S.A.toarray() if scipy.sparse.issparse(S.A) else dense(S.A)
    d.check(M.shape == (m, n), "shape %s", M.shape)
    if kind in ("array", "sparse", "linop"):
        d.check(S.A is arg and close(M, A, 0.0), "matrix was replaced")
    if seen:
        d.check(seen == [(m, n)], "keyword arguments: %s", seen)
    d.check(np.shape(S.solution) == (n,) and np.shape(S.b) == (m,), "shapes %s %s", np.shape(S.solution), np.shape(S.b))
    d.check(close(M @ S.solution, S.b, 1e-11 * (1 + np.max(np.abs(M)) * np.max(np.abs(S.solution)) * n)), "A x = %s, b = %s", M @ S.solution, S.b)
    if isinstance(rv, randvars.Constant):
        d.check(np.array_equal(S.solution, mu), "solution is not drawn from solution_rv")
    T = LZ.random_linear_system(np.random.default_rng(seed), arg, **kw)
    d.check(np.array_equal(T.solution, S.solution) and np.array_equal(T.b, S.b), "not reproducible")
    if rv is None:
        # iid standard normal components
        k = LZ.random_linear_system(np.random.default_rng(seed), np.zeros((1, 400))).solution
        d.check(abs(np.mean(k)) < 0.35 and 0.6 < np.std(k) < 1.4, "solution not standard normal: mean %s std %s", np.mean(k), np.std(k))
    else:
        try:
            LZ.random_linear_system(np.random.default_rng(seed), np.zeros((m, n + 1)), solution_rv=rv)
        except ValueError:
            pass
        else:
            d.fail("solution_rv of the wrong shape accepted")
    d.nontrivial()


# ------------------------------------------------------------------ state space models

def grid_check(d, prob, locs):
    d.check(isinstance(prob, problems.TimeSeriesRegressionProblem), "type")
    d.check(np.shape(prob.locations) == np.shape(locs) and close(prob.locations, locs, 1e-12 * (1 + np.max(np.abs(locs)))), "locations %s != %s", prob.locations, locs)
    d.check(len(prob.observations) == len(locs) == len(prob.measurement_models), "lengths")


def noise_check(d, mm, x, t, cov, mean):
    out, _ = mm.forward_realization(x, t=t)
    d.check(close(out.mean, mean, 1e-9 * (1 + np.max(np.abs(mean)))), "mean %s != %s", out.mean, mean)
    d.check(close(covmat(out), cov, 1e-9 * (1 + np.max(np.abs(cov)))), "cov %s != %s", covmat(out), cov)


def iwp(q, h):
    A = np.array([[h ** (j - i) / math.factorial(j - i) if j >= i else 0.0 for j in range(q + 1)] for i in range(q + 1)])
    Q = np.array([[h ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * math.factorial(q - i) * math.factorial(q - j)) for j in range(q + 1)] for i in range(q + 1)])
    return A, Q


def same_data(d, make):
    a, b = make(), make()
    d.check(np.array_equal(np.asarray(a[0].observations), np.asarray(b[0].observations)) and
            np.array_equal(np.asarray(a[0].solution), np.asarray(b[0].solution)), "not reproducible for the same generator")
    return a


def ssm_linear(d):
    which = d.pick(["car", "ou"])
    d.label("ssm:" + which)
    seed = d.seed()
    kw = {}
    R = posf(d, 0.05, 3.0)
    diff = posf(d, 0.1, 3.0)
    kw["measurement_variance"] = R
    if d.bool(3, 4):
        kw["process_diffusion"] = diff
        d.nontrivial()
    else:
        diff = 1.0 if which == "car" else 0.5
    impl = d.pick([{}, dict(forward_implementation="sqrt", backward_implementation="sqrt")])
    kw.update(impl)
    t0 = d.dyadic(-4, 4, 2)
    if which == "car":
        q = d.int(1, 3)
        h = d.pick([0.25, 0.5, 0.125])
        n = d.int(2, 6)
        kw.update(num_prior_derivatives=q, timespan=(t0, t0 + n * h), step=h)
        prob, info = same_data(d, lambda: FZ.car_tracking(np.random.default_rng(seed), **kw))
        locs = t0 + h * np.arange(n)
        dimx = 2 * (q + 1)
        A1, Q1 = iwp(q, h)
        A, Q = np.kron(np.eye(2), A1), np.kron(np.eye(2), Q1)
        H = np.kron(np.eye(2), np.eye(1, q + 1))
        m0, P0 = np.zeros(dimx), R * np.eye(dimx)
        dts = [h]
    else:
        lam = posf(d, 0.05, 2.0)
        locs = t0 + np.cumsum([0.0] + [d.pick([0.25, 0.5, 1.0]) for _ in range(d.int(1, 5))])
        kw.update(driftspeed=lam, time_grid=locs.copy())
        prob, info = same_data(d, lambda: FZ.ornstein_uhlenbeck(np.random.default_rng(seed), **kw))
        dimx = 1
        H = np.eye(1)
        m0, P0 = np.array([10.0]), np.eye(1)
    grid_check(d, prob, locs)
    p = info["prior_process"]
    d.check(p.initarg == locs[0], "initarg %s", p.initarg)
    d.check(close(p.initrv.mean, m0, 1e-12) and close(covmat(p.initrv), P0, 1e-12 * (1 + R)), "initial distribution")
    x = d.array((dimx,), -2, 2, 4)
    noise_check(d, prob.measurement_models[d.int(0, len(locs) - 1)], x, locs[0], R * np.eye(len(H)), H @ x)
    if which == "car":
        noise_check(d, p.transition, x, locs[0], diff ** 2 * Q, A @ x)
    else:
        h = posf(d, 0.05, 1.0)
        out, _ = p.transition.forward_realization(x, t=t0, dt=h)
        d.check(close(out.mean, np.exp(-lam * h) * x, 1e-8 * 3), "OU mean %s", out.mean)
        w = diff ** 2 * (1 - math.exp(-2 * lam * h)) / (2 * lam)
        d.check(close(covmat(out), [[w]], 1e-8 * (1 + w)), "OU variance %s != %s (process_diffusion=%s)", covmat(out), w, diff)
    d.check(np.shape(prob.observations) == (len(locs), len(H)) and np.shape(prob.solution) == (len(locs), dimx), "data shapes")
    # the data belong to the solution: the residual is measurement noise
    r = (np.asarray(prob.observations) - np.asarray(prob.solution) @ H.T) / math.sqrt(R)
    d.check(np.max(np.abs(r)) < 8.0, "observations are not measurements of the solution: standardised residuals %s", r)


def ssm_nonlinear(d):
    which = d.pick(["pendulum", "benes"])
    d.label("ssm:" + which)
    seed = d.seed()
    R = posf(d, 0.05, 3.0)
    t0 = d.dyadic(-4, 4, 2)
    if which == "pendulum":
        h = d.pick([0.0625, 0.125, 0.0078125])
        n = d.int(2, 6)
        prob, info = same_data(d, lambda: FZ.pendulum(np.random.default_rng(seed), measurement_variance=R, timespan=(t0, t0 + n * h), step=h))
        locs = t0 + h * np.arange(n)
        grid_check(d, prob, locs)
        p = info["prior_process"]
        d.check(p.initarg == locs[0] and close(p.initrv.mean, np.ones(2), 1e-12) and close(covmat(p.initrv), R * np.eye(2), 1e-12 * (1 + R)), "initial distribution")
        g = 9.81
        f = lambda x: np.array([x[0] + x[1] * h, x[1] - g * np.sin(x[0]) * h])
        hh = lambda x: np.array([np.sin(x[0])])
        Q = np.array([[h ** 3 / 3, h * h / 2], [h * h / 2, h]])
        for _ in range(2):
            x = d.array((2,), -3, 3, 8)
            tr, mm = p.transition, prob.measurement_models[0]
            noise_check(d, tr, x, t0, Q, f(x))
            noise_check(d, mm, x, t0, R * np.eye(1), hh(x))
            for model, fn, m in ((tr, f, 2), (mm, hh, 1)):
                J = np.asarray(model.transition_fun_jacobian(t0, x))
                d.check(J.shape == (m, 2) and close(J, jacobian(fn, x, m), 1e-6 * 5), "Jacobian %s", J)
        S = np.asarray(prob.solution)
        r = (np.asarray(prob.observations)[:, 0] - np.sin(S[:, 0])) / math.sqrt(R)
        d.check(np.shape(prob.observations) == (n, 1) and S.shape == (n, 2), "data shapes")
        d.check(np.max(np.abs(r)) < 8.0, "standardised residuals %s", r)
    else:
        diff = posf(d, 0.1, 2.0)
        locs = t0 + np.cumsum([0.0] + [d.pick([0.25, 0.5]) for _ in range(d.int(1, 3))])
        prob, info = FZ.benes_daum(np.random.default_rng(seed), measurement_variance=R, process_diffusion=diff, time_grid=locs.copy())
        grid_check(d, prob, locs)
        p = info["prior_process"]
        d.check(p.initarg == locs[0] and close(p.initrv.mean, [0.0], 1e-12) and close(covmat(p.initrv), [[3.0]], 1e-12), "initial distribution")
        for _ in range(2):
            x = d.array((1,), -3, 3, 8)
            tr = p.transition
            d.check(close(tr.drift_function(t0, x), np.tanh(x), 1e-12), "drift")
            d.check(close(np.ravel(tr.drift_jacobian(t0, x)), 1 - np.tanh(x) ** 2, 1e-12), "drift Jacobian")
            d.check(close(np.reshape(tr.dispersion_function(t0, x), (1, 1)), [[diff]], 1e-12), "dispersion")
            noise_check(d, prob.measurement_models[0], x, t0, R * np.eye(1), x)
        r = (np.asarray(prob.observations) - np.asarray(prob.solution)) / math.sqrt(R)
        d.check(np.max(np.abs(r)) < 8.0, "standardised residuals %s", r)
    d.nontrivial()


def ssm_logistic(d):
    a, b = posf(d, 0.5, 6.0), posf(d, 0.5, 4.0)
    order = d.int(1, 4)
    y0 = None if d.bool(1, 4) else posf(d, 0.05, 2.0)
    h = d.pick([0.25, 0.125])
    n = d.int(2, 6)
    t0 = d.dyadic(-4, 4, 2)
    excl = d.bool()
    ek = d.int(0, 1)
    ev = None if d.bool() else posf(d, 0.01, 1.0)
    kw = dict(timespan=(t0, t0 + n * h), step=h, params=(a, b), order=order, ek0_or_ek1=ek, exclude_initial_condition=excl)
    if y0 is not None:
        kw["y0"] = d.pick([y0, np.array([y0])])
    if ev is not None:
        kw["evlvar"] = np.array([[ev]])
    prob, info = FZ.logistic_ode(**kw)
    y0 = 0.1 if y0 is None else y0
    locs = t0 + h * np.arange(n)
    grid_check(d, prob, locs)
    p, ivp = info["prior_process"], info["ivp"]
    d.check(ivp.t0 == t0 and close(ivp.y0, [y0], 1e-12), "ivp %s", ivp.y0)
    d.check(p.initarg == t0, "initarg")
    d.check(np.shape(p.initrv.mean) == (order + 1,) and abs(p.initrv.mean[0] - y0) <= 1e-12 and abs(covmat(p.initrv)[0, 0]) <= 1e-12, "prior does not start at y0: %s %s", p.initrv.mean, covmat(p.initrv))
    exact_ = lambda t: b / (1 + (b / y0 - 1) * math.exp(-a * (t - t0)))
    for t, s in zip(np.asarray(prob.locations), np.asarray(prob.solution)):
        d.check(abs(float(np.ravel(s)[0]) - exact_(t)) <= 1e-9 * (1 + exact_(t)), "solution at %s: %s != %s", t, s, exact_(t))
    # ODE likelihood: the residual of a state
    x = d.array((order + 1,), -2, 2, 8)
    if not excl:
        out, _ = prob.measurement_models[0].forward_realization(x, t=t0)
        d.check(close(np.ravel(out.mean), [x[0] - y0], 1e-12 * 4) and close(np.ravel(covmat(out)), [0.0 if ev is None else ev], 1e-9), "initial condition observes %s", out.mean)
        d.label("initial-condition")
    k = d.int(0 if excl else 1, n - 1)
    mm = prob.measurement_models[k]
    out, _ = mm.forward_realization(x, t=locs[k])
    f = a * x[0] * (1 - x[0] / b)
    J = a - 2 * a * x[0] / b
    d.check(close(np.ravel(out.mean), [x[1] - f], 1e-9 * (1 + abs(f) + abs(J) * 3)), "residual %s != %s", out.mean, x[1] - f)
    d.check(close(np.ravel(covmat(out)), [0.0 if ev is None else ev], 1e-9), "measurement variance %s", covmat(out))
    # EK0 linearises without, EK1 with the Jacobian of the vector field
    out, _ = mm.forward_rv(randvars.Normal(x, np.eye(order + 1)), t=locs[k])
    want = 1.0 + (J * J if ek else 0.0) + (0.0 if ev is None else ev)
    d.check(close(np.ravel(out.mean), [x[1] - f], 1e-9 * (1 + abs(f) + abs(J) * 3)), "linearised mean %s != %s", out.mean, x[1] - f)
    d.check(close(np.ravel(covmat(out)), [want], 1e-9 * (1 + want)), "linearised variance %s != %s", covmat(out), want)
    # integrated Wiener process of the given order
    out, _ = p.transition.forward_realization(x, t=t0, dt=h)
    want = [sum(x[j] * h ** (j - i) / math.factorial(j - i) for j in range(i, order + 1)) for i in range(order + 1)]
    d.check(close(out.mean, want, 1e-9), "prior dynamics: %s != %s", out.mean, want)
    d.check(abs(covmat(out)[-1, -1] - h) <= 1e-9, "prior diffusion: %s", covmat(out))
    d.nontrivial()


SUBS = [
    Sub("ivp", ivp, 700, 8000),
    Sub("ivp_invalid", ivp_invalid, 20, 200),
    Sub("uniform", uniform, 600, 8000),
    Sub("transformed", transformed, 250, 3000),
    Sub("transformed_invalid", transformed_invalid, 30, 300),
    Sub("polynomials", polynomials, 500, 6000),
    Sub("emukit", emukit, 200, 3000),
    Sub("spd", spd, 300, 4000),
    Sub("sparse_spd", sparse_spd, 300, 4000),
    Sub("linsys", linsys, 300, 4000),
    Sub("ssm_linear", ssm_linear, 150, 2000),
    Sub("ssm_nonlinear", ssm_nonlinear, 100, 1200),
    Sub("ssm_logistic", ssm_logistic, 150, 2000),
]
