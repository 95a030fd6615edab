"""C05 Views of random variables are marginals; densities, moments and masses agree."""
import math

import numpy as np
import scipy.linalg
import scipy.special

from probnum import linops, randvars
from pbt.runner import Sub
from . import c04
from . import liblinops as L
from . import librv as R

RULE = ("A case is a random variable and a sequence of views (indexing, reshape, transpose) "
        "or density/mass/quantile queries; non-trivial if a result was compared with the "
        "dense model.")


def gen_key(d, shape):
    """A numpy index for an array of this shape, and a readable form."""
    nd = len(shape)
    kind = d.pick(["basic", "basic", "single", "mask", "advanced", "advtuple", "ellipsis",
                   "newaxis"])

    def one(n):
        k = d.pick(["int", "slice", "neg", "full", "rev", "step"])
        if k == "int":
            return d.int(0, n - 1)
        if k == "neg":
            return -d.int(1, n)
        if k == "full":
            return slice(None)
        if k == "rev":
            return slice(None, None, -1)
        if k == "step":
            return slice(None, None, 2)
        a = d.int(0, n - 1)
        return slice(a, a + d.int(1, n - a))

    if kind == "single":
        return one(shape[0])
    if kind == "basic":
        m = d.int(1, nd)
        return tuple(one(shape[i]) for i in range(m))
    if kind == "mask":
        m = d.int_array(shape if d.bool() else shape[:1], 0, 1).astype(bool)
        if not m.any():
            m.flat[0] = True
        return m
    if kind == "advanced":
        k = d.int(1, 3)
        idx = np.array([d.int(-shape[0], shape[0] - 1) for _ in range(k)])
        return idx if d.bool() else idx.tolist()
    if kind == "advtuple":
        k = d.int(1, 3)
        return tuple(np.array([d.int(0, shape[i] - 1) for _ in range(k)])
                     if d.bool(2, 3) else one(shape[i]) for i in range(nd))
    if kind == "ellipsis":
        return (Ellipsis, one(shape[-1])) if d.bool() else (one(shape[0]), Ellipsis)
    r = [one(s) for s in shape]
    r.insert(d.int(0, nd), None)
    return tuple(r[: 2])


def reshape_opts(d, shape):
    n = int(np.prod(shape)) if shape else 1
    o = [(n,), (1, n), (n, 1), -1, n, (-1, 1)]
    for k in range(2, n):
        if n % k == 0:
            o.append((k, n // k))
    if n == 1:
        o += [(), (1, 1)]
    return o


def view(d, x):
    """Apply one random view to the RV model."""
    sh, n = x.shape, x.M.size
    idx = np.arange(n).reshape(sh)
    op = d.pick(["getitem", "getitem", "reshape", "transpose", "T"])
    d.label("view:" + op)
    if op == "getitem":
        if sh == ():
            key = d.pick([(), Ellipsis])
        else:
            key = gen_key(d, sh)
        j = idx[key]
        if j.ndim > 2 or j.size == 0:
            raise_assume(d)
        d.note("view", "[%r]" % (key,))
        rv = x.rv[key]
    elif op == "reshape":
        ns = d.pick(reshape_opts(d, sh))
        j = idx.reshape(ns)
        d.note("view", ".reshape(%r)" % (ns,))
        rv = x.rv.reshape(ns)
    elif op == "T":
        j = idx.T
        d.note("view", ".T")
        rv = x.rv.T
    else:
        axes = tuple(d.shuffled(range(len(sh))))
        if d.bool(1, 3):
            axes = tuple(a - len(sh) for a in axes)
        if d.bool(1, 4):
            axes = None
        j = idx.transpose(axes) if axes is not None else idx.T
        how = d.pick(["star", "tuple"]) if axes is not None else d.pick(["none", "empty"])
        d.note("view", ".transpose %s %s" % (axes, how))
        if how == "star":
            rv = x.rv.transpose(*axes)
        elif how == "tuple":
            rv = x.rv.transpose(axes)
        elif how == "none":
            rv = x.rv.transpose(None)
        else:
            rv = x.rv.transpose()
    f = j.reshape(-1)
    return R.RV(rv, x.M.reshape(-1)[f].reshape(j.shape), x.C[np.ix_(f, f)], x.scale, x.f32,
                x.desc, fac=False), j


def raise_assume(d):
    d.assume(False)


def normal_views(d):
    x = R.normal(d)
    d.note("start", x.desc)
    for _ in range(d.int(1, 3)):
        x, _ = view(d, x)
        R.check_rv(d, x, "view")
        if d.bool(1, 4) and x.scale < 1e4:
            x = c04.step(d, x)
            d.note("op", x.desc[-200:])
            R.check_rv(d, x, "arithmetic on a view")
    d.nontrivial()


def constant(d):
    """Constants: views, arithmetic, moments, pmf/cdf."""
    sh = R.pick_shape(d)
    dt = d.pick([np.float64, np.int64, np.float32])
    A = d.array(sh, -4, 4)
    A = (np.round(A) if dt == np.int64 else A).astype(dt)
    rv = randvars.Constant(A.copy() if sh else A[()])
    d.note("start", "Constant(%s, %s)" % (L.fmt(A), np.dtype(dt)))
    for _ in range(d.int(0, 3)):
        op = d.pick(["view", "neg", "abs", "pos", "add", "sub", "mul", "div", "pow"])
        d.note("op", op)
        if op == "view":
            x, j = view(d, R.RV(rv, np.asarray(A, float), np.zeros((A.size, A.size))))
            rv, A = x.rv, np.asarray(A).reshape(-1)[j.reshape(-1)].reshape(j.shape)
        elif op == "neg":
            rv, A = -rv, -A
        elif op == "abs":
            rv, A = abs(rv), abs(A)
        elif op == "pos":
            rv, A = +rv, +A
        elif op == "pow":
            rv, A = rv ** 2, A ** 2
        else:
            B = d.array(A.shape if d.bool() else (), 1, 4)
            B = B if A.shape or d.bool() else np.asarray(B)
            f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
                 "mul": lambda a, b: a * b, "div": lambda a, b: a / b}[op]
            if op == "div" or d.bool():
                rv, A = f(rv, B), f(A, B)
            else:
                rv, A = f(B, rv), f(B, A)
    A = np.asarray(A)
    tol = 1e-5 * max(1, np.max(np.abs(A)))
    d.check(rv.shape == A.shape, "shape %s, expected %s", rv.shape, A.shape)
    d.check(R.close(rv.support, A, tol), "support %s, expected %s", rv.support, A)
    A = np.asarray(rv.support)
    d.check(rv.dtype == A.dtype, "dtype %s, expected %s", rv.dtype, A.dtype)
    for name in ("mean", "mode"):
        d.check(R.close(getattr(rv, name), A, 0), "%s %s, expected %s", name,
                getattr(rv, name), A)
    if A.shape == ():
        d.check(rv.median == A, "median %s, expected %s", rv.median, A)
    n = A.size
    d.check(R.close(R.dense(rv.cov), np.zeros((n, n)) if A.ndim else 0.0, 0), "cov %s", rv.cov)
    d.check(R.close(rv.var, np.zeros(A.shape), 0), "var %s", rv.var)
    d.check(R.close(rv.std, np.zeros(A.shape), 0), "std %s", rv.std)
    i = d.choice(n - 1)
    for delta in (0, 1, -1):
        y = A.copy()
        y.flat[i] += delta
        y = y if A.ndim else y[()]
        d.check(rv.pmf(y) == (delta == 0), "pmf(%s) = %s", y, rv.pmf(y))
        d.check(rv.cdf(y) == (delta >= 0), "cdf(%s) = %s", y, rv.cdf(y))
        d.check(rv.in_support(y) is (delta == 0), "in_support(%s) = %s", y, rv.in_support(y))
        if delta == 0:
            d.check(rv.logpmf(y) == 0, "logpmf(%s) = %s", y, rv.logpmf(y))
            d.check(rv.logcdf(y) == 0, "logcdf(%s) = %s", y, rv.logcdf(y))
    s = rv.sample(np.random.default_rng(0), size=d.pick([(), 2, (2, 1), (0,)]))
    d.check(s.shape[s.ndim - A.ndim:] == A.shape and np.all(s == A), "sample %s", s)
    d.nontrivial()


def logphi(X, M, C):
    n = M.size
    Lc = np.linalg.cholesky(C)
    z = np.linalg.solve(Lc, (X.reshape(-1, n) - M.reshape(-1)).T)
    return -0.5 * np.sum(z * z, 0) - np.sum(np.log(np.diag(Lc))) - 0.5 * n * math.log(2 * math.pi)


def densities(d):
    """pdf, logpdf, cdf, logcdf, quantile, entropy, in_support of Normals."""
    x = R.normal(d)
    d.note("start", x.desc)
    rv, sh, n = x.rv, x.shape, x.M.size
    ev = np.linalg.eigvalsh(x.C)
    d.assume(ev[0] > 1e-3 * ev[-1])
    tol = 1e-3 if x.f32 else 1e-6
    batch = d.pick([(), (2,), (1,), (2, 3), (3, 1)])
    L_ = np.linalg.cholesky(x.C)
    Z = d.array(batch + (n,), -2, 2)
    if d.bool(1, 4):
        Z = Z * d.pick([5, 25])
        d.label("tail")
    X = (Z @ L_.T).reshape(batch + sh) + x.M
    if batch == () and sh == () and d.bool():
        X = float(X)
    elif len(sh) == 2 and batch == () and d.bool(1, 3):
        X = linops.Matrix(np.asarray(X))
        d.label("operator argument")
    d.note("x", L.fmt(R.dense(X)))
    Xd = R.dense(X)
    ref = logphi(Xd, x.M, x.C).reshape(batch)
    lp = np.asarray(rv.logpdf(X))
    d.check(R.close(lp, ref, tol * (1 + np.abs(ref))), "logpdf %s, expected %s", lp, ref)
    p = np.asarray(rv.pdf(X))
    d.check(R.close(p, np.exp(ref), tol * np.exp(ref) * 10 + 1e-300), "pdf %s, expected %s", p,
            np.exp(ref))
    H = 0.5 * n * (1 + math.log(2 * math.pi)) + np.sum(np.log(np.diag(L_)))
    d.check(R.close(rv.entropy, H, tol * (1 + abs(H))), "entropy %s, expected %s", rv.entropy, H)
    d.check(batch != () or rv.in_support(X) is True, "in_support(%s) is not True", X)
    bad = np.array(Xd, dtype=float)
    bad.flat[d.choice(bad.size - 1)] = d.pick([np.nan, np.inf, -np.inf])
    bad = bad if bad.ndim else bad[()]
    if batch == ():
        d.check(rv.in_support(bad) is False, "in_support(%s) = %r", bad, rv.in_support(bad))
    diag = np.diag(np.diag(x.C))
    if np.array_equal(diag, x.C):
        z = (Xd.reshape(batch + (n,)) - x.M.reshape(-1)) / np.sqrt(np.diag(x.C))
        cd = np.prod(scipy.special.ndtr(z), axis=-1)
        got = np.asarray(rv.cdf(X))
        ctol = (1e-4 if n > 1 else tol)
        d.check(R.close(got, cd, ctol), "cdf %s, expected %s", got, cd)
        got = np.asarray(rv.logcdf(X))
        d.check(np.all(np.abs(np.exp(got) - cd) <= ctol), "logcdf %s, expected %s", got,
                np.log(cd))
        if sh == ():
            e = scipy.special.log_ndtr(z[..., 0])
            d.check(np.all(np.abs(got - e) <= 10 * tol * (1 + np.abs(e))),
                    "logcdf %s, expected %s", got, e)
        d.label("cdf")
    if sh == ():
        for q in (0.5, d.pick([1e-9, 1e-4, 0.01, 0.1, 0.3, 0.9, 0.975, 0.9999])):
            v = rv.quantile(q)
            e = float(x.M) + math.sqrt(x.C[0, 0]) * scipy.special.ndtri(q)
            d.check(R.close(v, e, tol * (1 + abs(e))), "quantile(%s) = %s, expected %s", q, v, e)
            d.check(abs(rv.cdf(v) - q) <= tol, "cdf(quantile(%s)) = %s", q, rv.cdf(v))
        d.check(R.close(rv.median, x.M, tol * x.scale), "median %s", rv.median)
    d.nontrivial()


def construct(d):
    """Normals from every accepted kind of argument: the parameters come back in the promoted
    floating dtype, factors are used as given, damping enters the factor as documented and
    arguments that do not fit together are refused."""
    sh = R.pick_shape(d)
    n = int(np.prod(sh)) if sh else 1
    dts = [np.float64, np.float64, np.float32, np.int64, np.int32]
    dm, dc = np.dtype(d.pick(dts)), np.dtype(d.pick(dts))
    M = d.array(sh, -4, 4)
    M = (np.round(M) if dm.kind == "i" else M).astype(dm)
    T = np.tril(np.round(d.array((n, n), -2, 2)), -1) + np.diag(d.int_array((n,), 1, 3))
    C = (T @ T.T).astype(dc)
    dtype = np.promote_types(dm, dc)
    dtype = dtype if dtype.kind == "f" else np.dtype(np.float64)
    kind = "scalar" if sh == () else d.pick(["dense", "dense", "fortran", "operator"])
    dl = np.dtype(d.pick([np.int64, np.float32, dtype, dtype]))
    if not np.can_cast(dl, dtype, "safe"):
        dl = dtype
    if kind == "scalar":
        mean = M[()] if d.bool() else float(M) if dm.kind == "f" else int(M)
        cov, fac = C[0, 0], T.astype(dl)[0, 0]
        dtype = np.promote_types(np.asarray(mean).dtype, dc)
        dtype = dtype if dtype.kind == "f" else np.dtype(np.float64)
        if not np.can_cast(dl, dtype, "safe"):
            fac = dtype.type(fac)
    elif kind == "operator":
        mean, cov, fac = M, linops.Matrix(C), linops.Matrix(T.astype(dl))
        if len(sh) == 2 and d.bool():
            mean = linops.Matrix(np.asfortranarray(M) if d.bool() else M)
    else:
        f = np.asfortranarray if kind == "fortran" else np.array
        mean, cov, fac = f(M), f(C), f(T.astype(dl))
    given = d.bool()
    d.note("normal", "%s %s mean %s cov %s factor %s" % (kind, sh, dm, dc, dl if given else None))
    rv = randvars.Normal(mean, cov, fac) if given else randvars.Normal(mean, cov)
    d.check(rv.dtype == dtype, "dtype %s, expected %s", rv.dtype, dtype)
    d.check(rv.shape == sh, "shape %s, expected %s", rv.shape, sh)
    for name, want in (("mean", M), ("cov", C if sh else C[0, 0]), ("var", np.diag(C).reshape(sh)), ("mode", M)):
        got = R.dense(getattr(rv, name))
        dt = dtype if name == "mode" else np.dtype(float)
        d.check(R.close(got, want, 0) and got.dtype == dt, "%s %s (%s), expected %s (%s)", name, got, got.dtype, want, dt)
    d.check(rv.cov_cholesky_is_precomputed is given, "cov_cholesky_is_precomputed is %s", rv.cov_cholesky_is_precomputed)
    x = R.RV(rv, M.astype(float), C.astype(float), f32=dtype == np.float32, desc="", fac=False)
    if sh and d.bool():
        y, _ = view(d, x)
        R.check_rv(d, y, "view")
    eps = 1e-3 if dtype == np.float32 else 1e-10
    scale = 1 + np.max(np.abs(C))
    delta = 0.0
    if given:
        try:
            rv.precompute_cov_cholesky()
        except Exception:
            pass
        else:
            d.fail("a given factor was recomputed")
    else:
        delta = d.pick([None, 0.0, 0.5, 2.0])
        how = d.pick(["precompute", "dense"]) if sh else "precompute"
        if how == "dense":
            Lc = rv.dense_cov_cholesky(damping_factor=delta) if delta is not None else rv.dense_cov_cholesky()
            d.check(not rv.cov_cholesky_is_precomputed, "dense_cov_cholesky cached its factor")
        else:
            rv.precompute_cov_cholesky(delta) if delta is not None else rv.precompute_cov_cholesky()
            d.check(rv.cov_cholesky_is_precomputed is True, "factor not precomputed")
            Lc = rv.cov_cholesky
        d.note("damping", delta)
        Lc = R.dense(Lc).reshape(n, n).astype(float)
        D = C + (1e-12 if delta is None else delta) * np.eye(n)
        d.check(R.close(Lc @ Lc.T, D, eps * scale), "factor with damping %s: L L^T = %s, expected %s", delta, Lc @ Lc.T, D)
    if given:
        Lc = R.dense(rv.cov_cholesky)
        d.check(R.close(Lc.reshape(n, n), T, 0), "cov_cholesky %s, given %s", Lc, T)
        if sh:
            d.check(Lc.dtype == dtype, "cov_cholesky dtype %s, expected %s", Lc.dtype, dtype)
    bad = d.pick(["cov", "factor", "kind"])
    try:
        if bad == "cov":
            randvars.Normal(M.astype(float), np.eye(n + 1))
        elif not sh:
            return d.nontrivial()
        elif bad == "factor":
            randvars.Normal(M.astype(float), np.eye(n), np.eye(n + 1))
        else:
            randvars.Normal(M.astype(float), np.eye(n), linops.Identity(n))
    except (TypeError if bad == "kind" else ValueError):
        pass
    else:
        d.fail("a %s that does not fit was accepted" % bad)
    d.nontrivial()


def kron_damping(d):
    """Kronecker covariances: the factor is the Kronecker product of the factors of the damped
    Kronecker factors."""
    m, n = d.int(1, 3), d.int(1, 3)
    A, B = R.covmat(d, m), R.covmat(d, n)
    sym = d.bool(1, 3)
    delta = d.pick([None, 0.0, 0.5, 2.0])
    d.note("cov", "%s %s damping %s symmetric %s" % (L.fmt(A), L.fmt(B), delta, sym))
    if sym:
        B, n = A, m
    M = d.array((m, n))
    if sym or d.bool(3, 4):
        rv = randvars.Normal(M, linops.SymmetricKronecker(A) if sym else linops.Kronecker(A, B))
    else:
        rv = randvars.Normal(M.reshape(-1), linops.Kronecker(A, B))
    rv.precompute_cov_cholesky(delta) if delta is not None else rv.precompute_cov_cholesky()
    e = 1e-12 if delta is None else delta
    Lc = R.dense(rv.cov_cholesky)
    W = np.kron(A + e * np.eye(m), B + e * np.eye(n))
    d.check(R.close(Lc @ Lc.T, W, 1e-9 * (1 + np.max(np.abs(W)))), "L L^T = %s, expected %s", Lc @ Lc.T, W)
    d.check(np.max(np.abs(np.triu(Lc, 1)), initial=0) == 0 and np.all(np.diag(Lc) > 0), "not a Cholesky factor: %s", Lc)
    d.nontrivial()


def units(d):
    """Changing the unit of measurement (by a power of two, so without rounding) rescales
    moments, densities and quantiles of a Normal and leaves probabilities alone."""
    sh = R.pick_shape(d)
    n = int(np.prod(sh)) if sh else 1
    M, C = d.array(sh, -4, 4), R.covmat(d, n)
    s = 2.0 ** d.pick([-20, -12, -5, -1, 3, 8, 16, 30])
    kind = d.pick(["dense", "dense", "operator"]) if sh != () else "dense"
    d.note("normal", "mean %s cov %s unit %g %s" % (L.fmt(M), L.fmt(C), s, kind))

    def make(u):
        cov = u * u * C if sh != () else u * u * C[0, 0]
        return randvars.Normal(u * M if sh != () else float(u * M), linops.Matrix(cov) if kind == "operator" else cov)

    a, b = make(1.0), make(s)
    X = d.array(d.pick([(), (3,)]) + sh, -5, 5)
    X = X[()] if X.ndim == 0 else X
    for name, p in (("mean", 1), ("mode", 1), ("std", 1), ("var", 2), ("cov", 2)):
        u, v = R.dense(getattr(a, name)), R.dense(getattr(b, name))
        d.check(R.close(v / s ** p, u, 1e-12 * (1 + np.max(np.abs(u)))), "%s %s in unit %g, %s in unit 1", name, v, s, u)
    for how in ("neg", "scale", "index", "plus", "T"):
        u, v = [{"neg": lambda z: -z, "scale": lambda z: 3.0 * z, "index": lambda z: z[0] if sh != () else z,
                 "plus": lambda z: z + z.mean, "T": lambda z: z.transpose()}[how](z) for z in (a, b)]
        d.check(R.close(R.dense(v.mean) / s, R.dense(u.mean), 1e-12 * (1 + np.max(np.abs(R.dense(u.mean)))))
                and R.close(R.dense(v.cov) / s ** 2, R.dense(u.cov), 1e-12 * (1 + np.max(np.abs(R.dense(u.cov))))),
                "%s of the rescaled Normal: mean %s cov %s, unit %g", how, v.mean, v.cov, s)
    tol = 1e-7 * np.linalg.cond(C)
    u, v = np.asarray(a.logpdf(X)), np.asarray(b.logpdf(s * X)) + n * math.log(s)
    d.check(R.close(v, u, tol * (1 + np.max(np.abs(u)))), "logpdf %s in unit %g, %s in unit 1", v, s, u)
    u, v = np.asarray(a.pdf(X)), np.asarray(b.pdf(s * X)) * s ** n
    d.check(R.close(v, u, tol * (1 + np.max(np.abs(a.logpdf(X)))) * np.max(u) + 1e-280), "pdf %s in unit %g, %s in unit 1", v, s, u)
    u, v = a.entropy, b.entropy - n * math.log(s)
    d.check(abs(u - v) <= 1e-9 * (1 + abs(u)), "entropy %s in unit %g, %s in unit 1", v, s, u)
    if n == 1:
        u, v = np.asarray(a.cdf(X)), np.asarray(b.cdf(s * X))
        d.check(R.close(u, v, 1e-9), "cdf %s in unit %g, %s in unit 1", v, s, u)
        if sh == ():
            p = d.pick([1e-9, 1e-4, 0.01, 0.5, 0.9, 0.9999])
            d.check(R.close(b.quantile(p) / s, a.quantile(p), 1e-9 * (1 + abs(a.quantile(p)))), "quantile(%s) in unit %g", p, s)
    if n <= 12:
        seed = d.seed()
        u, v = [z.sample(np.random.default_rng(seed), size=(2,)) for z in (a, b)]
        z = scipy.linalg.solve_triangular(np.linalg.cholesky(C), ((v / s) - M).reshape(2, n).T, lower=True)
        d.check(v.shape == (2,) + sh and np.max(np.abs(z)) < 12, "samples %s in unit %g are %s standard deviations off",
                v, s, np.max(np.abs(z)))
    d.nontrivial()


def categorical(d):
    k = d.size(1, 5, 20)
    esh = d.pick([(), (), (2,), (1,), (2, 2)])
    dt = d.pick([np.float64, np.int64])
    sup = d.int_array((k,) + esh, -2, 2).astype(dt)
    w = np.array([d.int(0, 4) for _ in range(k)], float)
    if w.sum() == 0:
        w[0] = 1
    p = w / w.sum()
    default = esh == () and d.bool(1, 5)
    if default:
        sup = np.arange(k)
    d.note("support", L.fmt(sup))
    d.note("probabilities", L.fmt(p))
    rv = randvars.Categorical(p) if default else randvars.Categorical(p, sup)
    d.check(rv.shape == sup.shape[1:], "shape %s", rv.shape)
    d.check(rv.dtype == sup.dtype, "dtype %s", rv.dtype)

    def mass(v):
        return float(sum(pi for pi, s in zip(p, sup) if np.array_equal(s, v)))

    pts = [sup[i] for i in range(k)] + [d.int_array(esh, -2, 3).astype(sup.dtype)]
    for v in pts:
        d.check(abs(rv.pmf(v) - mass(v)) < 1e-12, "pmf(%s) = %s, expected %s", v, rv.pmf(v),
                mass(v))
        if mass(v) > 0:
            d.check(abs(rv.logpmf(v) - math.log(mass(v))) < 1e-12, "logpmf(%s) = %s", v,
                    rv.logpmf(v))
    d.check(any(p[i] == p.max() and np.array_equal(rv.mode, sup[i]) for i in range(k)),
            "mode %s", rv.mode)
    size = d.pick([(), 3, (2, 2), (0,)])
    s = rv.sample(np.random.default_rng(d.seed()), size=size)
    want = (size if isinstance(size, tuple) else (size,)) + esh
    d.check(s.shape == want, "sample shape %s, expected %s", s.shape, want)
    for row in np.asarray(s).reshape((-1,) + esh):
        d.check(mass(row) > 0, "sampled %s which has probability zero", row)
    r = rv.resample(np.random.default_rng(d.seed()))
    d.check(np.allclose(r.probabilities, 1.0 / k) and r.support.shape == sup.shape,
            "resample: %s %s", r.probabilities, r.support.shape)
    for row in r.support:
        d.check(mass(row) > 0, "resampled %s which has probability zero", row)
    d.nontrivial()


def generic_views(d):
    """Views of generic random variables: samples are the views of the base samples, for
    every sample size, and moments are those of the viewed entries."""
    sh = d.pick([(2,), (3,), (2, 2), (2, 3), (1, 3)])
    n = int(np.prod(sh))
    M = d.array(sh)
    C = R.covmat(d, n)
    Lc = np.linalg.cholesky(C)

    def sample(rng, size):
        z = rng.standard_normal(size=size + (n,))
        return (z @ Lc.T).reshape(size + sh) + M

    rv = randvars.RandomVariable(
        shape=sh, dtype=np.float64, sample=sample, mean=lambda: M.copy(), cov=lambda: C.copy(),
        var=lambda: np.diag(C).reshape(sh).copy(), mode=lambda: M.copy())
    base = rv
    j = np.arange(n).reshape(sh)
    for _ in range(d.int(1, 2)):
        fake = R.RV(rv, M.reshape(-1)[j.reshape(-1)].reshape(j.shape), np.eye(j.size))
        x, j2 = view(d, fake)
        d.assume(j2.ndim > 0)
        j = j.reshape(-1)[j2.reshape(-1)].reshape(j2.shape)
        rv = x.rv
    seed, size = d.seed(), d.pick([(), (2,), (3,), (2, 3)])
    d.note("size", size)
    d.check(rv.shape == j.shape, "shape %s, expected %s", rv.shape, j.shape)
    s0 = base.sample(np.random.default_rng(seed), size=size)
    s = rv.sample(np.random.default_rng(seed), size=size)
    want = s0.reshape(size + (n,))[..., j.reshape(-1)].reshape(size + j.shape)
    d.check(R.close(s, want, 1e-12), "sample(size=%s) of the view has shape %s values %s, "
            "expected shape %s values %s", size, s.shape, s, want.shape, want)
    f = j.reshape(-1)
    d.check(R.close(rv.mean, M.reshape(-1)[f].reshape(j.shape), 1e-12), "mean %s", rv.mean)
    d.check(R.close(rv.var, np.diag(C)[f].reshape(j.shape), 1e-12), "var %s", rv.var)
    d.check(R.close(rv.std, np.sqrt(np.diag(C))[f].reshape(j.shape), 1e-12), "std %s", rv.std)
    try:
        cov = rv.cov
    except NotImplementedError:
        cov = None
    if cov is not None:
        d.check(R.close(cov, C[np.ix_(f, f)], 1e-9), "cov %s, expected %s", cov,
                C[np.ix_(f, f)])
    d.nontrivial()


def generic_arith(d):
    """Arithmetic without closed form: samples are the results for the operand samples."""
    x = R.normal(d, f32_ok=False, linop_ok=False)
    op = d.pick(["mul", "rmul", "addabs", "abs", "muln", "pow", "matmulc", "negabs",
                 "subabs", "div", "mod", "addgen", "subgen"])
    sh = x.shape
    size = d.pick([(), (2,), (3,), (2, 2)])
    seed = d.seed()
    d.note("expr", "%s %s size %s" % (op, x.desc, size))
    d.label(op)

    def smp(rv, rng):
        return rv.sample(rng, size=size)

    rng = np.random.default_rng(seed)
    csh = sh
    if op in ("mul", "rmul", "div", "mod") and sh:
        csh = d.pick([sh, sh[-1:]])
    c = d.array(csh, 1, 3)
    d.note("c", L.fmt(c))
    if op == "mul":
        z, want = x.rv * c, smp(x.rv, rng) * c
    elif op == "rmul":
        z, want = c * x.rv, c * smp(x.rv, rng)
    elif op == "div":
        z, want = x.rv / c, smp(x.rv, rng) / c
    elif op == "mod":
        z, want = x.rv % c, smp(x.rv, rng) % c
    elif op == "abs":
        z, want = abs(x.rv), abs(smp(x.rv, rng))
    elif op == "negabs":
        z, want = -abs(x.rv), -abs(smp(x.rv, rng))
    elif op == "addabs":
        z, want = abs(x.rv) + c, abs(smp(x.rv, rng)) + c
    elif op == "subabs":
        z, want = c - abs(x.rv), c - abs(smp(x.rv, rng))
    elif op == "pow":
        z, want = x.rv ** 2, smp(x.rv, rng) ** 2
    elif op in ("addgen", "subgen"):
        # sums of variables without a common closed form keep the mean
        K, q = d.array(sh), np.array([d.int(1, 4) for _ in range(3)], float)
        q /= q.sum()
        S = np.stack([d.array(sh) for _ in range(3)])
        y = d.pick([randvars.Categorical(q, S),
                    randvars.RandomVariable(sh, np.float64, sample=lambda rng, size: rng.standard_normal(size + sh) + K,
                                            mean=lambda: K.copy() if sh else np.float64(K))])
        m = K if not isinstance(y, randvars.Categorical) else None
        a, b = (x.rv, y) if d.bool() else (y, x.rv)
        z = a + b if op == "addgen" else a - b
        u = smp(a, rng)
        want = u + smp(b, rng) if op == "addgen" else u - smp(b, rng)
        if m is not None and op == "addgen":
            d.check(R.close(z.mean, x.M + m, 1e-9 * (1 + np.max(np.abs(x.M)))), "mean of the sum %s, expected %s", z.mean, x.M + m)
    elif op == "muln":
        y = R.normal(d, sh, f32_ok=False, linop_ok=False)
        z = x.rv * y.rv
        a = smp(x.rv, rng)
        want = a * smp(y.rv, rng)
    else:
        d.assume(len(sh) >= 1)
        A = d.array((2, sh[0]))
        z = A @ abs(x.rv)
        a = abs(smp(x.rv, rng))
        want = np.einsum("ij,...j->...i", A, a) if len(sh) == 1 else A @ a
    if isinstance(z, (randvars.Normal, randvars.Constant)):
        return
    s = z.sample(np.random.default_rng(seed), size=size)
    want = np.asarray(want)
    d.check(s.shape == want.shape and z.shape == want.shape[len(size):],
            "sample shape %s (rv shape %s), expected %s", s.shape, z.shape, want.shape)
    d.check(R.close(s, want, 1e-9 * (1 + np.abs(want))), "sample %s, expected %s", s, want)
    d.nontrivial()


SUBS = [
    Sub("normal_views", normal_views, 4000, 80000),
    Sub("constant", constant, 1500, 20000),
    Sub("densities", densities, 1000, 15000),
    Sub("construct", construct, 1500, 20000),
    Sub("kron_damping", kron_damping, 300, 4000),
    Sub("units", units, 700, 12000),
    Sub("categorical", categorical, 1500, 20000),
    Sub("generic_views", generic_views, 1500, 20000),
    Sub("generic_arith", generic_arith, 1500, 20000),
]
