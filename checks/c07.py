"""C07 Functions form a vector space pointwise; Gaussian processes evaluate consistently."""
import numpy as np

from probnum import functions, randprocs, randvars
from probnum.randprocs import covfuncs
from pbt.runner import Sub
from . import libcov as K
from . import liblinops as L
from .librv import close, dense

RULE = ("A case is a function expression (or Gaussian process), inputs with a random batch "
        "shape and a query; non-trivial if values or moments were compared pointwise.")


def leaf(d, ins, outs):
    kind = d.pick(["lam", "lam", "zero"])
    d.label(kind)
    if kind == "zero":
        return functions.Zero(ins, outs), (lambda v: np.zeros(outs)), "Zero"
    n = int(np.prod(ins, dtype=int))
    m = int(np.prod(outs, dtype=int))
    A, b, q = d.array((m, n)), d.array(m), d.array(m)

    def fn(x):
        x = np.asarray(x, float)
        X = x.reshape(x.shape[:x.ndim - len(ins)] + (n,))
        Y = X @ A.T + b + q * np.sum(X ** 2, axis=-1)[..., None]
        return Y.reshape(x.shape[:x.ndim - len(ins)] + outs)

    def ref(v):
        v = v.reshape(-1)
        return np.array([A[i] @ v + b[i] + q[i] * float(v @ v)
                         for i in range(m)]).reshape(outs)
    return functions.LambdaFunction(fn, ins, outs), ref, "f"


def build(d, ins, outs, depth):
    if depth == 0 or d.bool(1, 5):
        return leaf(d, ins, outs)
    op = d.pick(["add", "sub", "neg", "mul", "rmul", "scaledadd", "same", "chain"])
    d.label(op)
    if op == "chain":
        # a long left-associated sum; objects may occur again
        pool = [build(d, ins, outs, depth - 2 if depth > 1 else 0) for _ in range(d.int(1, 3))]
        f, rf, nf = d.pick(pool)
        for _ in range(d.int(2, 6)):
            g, rg, ng = d.pick(pool)
            s = d.pick([1, 1, -1])
            f, nf = (f + g, "(%s + %s)" % (nf, ng)) if s > 0 else (f - g, "(%s - %s)" % (nf, ng))
            rf = (lambda a, b, s: lambda v: a(v) + s * b(v))(rf, rg, s)
        return f, rf, nf
    f, rf, nf = build(d, ins, outs, depth - 1)
    if op == "same":
        g, rg, ng = leaf(d, ins, outs)
        how = d.pick(["f+f", "f-f", "(f+g)+f", "(g-f)+f", "f+(g+f)"])
        h = {"f+f": lambda: f + f, "f-f": lambda: f - f, "(f+g)+f": lambda: (f + g) + f,
             "(g-f)+f": lambda: (g - f) + f, "f+(g+f)": lambda: f + (g + f)}[how]()
        c, e = {"f+f": (2, 0), "f-f": (0, 0), "(f+g)+f": (2, 1), "(g-f)+f": (0, 1), "f+(g+f)": (2, 1)}[how]
        return h, (lambda v: c * rf(v) + e * rg(v)), "[%s: f=%s, g=%s]" % (how, nf, ng)
    if op in ("add", "sub"):
        g, rg, ng = build(d, ins, outs, depth - 1)
        if op == "add":
            return f + g, (lambda v: rf(v) + rg(v)), "(%s + %s)" % (nf, ng)
        return f - g, (lambda v: rf(v) - rg(v)), "(%s - %s)" % (nf, ng)
    if op == "neg":
        return -f, (lambda v: -rf(v)), "-%s" % nf
    s = d.pick([2.0, -0.5, 3, 0.0, np.float64(1.5), -1])
    if op == "mul":
        return f * s, (lambda v: s * rf(v)), "(%s * %s)" % (nf, s)
    if op == "rmul":
        return s * f, (lambda v: s * rf(v)), "(%s * %s)" % (s, nf)
    return s * f + f, (lambda v: (s + 1) * rf(v)), "(%s * %s + same)" % (s, nf)


SH = [(), (1,), (2,), (3,), (2, 2)]


def algebra(d):
    ins, outs = d.pick(SH), d.pick(SH)
    f, ref, name = build(d, ins, outs, d.int(0, 4))
    d.note("f", name)
    d.note("shapes", "%s -> %s" % (ins, outs))
    d.check(isinstance(f, functions.Function), "result is %s", type(f))
    d.check(f.input_shape == ins and f.output_shape == outs and f.input_ndim == len(ins)
            and f.output_ndim == len(outs), "shapes %s %s", f.input_shape, f.output_shape)
    batch = d.pick([(), (1,), (3,), (2, 2), (0,)] + ([(25,), (4, 7)] if d.bool(1, 10) else []))
    x = d.array(batch + ins) if d.bool(3, 4) else d.int_array(batch + ins, -3, 3)
    c = x.copy()
    got = f(x.tolist() if d.bool(1, 6) and x.size else x)
    vs = np.asarray(x, float).reshape((-1,) + ins) if x.size else np.zeros((0,) + ins)
    want = np.array([ref(v) for v in vs]).reshape(batch + outs)
    d.check(close(got, want, 1e-9 * max(1, np.max(np.abs(want), initial=0))),
            "f(x) = %s, expected %s", got, want)
    d.check(np.array_equal(x, c), "input modified")
    d.nontrivial()


def mismatch(d):
    ins, outs = d.pick(SH), d.pick(SH)
    f, _, nf = build(d, ins, outs, d.int(0, 2))
    mode = d.pick(["add_in", "add_out", "call"])
    d.note("f", nf)
    if mode == "call":
        d.assume(len(ins) >= 1)
        bad = d.pick([(ins[0] + 1,) + ins[1:], ins[:-1] + (ins[-1] + 1,), (), (2,) + ins[1:] + (9,)])
        d.assume(bad != ins)
        d.note("input", bad)
        try:
            f(d.array(bad))
        except ValueError:
            d.nontrivial()
            return
        d.fail("input of shape %s accepted by a function of inputs %s" % (bad, ins))
    other = d.pick([s for s in SH if s != (ins if mode == "add_in" else outs)])
    g, _, ng = build(d, other, outs, d.int(0, 1)) if mode == "add_in" else \
        build(d, ins, other, d.int(0, 1))
    d.note("g", ng)
    d.note("shapes", "%s->%s and %s->%s" % (ins, outs, g.input_shape, g.output_shape))
    sub = d.bool()
    try:
        (f - g) if sub else (f + g)
    except ValueError:
        d.nontrivial()
        return
    d.fail("functions with different shapes were %s" % ("subtracted" if sub else "added"))


def _mean(d, ins):
    return build(d, ins, (), d.int(0, 2))


def gp_scalar(d):
    ins = d.pick([(), (1,), (2,)])
    m, rm, nm = _mean(d, ins)
    k, rk, nk = K.tree(d, ins, d.int(0, 1))
    gp = randprocs.GaussianProcess(m, k)
    d.note("gp", "mean %s, cov %s, input %s" % (nm, nk, ins))
    d.check(gp.input_shape == ins and gp.output_shape == (), "shapes")
    batch = d.pick([(2,), (3,), (), (1,), (4,)] + ([(9,), (14,)] if d.bool(1, 10) else []))
    x = K.points(d, batch, ins, np.dtype(d.pick([np.float64, np.float64, np.int64])))
    arg = x.tolist() if d.bool(1, 6) else x
    c = x.copy()
    W = K.refmat(rk, x, x, ins)
    wm = np.array([rm(v) for v in K.flat(x, ins)]).reshape(batch)
    q = d.subset(["call", "mean", "cov", "var", "std", "sample"])
    d.note("x", L.fmt(x))
    sc = max(1, np.max(np.abs(W)), np.max(np.abs(wm), initial=0)) * 1e-8
    if "call" in q:
        rv = gp(arg)
        d.check(isinstance(rv, randvars.Normal) and rv.shape == batch, "gp(x) is %s shape %s",
                type(rv), rv.shape)
        d.check(close(rv.mean, wm, sc), "mean %s, expected %s", rv.mean, wm)
        d.check(close(dense(rv.cov), W if batch else W.reshape(()), sc), "cov %s, expected %s",
                rv.cov, W)
    if "mean" in q:
        d.check(close(gp.mean(arg), wm, sc), "mean function")
    if "cov" in q:
        d.check(close(gp.cov.matrix(arg), W, sc), "cov matrix")
    if "var" in q:
        d.check(close(gp.var(arg), np.diag(W).reshape(batch), sc), "var %s, expected %s",
                gp.var(arg), np.diag(W))
    if "std" in q:
        d.check(close(gp.std(arg) ** 2, np.diag(W).reshape(batch), sc), "std")
    if "sample" in q:
        size = d.pick([(), 2, (3,), (2, 3)])
        seed = d.seed()
        # sampling needs a numerically positive definite covariance (after damping)
        s1 = gp.sample(np.random.default_rng(seed), arg, size)
        s2 = gp(x).sample(np.random.default_rng(seed), size)
        ws = ((size,) if isinstance(size, int) else tuple(size)) + batch
        d.check(np.shape(s1) == ws, "sample shape %s, expected %s", np.shape(s1), ws)
        d.check(np.array_equal(s1, s2, equal_nan=True),
                "sampling at inputs differs from sampling the evaluation")
        d.check(np.all(np.isfinite(s1)), "sample not finite")
    d.check(np.array_equal(x, c), "input modified")
    d.nontrivial()


class _Vec(covfuncs.CovarianceFunction):
    def __init__(self, k, B, ins):
        self.k, self.B = k, B
        super().__init__(input_shape=ins, output_shape_0=(B.shape[0],),
                         output_shape_1=(B.shape[0],))

    def _evaluate(self, x0, x1):
        return np.asarray(self.k(x0, x1))[..., None, None] * self.B


def gp_vector(d):
    """Vector-valued processes: mean and covariance refer to the same entries."""
    ins = d.pick([(), (2,)])
    m = d.int(1, 3)
    f, rf, nf = build(d, ins, (m,), d.int(0, 2))
    k0, rk, nk = K.base(d, ins)
    F = d.array((m, m))
    B = F @ F.T
    gp = randprocs.GaussianProcess(f, _Vec(k0, B, ins))
    d.note("gp", "mean %s, cov %s (x) %s" % (nf, nk, L.fmt(B)))
    batch = d.pick([(2,), (3,), (), (1,)])
    x = K.points(d, batch, ins)
    d.note("x", L.fmt(x))
    W = np.kron(K.refmat(rk, x, x, ins), B)     # batch major, like the flattened mean
    wm = np.array([rf(v) for v in K.flat(x, ins)]).reshape(batch + (m,))
    sc = 1e-8 * max(1, np.max(np.abs(W)), np.max(np.abs(wm)))
    rv = gp(x)
    d.check(rv.shape == batch + (m,), "shape %s", rv.shape)
    d.check(close(rv.mean, wm, sc), "mean")
    d.check(close(dense(rv.cov), W, sc), "cov %s, expected %s", rv.cov, W)
    var = np.diag(W).reshape(batch + (m,))
    d.check(close(gp.var(x), var, sc) and close(rv.var, var, sc), "var %s / %s, expected %s",
            gp.var(x), rv.var, var)
    d.check(close(gp.std(x), np.sqrt(np.maximum(var, 0)), 1e-7 * max(1, np.max(var))), "std")
    d.nontrivial()


def gp_mismatch(d):
    ins = d.pick([(), (1,), (2,)])
    f = functions.Zero(ins)
    mode = d.pick(["in", "out", "type_mean", "type_cov"])
    d.note("mode", mode)
    exc = ValueError
    try:
        if mode == "in":
            randprocs.GaussianProcess(f, covfuncs.ExpQuad(d.pick([s for s in [(), (1,), (2,), (3,)] if s != ins])))
        elif mode == "out":
            randprocs.GaussianProcess(functions.Zero(ins, (2,)), covfuncs.ExpQuad(ins))
        elif mode == "type_mean":
            exc = TypeError
            randprocs.GaussianProcess(lambda x: 0 * x, covfuncs.ExpQuad(ins))
        else:
            exc = TypeError
            randprocs.GaussianProcess(f, lambda x, y: x @ y)
    except exc:
        d.nontrivial()
        return
    d.fail("inconsistent process accepted (%s)" % mode)


SUBS = [
    Sub("algebra", algebra, 4000, 60000),
    Sub("mismatch", mismatch, 800, 10000),
    Sub("gp_scalar", gp_scalar, 2500, 40000),
    Sub("gp_vector", gp_vector, 1000, 20000),
    Sub("gp_mismatch", gp_mismatch, 60, 500),
]
