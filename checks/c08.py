"""C08 Covariance functions: closed form, consistent evaluation modes, symmetric PSD."""
import numpy as np

from probnum import randprocs
from probnum.randprocs import covfuncs
from pbt.engine import Inconclusive
from pbt.runner import Sub
from . import libcov as K
from . import liblinops as L
from .librv import close

RULE = ("A case is a covariance function expression, input arrays with random batch shapes "
        "and dtypes and an evaluation mode; non-trivial if values were compared with the "
        "pointwise closed form.")

DT = [np.float64, np.float64, np.float64, np.int64, np.float32]


def tol_for(dts, W):
    if np.max(np.abs(W), initial=0) > 1e30:
        raise Inconclusive("magnitude")
    t = 2e-5 if any(x == np.float32 for x in dts) else 1e-9
    return t * max(1.0, float(np.max(np.abs(W), initial=0)))


def evaluate(d):
    shape = d.pick(K.SHAPES + [(2, 2)] + ([(5,), (8,), (3, 4)] if d.bool(1, 20) else []))
    k, ref, name = K.tree(d, shape, d.int(0, 2), neg=True)
    d.note("k", name)
    d.note("input_shape", shape)
    b0 = d.pick([(), (2,), (3,), (1,), (2, 1), (2, 3), (0,)] + ([(17,), (5, 9)] if d.bool(1, 10) else []))
    b1 = d.pick([None, b0, (), (1,), b0[-1:], (2, 3)])
    dt0, dt1 = np.dtype(d.pick(DT)), np.dtype(d.pick(DT))
    x0 = K.points(d, b0, shape, dt0)
    x1 = None if b1 is None else K.points(d, b1, shape, dt1)
    if x1 is not None and d.bool(1, 4) and x0.size and x1.size:
        x1.reshape(-1, *shape)[0] = x0.reshape(-1, *shape)[0]
        if d.bool() and x0.dtype == x1.dtype == np.float64:
            x1.reshape(-1, *shape)[0] = K.near(d, x0.reshape(-1, *shape)[0])
            d.label("near")
    d.note("x0", L.fmt(x0))
    d.note("x1", None if x1 is None else L.fmt(x1))
    try:
        bb = b0 if b1 is None else np.broadcast_shapes(b0, b1)
    except ValueError:
        bb = None
    c0, c1 = x0.copy(), None if x1 is None else x1.copy()
    arg = x0.tolist() if d.bool(1, 8) and x0.size else x0
    try:
        got = k(arg, x1)
    except ValueError:
        d.check(bb is None, "evaluation at broadcastable batch shapes %s and %s rejected",
                b0, b1)
        d.nontrivial()
        return
    d.check(bb is not None, "batch shapes %s and %s accepted", b0, b1)
    X0 = np.broadcast_to(x0, bb + shape)
    X1 = X0 if x1 is None else np.broadcast_to(x1, bb + shape)
    want = np.array([ref(a, b) for a, b in zip(K.flat(X0, shape), K.flat(X1, shape))])
    want = want.reshape(bb)
    d.check(close(got, want, tol_for([dt0] if x1 is None else [dt0, dt1], want)),
            "k(x0, x1) = %s, expected %s", got, want)
    d.check(np.array_equal(x0, c0) and (x1 is None or np.array_equal(x1, c1)),
            "inputs modified")
    d.nontrivial()


def matrices(d):
    shape = d.pick(K.SHAPES + [(2, 2)] + ([(5,), (8,), (3, 4)] if d.bool(1, 20) else []))
    neg = d.bool(1, 4)
    k, ref, name = K.tree(d, shape, d.int(0, 2), neg=neg)
    d.note("k", name)
    d.note("input_shape", shape)
    b0 = d.pick([(2,), (3,), (), (1,), (2, 2)] + ([(17,), (40,)] if d.bool(1, 10) else []))
    b1 = d.pick([None, (2,), (3,), (), (2, 1)])
    dt0, dt1 = np.dtype(d.pick(DT)), np.dtype(d.pick(DT))
    x0 = K.points(d, b0, shape, dt0)
    x1 = None if b1 is None else K.points(d, b1, shape, dt1)
    if d.bool(1, 4):
        x0 = np.asfortranarray(x0)
        x1 = None if x1 is None else np.asfortranarray(x1)
        d.label("fortran")
    d.note("x0", L.fmt(x0))
    d.note("x1", None if x1 is None else L.fmt(x1))
    want = K.refmat(ref, x0, x0 if x1 is None else x1, shape)
    tol = tol_for([dt0] if x1 is None else [dt0, dt1], want)
    got = k.matrix(x0, x1) if x1 is not None or d.bool() else k.matrix(x0)
    d.check(isinstance(got, np.ndarray) and close(got, want, tol), "matrix %s, expected %s",
            got, want)
    op = k.linop(x0, x1)
    d.check(tuple(op.shape) == want.shape, "linop shape %s", op.shape)
    d.check(close(op.todense(), want, tol), "linop.todense() %s, expected %s", op.todense(),
            want)
    d.check(close(op.T.todense(), want.T, tol), "linop.T.todense()")
    if x1 is None:
        d.check(close(got, got.T, tol), "not symmetric")
    if x1 is None and not neg:
        ev = np.linalg.eigvalsh(0.5 * (got + got.T)) if np.all(np.isfinite(got)) else None
        d.check(ev is not None and ev[0] >= -len(want) * max(tol, 1e-9 * abs(ev[-1])),
                "Gram matrix not positive semi-definite: %s", ev)
    d.nontrivial()


def linop_products(d):
    """Matrix-free products (standard implementation) equal dense products."""
    shape = d.pick(K.SHAPES)
    k, ref, name = K.tree(d, shape, d.int(0, 2), keops_free=True, neg=True)
    d.note("k", name)
    x0 = K.points(d, (d.size(1, 3, 40),), shape)
    x1 = None if d.bool() else K.points(d, (d.size(1, 3, 40),), shape)
    want = K.refmat(ref, x0, x0 if x1 is None else x1, shape)
    op = k.linop(x0, x1)
    V = d.array((want.shape[1],) + d.pick([(), (2,)]))
    U = d.array(d.pick([(), (2,)]) + (want.shape[0],))
    t = 1e-8 * max(1, np.max(np.abs(want))) * 10
    for _ in range(d.int(1, 3)):
        q = d.pick(["matmul", "rmatmul", "T", "dense"])
        d.note("q", q)
        if q == "matmul":
            d.check(close(op @ V, want @ V, t), "linop @ V")
        elif q == "rmatmul":
            d.check(close(U @ op, U @ want, t), "U @ linop")
        elif q == "T":
            d.check(close(op.T @ U.T, want.T @ U.T, t), "linop.T @ U")
        else:
            d.check(close(op.todense(), want, t), "todense")
    d.nontrivial()


def bad_args(d):
    shape = d.pick([(1,), (2,), (3,)])
    k, ref, name = K.base(d, shape)
    d.note("k", name)
    bad = d.pick([(), (shape[0] + 1,), (2, shape[0] + 1), (shape[0], 7)])
    x = d.array(bad)
    good = d.array(shape)
    mode = d.pick(["call0", "call1", "matrix0", "matrix1", "linop"])
    d.note("bad", "%s with shape %s" % (mode, bad))
    try:
        if mode == "call0":
            k(x, None)
        elif mode == "call1":
            k(good, x)
        elif mode == "matrix0":
            k.matrix(x)
        elif mode == "matrix1":
            k.matrix(good, x)
        else:
            k.linop(x)
    except ValueError:
        d.nontrivial()
        return
    d.fail("input of shape %s accepted for input_shape %s" % (bad, shape))


class _Coreg(covfuncs.CovarianceFunction):
    """User-defined multi-output covariance B[i,j] * (1 + <f(x0), f(x1)>)."""

    def __init__(self, B, in0, in1, o0, o1):
        self.B = B
        super().__init__(input_shape_0=in0, input_shape_1=in1, output_shape_0=o0,
                         output_shape_1=o1)

    def _evaluate(self, x0, x1):
        x1 = x0 if x1 is None else x1
        s0 = x0 if self.input_ndim_0 == 0 else np.sum(x0, axis=-1)
        s1 = x1 if self.input_ndim_1 == 0 else np.sum(x1, axis=-1)
        p = np.asarray(1.0 + s0 * s1)
        return p[(...,) + (None,) * self.B.ndim] * self.B


def multi_output(d):
    """Custom multi-output covariances: matrix ordering is output-major, batch-minor."""
    in0 = d.pick([(), (2,)])
    in1 = in0 if d.bool(3, 4) else d.pick([(), (2,), (3,)])
    o0, o1 = d.pick([(), (2,), (3,), (2, 2)]), d.pick([(), (2,), (1,)])
    B = d.array(o0 + o1)
    k = _Coreg(B, in0, in1, o0, o1)
    d.note("shapes", "in %s %s out %s %s" % (in0, in1, o0, o1))
    n0, n1 = d.int(1, 3), d.int(1, 3)
    x0, x1 = d.array((n0,) + in0), d.array((n1,) + in1)
    s0 = x0 if in0 == () else x0.sum(-1)
    s1 = x1 if in1 == () else x1.sum(-1)
    m0, m1 = int(np.prod(o0, dtype=int)), int(np.prod(o1, dtype=int))
    P = 1.0 + s0[:, None] * s1[None, :]
    want = np.einsum("ij,ab->aibj", P, B.reshape(m0, m1)).reshape(m0 * n0, m1 * n1)
    d.check(close(k.matrix(x0, x1), want, 1e-9), "matrix %s, expected %s", k.matrix(x0, x1), want)
    op = k.linop(x0, x1)
    d.check(close(op.todense(), want, 1e-9), "linop")
    d.check(close(k.linop(x0, x1).T.todense(), want.T, 1e-9) and close(op.T.T.todense(), want, 1e-9), "linop.T")
    v = d.array((want.shape[0],))
    d.check(close(op.T @ v, want.T @ v, 1e-8) and close(v @ op, v @ want, 1e-8), "products with linop.T")
    s = d.pick([2.0, 0.5])
    if in0 == in1:
        d.check(close((s * k + k).matrix(x0, x1), (s + 1) * want, 1e-9), "scaled sum")
        d.check(close((s * k + k).linop(x0, x1).todense(), (s + 1) * want, 1e-9),
                "scaled sum linop")
    d.nontrivial()


SUBS = [
    Sub("evaluate", evaluate, 5000, 100000),
    Sub("matrices", matrices, 3000, 60000),
    Sub("linop_products", linop_products, 800, 10000),
    Sub("bad_args", bad_args, 300, 2000),
    Sub("multi_output", multi_output, 800, 10000),
]
