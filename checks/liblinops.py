"""Generator of (linear operator, dense reference) expression trees."""
import numpy as np
import scipy.sparse

import probnum as pn
from probnum import linops

F32 = np.dtype(np.float32)


class Node:
    """op: the operator under test; D: dense float64/complex reference;
    mag: magnitude bound used to scale tolerances; f32: single precision inside;
    kron: contains a Kronecker-type operator; desc: readable expression."""

    def __init__(self, op, D, mag=None, f32=False, kron=False, desc="", integer=False,
                 inv=False):
        self.op = op
        self.D = np.asarray(D, dtype=float)
        self.mag = max(1.0, float(np.max(np.abs(self.D))) if self.D.size else 1.0,
                       mag or 0.0)
        self.f32, self.kron, self.desc, self.inv = f32, kron, desc, inv

    @property
    def shape(self):
        return self.D.shape

    @property
    def tol(self):
        return (2e-4 if self.f32 else 1e-8) * self.mag


DTYPES = [np.float64, np.float64, np.float64, np.int64, np.float32, np.int32]


def values(d, shape, dtype, nz=False):
    if np.issubdtype(dtype, np.integer):
        A = d.int_array(shape, -4, 4, dtype=dtype)
    else:
        A = d.array(shape, -3, 3, den=4, dtype=dtype)
    if nz:
        A = np.where(A == 0, np.asarray(2, dtype), A).astype(dtype)
    return A


def spd(d, n, dtype=np.float64):
    M = d.int_array((n, n), -2, 2)
    A = M @ M.T + (1 + d.choice(2)) * np.eye(n, dtype=int)
    return A.astype(dtype)


def divisors(n):
    return [k for k in range(1, n + 1) if n % k == 0]


def fmt(A):
    return np.array2string(np.asarray(A), separator=",").replace("\n", "")


LAZY = "lazy"


def leaf(d, shape, kinds=None):
    m, n = shape
    opts = ["matrix", "matrix", "sparse", "lambda", "zero"]
    if m != n:
        opts += ["tri"]
    if m == n:
        opts += ["identity", "iso", "aniso", "iso", "aniso", "sym", "spd", "tri"]
    if m <= n:
        opts += ["selection"]
    if m >= n:
        opts += ["embedding"]
    if kinds:
        opts = [o for o in opts if o in kinds] or ["matrix"]
    kind = d.pick(opts)
    d.label("leaf:" + kind)
    dt = np.dtype(d.pick(DTYPES))
    f32 = dt == F32
    if kind == "matrix":
        A = values(d, shape, dt)
        arg = A.copy() if d.bool(3, 4) else np.asfortranarray(A)
        how = d.pick(["Matrix", "aslinop"])
        op = linops.Matrix(arg) if how == "Matrix" else linops.aslinop(arg)
        return Node(op, A, f32=f32, desc="%s(%s,%s)" % (how, fmt(A), dt))
    if kind == "sparse":
        A = values(d, shape, dt)
        mask = d.int_array(shape, 0, 1)
        A = (A * mask).astype(dt)
        cls = d.pick([scipy.sparse.csr_matrix, scipy.sparse.csc_matrix,
                      scipy.sparse.coo_matrix])
        return Node(linops.Matrix(cls(A)), A, f32=f32,
                    desc="Matrix(%s(%s,%s))" % (cls.__name__, fmt(A), dt))
    if kind == "lambda":
        A = values(d, shape, dt)
        how = d.pick(["matmul", "matmat", "matvec"])
        if how == "matmul":
            f = lambda x: A @ x
        elif how == "matmat":
            f = linops.LinearOperator.broadcast_matmat(lambda X: A @ X)
        else:
            f = linops.LinearOperator.broadcast_matvec(lambda v: A @ v)
        return Node(linops.LambdaLinearOperator(shape, dt, matmul=f), A, f32=f32,
                    desc="Lambda[%s](%s,%s)" % (how, fmt(A), dt))
    if kind == "zero":
        return Node(linops.Zero(shape, dtype=dt), np.zeros(shape), f32=f32,
                    desc="Zero(%s,%s)" % (shape, dt))
    if kind == "identity":
        return Node(linops.Identity(n if d.bool() else shape, dtype=dt), np.eye(n), f32=f32,
                    desc="Identity(%d,%s)" % (n, dt))
    if kind == "iso":
        s = values(d, (), dt)[()]
        return Node(linops.Scaling(s, shape=shape if d.bool() else n), s * np.eye(n),
                    f32=f32, desc="Scaling(%s[%s],%d)" % (s, dt, n))
    if kind == "aniso":
        s = values(d, (n,), dt)
        pat = d.pick(["free", "free", "equal", "one_off"] + ["near"] * (dt == np.float64))
        if pat != "free":
            k = d.int(0, n - 1)
            keep = s[k]
            s[:] = s[0]
            if pat == "one_off":
                s[k] = keep
            if pat == "near":
                s[k] += 2.0 ** -d.pick([18, 22])
        return Node(linops.Scaling(s.copy()), np.diag(s.astype(float)), f32=f32,
                    desc="Scaling(%s,%s)" % (fmt(s), dt))
    if kind == "sym":
        A = values(d, shape, dt)
        A = np.tril(A) + np.tril(A, -1).T
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        return Node(op, A, f32=f32, desc="Matrix[sym](%s,%s)" % (fmt(A), dt))
    if kind == "spd":
        A = spd(d, n, dt)
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        if d.bool():
            op.is_positive_definite = True
        return Node(op, A, f32=f32, desc="Matrix[spd](%s,%s)" % (fmt(A), dt))
    if kind == "tri":
        A = values(d, shape, dt)
        lower = d.bool()
        A = np.tril(A) if lower else np.triu(A)
        if d.bool(3, 4):
            idx = np.arange(min(m, n))
            A[idx, idx] = values(d, (min(m, n),), dt, nz=True)
        op = linops.Matrix(A.copy())
        if lower:
            op.is_lower_triangular = True
        else:
            op.is_upper_triangular = True
        return Node(op, A, f32=f32,
                    desc="Matrix[%s](%s,%s)" % ("lower" if lower else "upper", fmt(A), dt))
    if kind == "selection":
        idx = d.shuffled(range(n))[:m]
        D = np.eye(n)[idx]
        return Node(linops.Selection(tuple(idx), shape=shape), D,
                    desc="Selection(%s,%s)" % (idx, shape))
    if kind == "embedding":
        put = d.shuffled(range(m))[:n]
        take = d.shuffled(range(n))
        D = np.zeros(shape)
        D[put, take] = 1.0
        return Node(linops.Embedding(tuple(take), tuple(put), shape=shape), D,
                    desc="Embedding(take=%s,put=%s,%s)" % (take, put, shape))
    raise AssertionError(kind)


SCALARS = [2, -1, 0.5, -1.5, np.float64(3.0), np.float32(0.25), np.int64(-2), 0,
           np.float64(0.0), 1, np.float32(-2.0), 1.0]


def tree(d, shape, depth, allow_inv=True):
    """A random operator expression of the given shape; operands may be shared with (or
    be equal copies of) operators used elsewhere in the same case."""
    pool = d.__dict__.setdefault("_linop_pool", [])
    cands = [p for p in pool if p.shape == tuple(shape) and (allow_inv or not p.inv)]
    if cands and d.bool(1, 3):
        node = d.pick(cands)
        if type(node.op) is linops.Matrix and isinstance(node.op.A, np.ndarray) and d.bool():
            d.label("reuse:copy")
            return Node(linops.Matrix(node.op.A.copy()), node.D, node.mag, node.f32, node.kron,
                        "copy of " + node.desc, inv=node.inv)
        if type(node.op) is linops.Scaling and d.bool():
            d.label("reuse:copy")
            return Node(linops.Scaling(node.op.factors.copy()), node.D, node.mag, node.f32,
                        node.kron, "copy of " + node.desc, inv=node.inv)
        d.label("reuse:same")
        return Node(node.op, node.D, node.mag, node.f32, node.kron, "same " + node.desc,
                    inv=node.inv)
    node = _tree(d, shape, depth, allow_inv)
    if len(pool) < 12:
        pool.append(node)
    return node


def _tree(d, shape, depth, allow_inv=True):
    m, n = shape
    if depth <= 0:
        return leaf(d, shape)
    opts = ["leaf", "sum", "diff", "neg", "scale", "matmul", "matmul", "T", "astype",
            "sum_arr", "blockdiag"]
    if m * n > 1:
        opts += ["kron", "kron"]
    if m == n:
        opts += ["symmetrize", "idkron", "add_scalar"]
        if allow_inv:
            opts += ["inv"]
        r = int(round(n ** 0.5))
        if r * r == n and n > 1:
            opts += ["symkron", "symkron1", "vecsym"]
    kind = d.pick(opts)
    d.label("node:" + kind)
    if kind == "leaf":
        return leaf(d, shape)
    if kind in ("sum", "diff"):
        a, b = tree(d, shape, depth - 1, allow_inv), tree(d, shape, depth - 1, allow_inv)
        if kind == "sum":
            op, D = a.op + b.op, a.D + b.D
        else:
            op, D = a.op - b.op, a.D - b.D
        return Node(op, D, a.mag + b.mag, a.f32 or b.f32, a.kron or b.kron,
                    "(%s %s %s)" % (a.desc, "+-"[kind == "diff"], b.desc), inv=a.inv or b.inv)
    if kind == "sum_arr":
        a = tree(d, shape, depth - 1, allow_inv)
        dt = np.dtype(d.pick(DTYPES))
        A = values(d, shape, dt)
        arr = A if d.bool(3, 4) else scipy.sparse.csr_matrix(A)
        how = d.pick(["+", "-", "r+", "r-"])
        if how in ("r+", "r-") and not isinstance(arr, np.ndarray):
            arr = A
        if how == "+":
            op, D = a.op + arr, a.D + A
        elif how == "-":
            op, D = a.op - arr, a.D - A
        elif how == "r+":
            op, D = arr + a.op, A + a.D
        else:
            op, D = arr - a.op, A - a.D
        return Node(op, D, a.mag + np.max(np.abs(A)), a.f32 or dt == F32, a.kron,
                    "(%s %s array %s)" % (a.desc, how, fmt(A)), inv=a.inv)
    if kind == "add_scalar":
        a = tree(d, shape, depth - 1, allow_inv)
        s = d.pick(SCALARS)
        how = d.pick(["+", "-", "r+", "r-"])
        S = float(s) * np.eye(n)
        if how == "+":
            op, D = a.op + s, a.D + S
        elif how == "-":
            op, D = a.op - s, a.D - S
        elif how == "r+":
            op, D = s + a.op, S + a.D
        else:
            op, D = s - a.op, S - a.D
        return Node(op, D, a.mag + 3, a.f32 or isinstance(s, np.float32), a.kron,
                    "(%s %s scalar %r)" % (a.desc, how, s), inv=a.inv)
    if kind == "neg":
        a = tree(d, shape, depth - 1, allow_inv)
        return Node(-a.op, -a.D, a.mag, a.f32, a.kron, "-(%s)" % a.desc, inv=a.inv)
    if kind == "scale":
        a = tree(d, shape, depth - 1, allow_inv)
        s = d.pick(SCALARS)
        op = (a.op * s) if d.bool() else (s * a.op)
        return Node(op, float(s) * a.D, a.mag * max(1, abs(float(s))),
                    a.f32 or isinstance(s, np.float32), a.kron,
                    "(%r * %s)" % (s, a.desc), inv=a.inv)
    if kind == "matmul":
        k = d.int(1, 4)
        a = tree(d, (m, k), depth - 1, allow_inv)
        b = tree(d, (k, n), depth - 1, allow_inv)
        lazy = d.bool(1, 3)
        with pn.config(lazy_matrix_matrix_matmul=lazy):
            op = a.op @ b.op
        return Node(op, a.D @ b.D, k * a.mag * b.mag, a.f32 or b.f32, a.kron or b.kron,
                    "(%s @%s %s)" % (a.desc, "lazy" if lazy else "", b.desc),
                    inv=a.inv or b.inv)
    if kind == "T":
        a = tree(d, (n, m), depth - 1, allow_inv)
        op = d.pick([lambda o: o.T, lambda o: o.transpose(), lambda o: o.transpose(1, 0),
                     lambda o: o.transpose((-1, -2))])(a.op)
        return Node(op, a.D.T, a.mag, a.f32, a.kron, "(%s).T" % a.desc, inv=a.inv)
    if kind == "astype":
        a = tree(d, shape, depth - 1, allow_inv)
        dt = np.dtype(d.pick([np.float64, np.float32, np.float64]))
        op = a.op.astype(dt, copy=d.bool())
        d.check(op.dtype == dt, "astype(%s) of %s has dtype %s", dt, a.desc, op.dtype)
        return Node(op, a.D, a.mag, a.f32 or dt == F32, a.kron,
                    "(%s).astype(%s)" % (a.desc, dt), inv=a.inv)
    if kind == "symmetrize":
        a = tree(d, shape, depth - 1, allow_inv)
        if a.kron:
            return a
        return Node(a.op.symmetrize(), 0.5 * (a.D + a.D.T), a.mag, a.f32, False,
                    "(%s).symmetrize()" % a.desc, inv=a.inv)
    if kind == "blockdiag":
        if m < 2 or n < 2:
            a = tree(d, shape, depth - 1, allow_inv)
            return Node(linops.BlockDiagonalMatrix(a.op), a.D, a.mag, a.f32, a.kron,
                        "BlockDiag(%s)" % a.desc, inv=a.inv)
        nb = d.int(2, min(3, m, n))
        rs, cs = parts(d, m, nb), parts(d, n, nb)
        if m == n and d.bool(2, 3):
            cs = rs
        blocks = [tree(d, (r, c), depth - 1, allow_inv) for r, c in zip(rs, cs)]
        D = np.zeros(shape)
        i = j = 0
        for b in blocks:
            D[i:i + b.shape[0], j:j + b.shape[1]] = b.D
            i += b.shape[0]
            j += b.shape[1]
        return Node(linops.BlockDiagonalMatrix(*[b.op for b in blocks]), D,
                    max(b.mag for b in blocks), any(b.f32 for b in blocks),
                    any(b.kron for b in blocks),
                    "BlockDiag(%s)" % "; ".join(b.desc for b in blocks),
                    inv=any(b.inv for b in blocks))
    if kind == "kron":
        m1, n1 = d.pick(divisors(m)), d.pick(divisors(n))
        if m == n and d.bool(2, 3):
            n1 = m1
        a = tree(d, (m1, n1), depth - 1, allow_inv)
        b = tree(d, (m // m1, n // n1), depth - 1, allow_inv)
        return Node(linops.Kronecker(a.op, b.op), np.kron(a.D, b.D), a.mag * b.mag,
                    a.f32 or b.f32, True, "Kron(%s, %s)" % (a.desc, b.desc),
                    inv=a.inv or b.inv)
    if kind == "idkron":
        k = d.pick(divisors(n))
        b = tree(d, (n // k, n // k), depth - 1, allow_inv)
        return Node(linops.IdentityKronecker(k, b.op), np.kron(np.eye(k), b.D), b.mag,
                    b.f32, True, "IdKron(%d, %s)" % (k, b.desc), inv=b.inv)
    r = int(round(n ** 0.5))
    if kind == "symkron":
        a = tree(d, (r, r), depth - 1, allow_inv)
        b = tree(d, (r, r), depth - 1, allow_inv)
        D = 0.5 * (np.kron(a.D, b.D) + np.kron(b.D, a.D))
        return Node(linops.SymmetricKronecker(a.op, b.op), D, a.mag * b.mag,
                    a.f32 or b.f32, True, "SymKron(%s, %s)" % (a.desc, b.desc),
                    inv=a.inv or b.inv)
    if kind == "symkron1":
        a = tree(d, (r, r), depth - 1, allow_inv)
        return Node(linops.SymmetricKronecker(a.op), np.kron(a.D, a.D), a.mag ** 2,
                    a.f32, True, "SymKron(%s)" % a.desc, inv=a.inv)
    if kind == "vecsym":
        D = np.zeros((n, n))
        for i in range(r):
            for j in range(r):
                D[i * r + j, i * r + j] += 0.5
                D[i * r + j, j * r + i] += 0.5
        return Node(linops.Symmetrize(r), D, desc="Symmetrize(%d)" % r)
    if kind == "inv":
        a = tree(d, shape, depth - 1, False)
        if not well_conditioned(a.D):
            return a
        Di = np.linalg.inv(a.D)
        c = np.linalg.cond(a.D)
        return Node(a.op.inv(), Di, np.max(np.abs(Di)) * c * max(a.mag, 1), a.f32, a.kron,
                    "(%s).inv()" % a.desc, inv=True)
    raise AssertionError(kind)


def parts(d, total, k):
    """total split into k positive parts"""
    rest = total - k
    out = []
    for i in range(k - 1):
        x = d.choice(rest)
        out.append(1 + x)
        rest -= x
    out.append(1 + rest)
    return out


def well_conditioned(D, c=200.0):
    if D.shape[0] != D.shape[1]:
        return False
    s = np.linalg.svd(D, compute_uv=False)
    return bool(s[-1] > 1e-2 and s[0] / s[-1] < c)


def close(d, got, want, tol, what):
    got = np.asarray(got)
    want = np.asarray(want)
    d.check(got.shape == want.shape,
            lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if want.size == 0:
        return
    err = np.max(np.abs(got - want)) if np.all(np.isfinite(got)) else np.inf
    d.check(err <= tol, lambda: "%s: error %.3g > tol %.3g\n got=%s\n want=%s"
            % (what, err, tol, fmt(got), fmt(want)))


def gen_shape(d, maxdim=6, square=False):
    m = d.size(1, maxdim, 24, 25)
    if square:
        return (m, m)
    n = m if d.bool() else d.size(1, maxdim, 24, 25)
    return (m, n)
