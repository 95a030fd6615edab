"""C02 derived quantities, factorizations and structural claims match the dense matrix."""
import numpy as np
import scipy.linalg
import scipy.sparse

from probnum import linops
from pbt.runner import Sub
from . import liblinops as L

RULE = ("A case is a random square (or rectangular) operator expression; every derived "
        "quantity drawn for it is compared with the same quantity of its dense matrix.")

LinAlgError = np.linalg.LinAlgError


def rank_decidable(D):
    s = np.linalg.svd(D, compute_uv=False)
    if s.size == 0 or s[0] < 1e-6:
        return s[0] == 0
    r = s / s[0]
    return not np.any((r > 1e-11) & (r < 1e-3))


def flags_truthful(d, node, op=None, D=None, what="operator"):
    op = node.op if op is None else op
    D = node.D if D is None else D
    t = node.tol * 10
    sq = D.shape[0] == D.shape[1]
    if t > 1e-4 * max(1e-3, np.max(np.abs(D))):
        return  # the tolerance is too coarse to decide structure
    sym = sq and np.max(np.abs(D - D.T)) <= t
    low = np.max(np.abs(np.triu(D, 1))) <= t if D.size else True
    upp = np.max(np.abs(np.tril(D, -1))) <= t if D.size else True
    f = op.is_symmetric
    if f is not None:
        d.check(bool(f) == sym, "%s claims is_symmetric=%s, dense says %s" % (what, f, sym))
    f = op.is_lower_triangular
    if f is not None:
        d.check(bool(f) == low, "%s claims is_lower_triangular=%s but %s" % (what, f, low))
    f = op.is_upper_triangular
    if f is not None:
        d.check(bool(f) == upp, "%s claims is_upper_triangular=%s but %s" % (what, f, upp))
    f = op.is_positive_definite
    if f is not None and sq:
        ev = np.linalg.eigvalsh(0.5 * (D + D.T))
        scale = max(1.0, np.max(np.abs(ev)))
        if f:
            d.check(sym and ev[0] > -100 * t, "%s claims positive definite, smallest "
                    "eigenvalue %g" % (what, ev[0]))
            d.check(np.all(np.any(D != 0, axis=1)), "%s claims positive definite, but has a "
                    "zero row" % what)
        elif sym:
            d.check(ev[0] < 1e-3 * scale + 100 * t, "%s claims not positive definite, "
                    "smallest eigenvalue %g" % (what, ev[0]))


def query(d, node, q):
    """One derived quantity against the dense oracle. Returns False if undecidable."""
    op, D, tol = node.op, node.D, node.tol
    m, n = D.shape
    if q == "diagonal":
        L.close(d, op.diagonal(), np.diagonal(D), tol, "diagonal")
        return True
    if q == "flags":
        flags_truthful(d, node)
        return True
    if q == "rank":
        if not rank_decidable(D) or node.f32 or node.inv or node.mag > 1e5:
            return False
        d.check(int(op.rank()) == int(np.linalg.matrix_rank(D)),
                lambda: "rank %s expected %s" % (op.rank(), np.linalg.matrix_rank(D)))
        return True
    if q == "todense":
        L.close(d, op.todense(), D, tol, "todense")
        return True
    if q == "matvec":
        x = L.values(d, (n, 2), np.dtype(float))
        L.close(d, op @ x, D @ x, 100 * tol, "matmul")
        return True
    if q == "T":
        L.close(d, op.T.todense(), D.T, tol, "T")
        flags_truthful(d, node, op.T, D.T, "transpose")
        return True
    # --- square only --------------------------------------------------------
    if q == "symmetrize":
        S = op.symmetrize()
        Sd = S.todense()
        d.check(S.is_symmetric is True, "symmetrize() result not flagged symmetric")
        L.close(d, Sd, Sd.T, tol * 10, "symmetrize() result is not symmetric")
        if not node.kron:
            L.close(d, Sd, 0.5 * (D + D.T), tol * 10, "symmetrize")
        return True
    if q == "trace":
        L.close(d, op.trace(), np.trace(D), tol * n * 10, "trace")
        return True
    if q == "eigvals":
        if node.mag > 1e4:
            return False
        ev = np.asarray(op.eigvals())
        d.check(ev.shape == (n,), "eigvals shape %s" % (ev.shape,))
        d.check(bool(np.all(np.isfinite(ev))), "eigvals not finite")
        # power sums determine the multiset of eigenvalues (Newton) and are stable
        Dk = np.eye(n)
        nrm = max(1.0, np.linalg.norm(D, 2))
        for k in range(1, n + 1):
            Dk = Dk @ D
            L.close(d, np.sum(ev.astype(complex) ** k), np.trace(Dk),
                    1e4 * n * k * tol * nrm ** k + (1e-2 * nrm**k if node.f32 else 0),
                    "power sum %d of the eigenvalues" % k)
        return True
    cond2 = np.linalg.cond(D)
    if q in ("det", "logabsdet"):
        if node.mag > 1e5:
            return False
        bound = float(np.prod(np.maximum(np.linalg.norm(D, axis=1), 1.0)))
        if q == "det":
            w = np.linalg.det(D)
            t = (2e-3 if node.f32 else 1e-7) * (bound * (node.mag if node.inv else 1) + 1)
            L.close(d, op.det(), w, t, "det")
            return True
        if not (cond2 < 1e5):
            return False
        L.close(d, op.logabsdet(), np.linalg.slogdet(D)[1],
                (1e-3 if node.f32 else 1e-7) * cond2 * n, "logabsdet")
        return True
    if q.startswith("cond"):
        p = {"cond": None, "cond2": 2, "cond1": 1, "condinf": np.inf, "condfro": "fro",
             "cond-2": -2, "cond-1": -1, "cond-inf": -np.inf}[q]
        if not (cond2 < 1e4):
            return False
        w = np.linalg.cond(D, p)
        L.close(d, op.cond(p) if p is not None else op.cond(), w,
                (1e-2 if node.f32 else 1e-6) * cond2 * max(1, w), "cond(p=%s)" % p)
        return True
    if q in ("inv", "solve", "solvestack", "invT"):
        if not L.well_conditioned(D) or node.mag > 1e6:
            return False
        Di = np.linalg.inv(D)
        t = node.tol * cond2 * max(1, np.max(np.abs(Di))) ** 2 * 100 * n
        if q == "inv":
            I = op.inv()
            d.check(tuple(I.shape) == (n, n), "inv shape")
            L.close(d, I.todense(), Di, t, "inv().todense()")
            x = L.values(d, (n, 2), np.dtype(float))
            L.close(d, I @ x, Di @ x, 10 * t, "inv() @ x")
            L.close(d, x.T @ I, x.T @ Di, 10 * t, "x @ inv()")
            flags_truthful(d, L.Node(I, Di, mag=t / 1e-8))
        elif q == "invT":
            L.close(d, op.T.inv().todense(), Di.T, t, "T.inv()")
            L.close(d, op.inv().T.todense(), Di.T, t, "inv().T")
            x = L.values(d, (n, 2), np.dtype(float))
            L.close(d, op.inv().T @ x, Di.T @ x, 10 * t, "inv().T @ x")
        else:
            dt = np.dtype(d.pick([np.float64, np.int64, np.float32]))
            shape = d.pick([(n,), (n, 2), (n, 1)]) if q == "solve" else \
                d.pick([(2, n, 1), (1, n, 3), (2, 2, n, 1)])
            b = L.values(d, shape, dt)
            b0 = b.copy()
            L.close(d, op.solve(b), Di @ b, 10 * t * (1e3 if dt == L.F32 else 1), q)
            d.check(np.array_equal(b, b0), "solve modified b")
        return True
    if q == "cholesky":
        if op.is_symmetric is not True:
            try:
                op.cholesky()
            except LinAlgError:
                return True
            d.fail("cholesky() of an operator not known to be symmetric succeeded")
        ev = np.linalg.eigvalsh(D)
        scale = max(1.0, abs(ev[-1]), abs(ev[0]))
        lower = d.bool()
        if ev[0] > 2e-2 * scale and node.mag < 1e5:
            C = op.cholesky(lower=lower)
            Cd = C.todense()
            t = node.tol * 100 * n
            L.close(d, Cd @ Cd.T if lower else Cd.T @ Cd, D, t, "cholesky product")
            off = np.triu(Cd, 1) if lower else np.tril(Cd, -1)
            L.close(d, off, 0 * off, t, "cholesky factor is not triangular")
            d.check(bool(np.all(np.diagonal(Cd) > 0)), "cholesky diagonal not positive")
            d.check((C.is_lower_triangular if lower else C.is_upper_triangular) is True,
                    "cholesky factor is not flagged triangular")
            O = op.cholesky(lower=not lower).todense()
            L.close(d, O, Cd.T, t, "upper/lower cholesky factors are not transposes")
            d.check(op.is_positive_definite is True, "PD flag after cholesky")
            d.label("chol-ok")
            return True
        if ev[0] < -2e-2 * scale and node.mag < 1e5:
            try:
                op.cholesky(lower=lower)
            except LinAlgError:
                d.check(op.is_positive_definite is False, "PD flag after failed cholesky")
                d.label("chol-fail")
                return True
            d.fail("cholesky of an indefinite operator succeeded")
        return False
    raise AssertionError(q)


ANY = ["diagonal", "flags", "rank", "T", "todense", "matvec"]
SQ = ANY + ["symmetrize", "trace", "eigvals", "det", "logabsdet", "cond", "cond2", "cond1",
            "condinf", "condfro", "cond-2", "cond-1", "cond-inf", "inv", "invT", "solve",
            "solvestack", "cholesky"]
NONSQ_RAISE = ["eigvals", "cond", "det", "logabsdet", "trace", "inv", "symmetrize"]


def derived(d):
    sq = d.bool(5, 6)
    shape = L.gen_shape(d, 5 if not d.bool(1, 3) else 6, square=sq)
    node = L.tree(d, shape, d.weighted([(2, 1), (4, 2), (2, 3)]))
    d.note("expression", node.desc)
    if node.mag > 1e7:
        d.inconclusive("magnitude")
    qs = SQ if shape[0] == shape[1] else ANY
    # a fresh quantity each time: no caches shared between the queries of this sub-check
    q = d.pick(qs)
    d.note("query", q)
    d.label("q:" + q)
    if shape[0] != shape[1] and d.bool(1, 3):
        r = d.pick(NONSQ_RAISE + ["solve"])
        try:
            getattr(node.op, r)(*([np.ones(shape[0])] if r == "solve" else []))
        except LinAlgError:
            d.nontrivial()
            d.label("nonsquare-raise")
            return
        d.fail("%s() of a non-square operator did not raise LinAlgError" % r)
    ok = query(d, node, q)
    if ok:
        d.nontrivial()
        d.label("decided:" + q)


def spd_tree(d, n, depth):
    """Symmetric positive definite expressions whose symmetry the library is told."""
    kind = d.pick(["leaf", "leaf", "iso", "aniso", "id"]) if depth == 0 else d.pick(
        ["sum", "scale", "kron", "idkron", "block", "symkron", "inv", "T", "astype",
         "addscal", "symmetrize", "indef", "blockleaf", "krontri"])
    dt = np.dtype(d.pick([np.float64, np.float64, np.int64, np.float32]))
    f32 = dt == L.F32
    N = L.Node
    if kind == "leaf":
        A = L.spd(d, n, dt)
        if d.bool(1, 3):
            op = linops.LambdaLinearOperator((n, n), dt, matmul=lambda x: A @ x)
        elif d.bool(1, 4):
            op = linops.Matrix(scipy.sparse.csr_matrix(A))
        else:
            op = linops.Matrix(A.copy())
        op.is_symmetric = True
        claim = d.bool()
        if claim:
            op.is_positive_definite = True
        return N(op, A, f32=f32, desc="spd%s(%s,%s)" % ("!" if claim else "", L.fmt(A), dt))
    if kind == "indef":
        A = L.spd(d, n, dt) - 4 * np.eye(n, dtype=dt)
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        return N(op, A, f32=f32, desc="symindef(%s,%s)" % (L.fmt(A), dt))
    if kind == "iso":
        s = np.asarray(d.int(1, 4), dt)[()]
        return N(linops.Scaling(s, shape=n), s * np.eye(n), f32=f32,
                 desc="Scaling(%s:%s,%d)" % (s, dt, n))
    if kind == "aniso":
        s = d.int_array((n,), 1, 4, dtype=dt)
        return N(linops.Scaling(s), np.diag(s), f32=f32, desc="Scaling(%s,%s)" % (L.fmt(s), dt))
    if kind == "id":
        return N(linops.Identity(n, dtype=dt), np.eye(n), f32=f32, desc="Identity(%d)" % n)
    if kind in ("sum",):
        a, b = spd_tree(d, n, depth - 1), spd_tree(d, n, depth - 1)
        return N(a.op + b.op, a.D + b.D, a.mag + b.mag, a.f32 or b.f32, a.kron or b.kron,
                 "(%s + %s)" % (a.desc, b.desc), inv=a.inv or b.inv)
    if kind == "addscal":
        a = spd_tree(d, n, depth - 1)
        s = d.pick([1, 2.5, -1, np.float32(0.5)])
        return N(a.op + s, a.D + float(s) * np.eye(n), a.mag + 3, a.f32, a.kron,
                 "(%s + %r)" % (a.desc, s), inv=a.inv)
    if kind == "scale":
        a = spd_tree(d, n, depth - 1)
        s = d.pick([2, 0.5, 3.0, -1, -0.5, 1, 0, 0])
        return N(s * a.op, s * a.D, a.mag * 3, a.f32, a.kron, "(%r * %s)" % (s, a.desc),
                 inv=a.inv)
    if kind == "kron":
        k = d.pick(L.divisors(n))
        a, b = spd_tree(d, k, depth - 1), spd_tree(d, n // k, depth - 1)
        if d.bool(1, 5):
            a = N(-a.op, -a.D, a.mag, a.f32, a.kron, "-" + a.desc, inv=a.inv)
            b = N(-b.op, -b.D, b.mag, b.f32, b.kron, "-" + b.desc, inv=b.inv)
        return N(linops.Kronecker(a.op, b.op), np.kron(a.D, b.D), a.mag * b.mag,
                 a.f32 or b.f32, True, "Kron(%s, %s)" % (a.desc, b.desc), inv=a.inv or b.inv)
    if kind == "krontri":
        k = d.pick(L.divisors(n))
        a, b = L.leaf(d, (k, k), ["tri", "aniso"]), L.leaf(d, (n // k, n // k), ["tri", "sym"])
        return N(linops.Kronecker(a.op, b.op), np.kron(a.D, b.D), a.mag * b.mag,
                 a.f32 or b.f32, True, "Kron(%s, %s)" % (a.desc, b.desc))
    if kind == "idkron":
        k = d.pick(L.divisors(n))
        b = spd_tree(d, n // k, depth - 1)
        return N(linops.IdentityKronecker(k, b.op), np.kron(np.eye(k), b.D), b.mag, b.f32,
                 True, "IdKron(%d, %s)" % (k, b.desc), inv=b.inv)
    if kind == "symkron":
        r = int(round(n ** 0.5))
        if r * r != n:
            return spd_tree(d, n, 0)
        a = spd_tree(d, r, depth - 1)
        if d.bool():
            return N(linops.SymmetricKronecker(a.op), np.kron(a.D, a.D), a.mag ** 2, a.f32,
                     True, "SymKron(%s)" % a.desc, inv=a.inv)
        b = spd_tree(d, r, depth - 1)
        return N(linops.SymmetricKronecker(a.op, b.op),
                 0.5 * (np.kron(a.D, b.D) + np.kron(b.D, a.D)), a.mag * b.mag,
                 a.f32 or b.f32, True, "SymKron(%s, %s)" % (a.desc, b.desc),
                 inv=a.inv or b.inv)
    if kind in ("block", "blockleaf"):
        if n < 2:
            return spd_tree(d, n, 0)
        ps = L.parts(d, n, 2)
        bl = [spd_tree(d, p, depth - 1 if kind == "block" else 0) for p in ps]
        return N(linops.BlockDiagonalMatrix(*[b.op for b in bl]),
                 scipy.linalg.block_diag(*[b.D for b in bl]), max(b.mag for b in bl),
                 any(b.f32 for b in bl), any(b.kron for b in bl),
                 "Block(%s)" % "; ".join(b.desc for b in bl), inv=any(b.inv for b in bl))
    if kind == "T":
        a = spd_tree(d, n, depth - 1)
        return N(a.op.T, a.D.T, a.mag, a.f32, a.kron, "(%s).T" % a.desc, inv=a.inv)
    if kind == "astype":
        a = spd_tree(d, n, depth - 1)
        dt = np.dtype(d.pick([np.float64, np.float32]))
        return N(a.op.astype(dt), a.D, a.mag, a.f32 or dt == L.F32, a.kron,
                 "(%s).astype(%s)" % (a.desc, dt), inv=a.inv)
    if kind == "symmetrize":
        a = L.tree(d, (n, n), 1)
        a = N(a.op @ a.op.T + 1.0, a.D @ a.D.T + np.eye(n), a.mag ** 2 * n + 1, a.f32, a.kron,
              "(%s) gram+1" % a.desc, inv=a.inv)
        if a.kron:
            return spd_tree(d, n, 0)
        return N(a.op.symmetrize(), a.D, a.mag, a.f32, a.kron, "sym(%s)" % a.desc, inv=a.inv)
    if kind == "inv":
        a = spd_tree(d, n, depth - 1)
        if not L.well_conditioned(a.D):
            return a
        Di = np.linalg.inv(a.D)
        return N(a.op.inv(), Di, np.linalg.cond(a.D) * a.mag, a.f32, a.kron,
                 "(%s).inv()" % a.desc, inv=True)
    raise AssertionError(kind)


def spd_case(d):
    n = d.pick([1, 2, 3, 4, 4, 6, 9]) if not d.bool(1, 20) else d.pick([12, 16, 20])
    node = spd_tree(d, n, d.int(0, 2))
    d.note("expression", node.desc)
    if node.mag > 1e6:
        d.inconclusive("magnitude")
    q = d.pick(["cholesky", "cholesky", "cholesky", "flags", "solve", "solvestack", "inv",
                "logabsdet", "det", "eigvals", "cond", "rank", "todense", "invT"])
    d.note("query", q)
    d.label("q:" + q)
    d.label("symflag:%s" % node.op.is_symmetric, "pdflag:%s" % node.op.is_positive_definite)
    # a user may tell the library what is true
    if node.op.is_symmetric is None and np.allclose(node.D, node.D.T, atol=1e-12) and d.bool():
        node.op.is_symmetric = True
        d.label("user-set-sym")
    flags_truthful(d, node)
    if query(d, node, q):
        d.nontrivial()
        d.label("decided:" + q)


def singular(d):
    """Structurally singular operators: solve/inv-application raises, rank/det/cond agree."""
    n = d.int(1, 4)
    kind = d.pick(["zero", "iso0", "aniso0", "zerorow", "zerocol", "tri0", "scaled0"])
    if kind == "zero":
        node = L.Node(linops.Zero((n, n)), np.zeros((n, n)), desc="Zero(%d)" % n)
    elif kind == "iso0":
        dt = d.pick([np.float64, np.int64, np.float32])
        node = L.Node(linops.Scaling(np.dtype(dt).type(0), shape=n), np.zeros((n, n)),
                      desc="Scaling(0:%s,%d)" % (np.dtype(dt), n))
    elif kind == "aniso0":
        dt = np.dtype(d.pick([np.float64, np.int64]))
        s = L.values(d, (n,), dt)
        s[d.choice(n - 1)] = 0
        node = L.Node(linops.Scaling(s), np.diag(s), desc="Scaling(%s)" % L.fmt(s))
    elif kind in ("zerorow", "zerocol"):
        A = L.values(d, (n, n), np.dtype(float))
        i = d.choice(n - 1)
        if kind == "zerorow":
            A[i] = 0
        else:
            A[:, i] = 0
        node = L.Node(linops.Matrix(A), A, desc="Matrix(%s)" % L.fmt(A))
    elif kind == "tri0":
        A = np.tril(L.values(d, (n, n), np.dtype(float)))
        i = d.choice(n - 1)
        A[i, i] = 0
        op = linops.Matrix(A)
        op.is_lower_triangular = True
        node = L.Node(op, A, desc="Matrix[lower](%s)" % L.fmt(A))
    else:
        a = L.leaf(d, (n, n), ["matrix", "lambda", "aniso"])
        node = L.Node(0 * a.op, 0 * a.D, desc="0 * %s" % a.desc)
    wrap = d.pick(["none", "T", "kron", "block", "neg", "scale"])
    op, D = node.op, node.D
    if wrap == "T":
        op, D = op.T, D.T
    elif wrap == "kron":
        op, D = linops.Kronecker(linops.Identity(2), op), np.kron(np.eye(2), D)
    elif wrap == "block":
        op = linops.BlockDiagonalMatrix(linops.Identity(2), op)
        D = scipy.linalg.block_diag(np.eye(2), D)
    elif wrap == "neg":
        op, D = -op, -D
    elif wrap == "scale":
        op, D = 2.0 * op, 2 * D
    node = L.Node(op, D, desc="%s(%s)" % (wrap, node.desc))
    d.note("expression", node.desc)
    d.nontrivial()
    q = d.pick(["solve", "invapply", "rank", "det", "cond", "logabsdet"])
    d.note("query", q)
    N = D.shape[0]
    if q in ("rank",):
        if rank_decidable(D):
            query(d, node, q)
    elif q == "det":
        query(d, node, q)
    elif q == "logabsdet":
        v = float(op.logabsdet())
        d.check(v == -np.inf or v < -20, "logabsdet of a singular operator is %s" % v)
    elif q == "cond":
        v = float(op.cond())
        d.check(v > 1e10 or np.isnan(v), "cond of a singular operator is %s" % v)
    else:
        b = np.ones(N)
        try:
            r = op.solve(b) if q == "solve" else op.inv() @ b
        except LinAlgError:
            return
        # An LU factorisation of a zero-diagonal triangle may round its zero pivot; the
        # solution is then huge instead of undefined.
        if kind == "tri0" and wrap != "none" and not np.all(np.abs(r) < 1e10):
            d.inconclusive("rounded zero pivot")
        d.fail("%s with a singular operator returned %s instead of raising" % (q, r))


def blocks(d):
    """Block-diagonal operators with (also rectangular) blocks of known structure."""
    nb = d.int(1, 3)
    bl = []
    for _ in range(nb):
        sh = L.gen_shape(d, 3)
        bl.append(L.leaf(d, sh, ["tri", "sym", "spd", "aniso", "matrix", "zero"]))
    D = np.zeros((sum(b.shape[0] for b in bl), sum(b.shape[1] for b in bl)))
    i = j = 0
    for b in bl:
        D[i:i + b.shape[0], j:j + b.shape[1]] = b.D
        i, j = i + b.shape[0], j + b.shape[1]
    node = L.Node(linops.BlockDiagonalMatrix(*[b.op for b in bl]), D,
                  f32=any(b.f32 for b in bl),
                  desc="Block(%s)" % "; ".join(b.desc for b in bl))
    d.note("expression", node.desc)
    qs = SQ if D.shape[0] == D.shape[1] else ANY
    q = d.pick(["flags", d.pick(qs)])
    d.note("query", q)
    d.label("rect-blocks" if any(b.shape[0] != b.shape[1] for b in bl) else "square-blocks")
    if query(d, node, q):
        d.nontrivial()


def setters(d):
    """Property setters: consistent, write-once, reject impossible claims."""
    shape = L.gen_shape(d, 3)
    A = L.values(d, shape, np.dtype(float))
    op = linops.Matrix(A)
    state = {"symmetric": None if shape[0] == shape[1] else False, "lower_triangular": None,
             "upper_triangular": None, "positive_definite": None}
    log = []
    for _ in range(d.size(1, 6, 20)):
        name = d.pick(sorted(state))
        val = d.pick([None, True, False])
        log.append((name, val))
        cur = state[name]
        expect_err = False
        if name == "symmetric" and val is True and shape[0] != shape[1]:
            expect_err = True
        elif name == "positive_definite" and val is True and not state["symmetric"]:
            expect_err = True
        elif cur == val:
            pass
        elif cur is not None:
            expect_err = True
        try:
            setattr(op, "is_" + name, val)
            err = False
        except (ValueError, TypeError):
            err = True
        d.note("history", log)
        d.check(err == expect_err, "setting %s=%s after %s: raised=%s expected=%s"
                % (name, val, state, err, expect_err))
        if not err and val is not None:
            state[name] = val
        for k, v in state.items():
            d.check(getattr(op, "is_" + k) == v, "property %s is %s, expected %s"
                    % (k, getattr(op, "is_" + k), v))
    d.nontrivial()


SUBS = [
    Sub("derived", derived, 9000, 250000, "the drawn quantity is numerically decidable"),
    Sub("spd", spd_case, 5000, 120000, "symmetric expressions; quantity decidable"),
    Sub("singular", singular, 1200, 20000, "operator is singular by construction"),
    Sub("blocks", blocks, 1500, 20000, "block-diagonal, also with rectangular blocks"),
    Sub("setters", setters, 400, 5000, "history of property assignments"),
]
