"""C03 operators are values: answers do not depend on the history of queries."""
import numpy as np

from probnum import linops
from pbt.runner import Sub
from . import liblinops as L
from . import c02

RULE = ("A case is a history of 3-12 queries (with repetitions, interleaved with truthful "
        "property assignments and derived operators that are kept and queried later) on "
        "one operator; every answer is compared with the dense matrix.")

ERR = (np.linalg.LinAlgError,)


def pool_step(d, pool, log):
    """Draw a member of the pool, optionally derive a new member, or query it."""
    k = d.choice(len(pool) - 1)
    node = pool[k]
    n = node.D.shape[0]
    sq = node.D.shape[0] == node.D.shape[1]
    act = d.pick(["query", "query", "query", "derive", "flag", "combine", "attrs"])
    if act == "combine" and len(pool) < 6:
        other = d.pick(pool) if d.bool() else L.tree(d, node.shape, d.int(0, 1))
        how = d.pick(["+", "-", "@", "r@"])
        a, b = (other, node) if how == "r@" else (node, other)
        if how in "+-":
            if a.shape != b.shape:
                return False
            op = a.op + b.op if how == "+" else a.op - b.op
            D = a.D + b.D if how == "+" else a.D - b.D
            mag = a.mag + b.mag
        else:
            if a.shape[1] != b.shape[0]:
                return False
            op, D, mag = a.op @ b.op, a.D @ b.D, a.shape[1] * a.mag * b.mag
        log.append("op%d := op%d %s %s" % (len(pool), k, how, other.desc))
        pool.append(L.Node(op, D, mag, a.f32 or b.f32, a.kron or b.kron, other.desc,
                           inv=a.inv or b.inv))
        return False
    if act == "attrs":
        op = node.op
        if isinstance(op, linops.Scaling):
            f = np.diag(node.D)
            log.append("op%d.is_isotropic" % k)
            if not node.inv and not node.f32:
                d.check(bool(op.is_isotropic) == bool(np.all(f == f[0])),
                        "is_isotropic is %s for %s", op.is_isotropic, f)
                if d.bool():
                    L.close(d, op.factors, f, node.tol * 10, "factors")
                if op.is_isotropic:
                    L.close(d, op.scalar, f[0], node.tol * 10, "scalar")
            return True
        if isinstance(op, linops.Kronecker):
            log.append("op%d.A, B" % k)
            L.close(d, np.kron(op.A.todense(), op.B.todense()), node.D, node.tol * 10,
                    "Kronecker factors")
            return True
        if isinstance(op, linops.Matrix):
            A = op.A.toarray() if hasattr(op.A, "toarray") else op.A
            L.close(d, A, node.D, node.tol * 10, "Matrix.A")
        return False
    if act == "derive" and len(pool) < 5:
        how = d.pick(["T", "neg", "scale", "astype", "inv", "sumself", "prodself", "gram"])
        log.append("op%d := %s(op%d)" % (len(pool), how, k))
        if how == "T":
            pool.append(L.Node(node.op.T, node.D.T, node.mag, node.f32, node.kron,
                               inv=node.inv))
        elif how == "neg":
            pool.append(L.Node(-node.op, -node.D, node.mag, node.f32, node.kron, inv=node.inv))
        elif how == "scale":
            pool.append(L.Node(2.5 * node.op, 2.5 * node.D, 3 * node.mag, node.f32, node.kron,
                               inv=node.inv))
        elif how == "astype":
            pool.append(L.Node(node.op.astype(np.float64, copy=d.bool()), node.D, node.mag,
                               node.f32, node.kron, inv=node.inv))
        elif how == "inv" and sq and L.well_conditioned(node.D):
            Di = np.linalg.inv(node.D)
            pool.append(L.Node(node.op.inv(), Di, np.linalg.cond(node.D) * node.mag *
                               np.max(np.abs(Di)), node.f32, node.kron, inv=True))
        elif how == "sumself" and sq:
            pool.append(L.Node(node.op + node.op.T, node.D + node.D.T, 2 * node.mag, node.f32,
                               node.kron, inv=node.inv))
        elif how == "prodself" and sq:
            pool.append(L.Node(node.op @ node.op, node.D @ node.D, n * node.mag ** 2,
                               node.f32, node.kron, inv=node.inv))
        elif how == "gram":
            pool.append(L.Node(node.op @ node.op.T, node.D @ node.D.T,
                               node.D.shape[1] * node.mag ** 2, node.f32, node.kron,
                               inv=node.inv))
        return False
    if act == "flag":
        D = node.D
        if sq:
            exact_sym = np.array_equal(D, D.T)
            name = d.pick(["symmetric", "lower_triangular", "upper_triangular",
                           "positive_definite"])
            true = {"symmetric": exact_sym,
                    "lower_triangular": not np.any(np.triu(D, 1)),
                    "upper_triangular": not np.any(np.tril(D, -1))}.get(name)
            if name == "positive_definite":
                if node.op.is_symmetric is not True or node.mag > 1e4:
                    return False
                ev = np.linalg.eigvalsh(D)
                if abs(ev[0]) < 1e-2 * max(1, abs(ev[-1])):
                    return False
                true = bool(ev[0] > 0)
            if node.inv or node.f32:
                return False
            cur = getattr(node.op, "is_" + name)
            if cur is None:
                setattr(node.op, "is_" + name, bool(true))
                log.append("op%d.is_%s = %s" % (k, name, true))
        return False
    q = d.pick(c02.SQ if sq else c02.ANY)
    log.append("op%d.%s" % (k, q))
    return c02.query(d, node, q)


def history(d, small=False):
    if small:
        n = d.size(2, 6, 16)
        shape = (n, n)
        node = L.leaf(d, shape, ["aniso", "iso", "sym", "spd", "tri", "matrix", "sparse"])
        node = _history_on(d, node)
        return
    shape = L.gen_shape(d, 4, square=d.bool(5, 6))
    node = L.tree(d, shape, d.weighted([(3, 0), (4, 1), (2, 2)])) if d.bool(2, 3) or \
        shape[0] != shape[1] else c02.spd_tree(d, shape[0], d.int(0, 1))
    _history_on(d, node)


def leaf_history(d):
    """Histories on elementary operators of larger size."""
    history(d, True)


def _history_on(d, node):
    d.note("expression", node.desc)
    if node.mag > 1e5:
        d.inconclusive("magnitude")
    pool, log = [node], []
    d.note("history", log)
    decided = 0
    for _ in range(d.size(3, 12, 30)):
        decided += bool(pool_step(d, pool, log))
        if any(p.mag > 1e6 for p in pool):
            break
    for k, p in enumerate(pool):
        L.close(d, p.op.todense(), p.D, p.tol * 10, "op%d.todense() at the end" % k)
    if decided >= 2:
        d.nontrivial()
    d.label("decided>=4" if decided >= 4 else "decided<4")


def repeat(d):
    """The same query twice (with another one in between) gives the identical answer."""
    shape = L.gen_shape(d, 4, square=True)
    node = L.tree(d, shape, d.int(0, 2)) if d.bool() else c02.spd_tree(d, shape[0], d.int(0, 2))
    d.note("expression", node.desc)
    op = node.op
    if node.mag > 1e5 or not L.well_conditioned(node.D):
        d.label("skipped-ill-conditioned")
        return
    b = np.arange(1.0, shape[0] + 1)
    fns = {
        "todense": lambda: op.todense(), "trace": lambda: op.trace(), "det": lambda: op.det(),
        "logabsdet": lambda: op.logabsdet(), "rank": lambda: op.rank(),
        "eigvals": lambda: np.sort_complex(op.eigvals()), "cond": lambda: op.cond(),
        "condfro": lambda: op.cond("fro"), "cond1": lambda: op.cond(1),
        "diagonal": lambda: op.diagonal(), "solve": lambda: op.solve(b),
        "inv": lambda: op.inv().todense(), "matvec": lambda: op @ b, "rmatvec": lambda: b @ op,
    }
    names = sorted(fns)
    a, c = d.pick(names), d.pick(names)
    d.note("queries", [a, c, a])
    r1 = np.array(fns[a](), copy=True)
    fns[c]()
    r2 = np.array(fns[a](), copy=True)
    d.nontrivial()
    t = (1e-2 if node.f32 else 1e-6) * max(1.0, float(np.max(np.abs(r1)))) * node.mag
    if a == "eigvals":
        r1, r2 = np.sum(r1), np.sum(r2)
    L.close(d, r2, r1, t, "%s asked again after %s" % (a, c))


SUBS = [
    Sub("history", history, 5000, 120000, "at least two decidable queries in the history"),
    Sub("leaf_history", leaf_history, 3000, 60000, "as history"),
    Sub("repeat", repeat, 2500, 40000, "well-conditioned operator, query-other-query"),
]
