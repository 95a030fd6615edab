"""C25 Configuration and stopping criteria: scoped options and Boolean algebra, over operation histories."""
import numpy as np

import probnum
from probnum import LambdaStoppingCriterion, StoppingCriterion, linops
from probnum._config import Configuration
from pbt.runner import Sub

RULE = ("A case is a history of registrations, assignments, nested contexts, exceptions and generator "
        "suspensions on a configuration, or a Boolean expression of criteria with an input; non-trivial if a "
        "context was left or a composed criterion evaluated.")


class Boom(Exception):
    pass


def run(d, cfg, model, keys, depth, log):
    """Random operations on cfg mirrored in the dict model (None values are legal)."""
    for _ in range(d.size(1, 5, 15)):
        op = d.weighted([(3, "ctx"), (3, "set"), (1, "unknown-set"), (1, "unknown-get"), (1, "unknown-ctx"),
                         (1, "register"), (1, "register-again"), (1, "raise")])
        if op == "set" and model:
            k = d.pick(sorted(model))
            v = value(d)
            setattr(cfg, k, v)
            model[k] = v
            log.append("set")
        elif op == "register" and len(keys) < 6:
            k = "opt%d" % len(keys)
            v = value(d)
            cfg.register(k, v, "text")
            keys.append(k)
            model[k] = v
        elif op == "register-again" and model:
            k = d.pick(sorted(model))
            try:
                cfg.register(k, value(d), "again")
            except KeyError:
                pass
            else:
                d.fail("option registered twice")
        elif op == "unknown-get":
            try:
                cfg.nothing
            except AttributeError:
                pass
            else:
                d.fail("unknown option read")
        elif op == "unknown-set":
            try:
                cfg.nothing = 1
            except AttributeError:
                pass
            else:
                d.fail("unknown option set")
        elif op == "unknown-ctx" and model:
            kw = {k: value(d) for k in d.subset(sorted(model))}
            items = list(kw.items())
            items.insert(d.int(0, len(items)), ("nothing", 1))
            try:
                with cfg(**dict(items)):
                    d.fail("context with an unknown option entered")
            except AttributeError:
                pass
            log.append("unknown-ctx")
        elif op == "ctx" and depth < 4 and model:
            kw = {k: value(d) for k in d.subset(sorted(model))}
            saved = {k: model[k] for k in kw}
            inner_raises = None
            try:
                with cfg(**kw):
                    model.update(kw)
                    agree(d, cfg, model)
                    run(d, cfg, model, keys, depth + 1, log)
            except Boom as e:
                inner_raises = e
            model.update(saved)
            agree(d, cfg, model)
            log.append("ctx")
            if inner_raises is not None and depth > 0 and d.bool():
                raise inner_raises
        elif op == "raise" and depth > 0:
            log.append("raise")
            raise Boom()
        agree(d, cfg, model)


def value(d):
    return d.pick([0, 1, None, False, True, "x", 1e-3, (1, 2)])


def agree(d, cfg, model):
    for k, v in model.items():
        got = getattr(cfg, k)
        d.check(got is v or (type(got) is type(v) and got == v), "option %s is %s, expected %s", k, got, v)


def history(d):
    cfg = Configuration()
    model, keys, log = {}, [], []
    other = Configuration()
    other.register("opt0", "other", "t")
    for _ in range(d.int(1, 3)):
        k = "opt%d" % len(keys)
        model[k] = value(d)
        keys.append(k)
        cfg.register(k, model[k], "text")
    run(d, cfg, model, keys, 0, log)
    d.check(other.opt0 == "other", "configurations share their options")
    if "ctx" in log or "unknown-ctx" in log:
        d.nontrivial()
    for x in set(log):
        d.label(x)


def global_config(d):
    """The library's own options: defaults, scoping, and effect on lazily evaluated operators."""
    cfg = probnum.config
    before = (cfg.covariance_inversion_damping, cfg.matrix_free, cfg.lazy_matrix_matrix_matmul)
    d.check(before == (1e-12, False, True), "defaults are %s", before)
    A, B = d.array((2, 3), -2, 2), d.array((3, 2), -2, 2)
    lazy = d.bool()
    mf = d.bool()
    try:
        with cfg(lazy_matrix_matrix_matmul=lazy, matrix_free=mf, covariance_inversion_damping=d.pick([0.0, 1e-6])):
            P = linops.Matrix(A) @ linops.Matrix(B)
            d.check(isinstance(P, linops.Matrix) != lazy, "lazy=%s gives %s", lazy, type(P).__name__)
            d.check(np.allclose(P.todense(), A @ B, atol=1e-12), "product")
            proc = probnum.randprocs.markov.integrator.IntegratedWienerTransition(
                num_derivatives=1, wiener_process_dimension=2)
            H = proc.proj2coord(0)
            d.check(isinstance(H, linops.LinearOperator) == mf, "matrix_free=%s gives %s", mf, type(H).__name__)
            if d.bool():
                raise Boom()
    except Boom:
        d.label("exception")
    after = (cfg.covariance_inversion_damping, cfg.matrix_free, cfg.lazy_matrix_matrix_matmul)
    d.check(after == before, "options leaked: %s", after)
    d.nontrivial()


# ---- stopping criteria

class Rec(StoppingCriterion):
    def __init__(self, i, calls):
        self.i, self.calls = i, calls

    def __call__(self, state, *, extra):
        self.calls.append(self.i)
        return state[self.i] != extra


def expr(d, leaves, depth):
    """(criterion, reference function)"""
    k = d.weighted([(2, "leaf"), (0 if depth == 0 else 2, "and"), (0 if depth == 0 else 2, "or"), (0 if depth == 0 else 1, "not")])
    if k == "leaf":
        i = d.int(0, len(leaves) - 1)
        return leaves[i], (lambda s, e: bool(s[i] != e)), "c%d" % i
    a, fa, na = expr(d, leaves, depth - 1)
    if k == "not":
        return ~a, (lambda s, e: not fa(s, e)), "~" + na
    b, fb, nb = expr(d, leaves, depth - 1)
    if k == "and":
        return a & b, (lambda s, e: fa(s, e) and fb(s, e)), "(%s & %s)" % (na, nb)
    return a | b, (lambda s, e: fa(s, e) or fb(s, e)), "(%s | %s)" % (na, nb)


def algebra(d):
    n = d.int(1, 4)
    calls = []
    leaves = [Rec(i, calls) if d.bool(2, 3) else LambdaStoppingCriterion(lambda s, *, extra, i=i: s[i] != extra) for i in range(n)]
    c, f, name = expr(d, leaves, d.size(1, 4, 9))
    d.check(isinstance(c, StoppingCriterion), "a combination is not a criterion")
    for _ in range(4):
        s = [d.bool() for _ in range(n)]
        e = d.bool()
        got = c(s, extra=e)
        d.check(bool(got) == f(s, e), "%s on %s is %s", name, [v != e for v in s], got)
    # operands keep their meaning
    for i, l in enumerate(leaves):
        s = [d.bool() for _ in range(n)]
        d.check(bool(l(s, extra=False)) == s[i], "operand changed")
    d.nontrivial()


SUBS = [
    Sub("history", history, 3000, 60000),
    Sub("global_config", global_config, 200, 2000),
    Sub("algebra", algebra, 1500, 20000),
]
