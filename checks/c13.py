"""C13 Histories of states: posteriors, random variable lists and regression data keep their books."""
import functools

import numpy as np

from probnum import problems, randvars
from probnum.filtsmooth import TimeSeriesPosterior
from probnum.filtsmooth.utils import merge_regression_problems
from probnum.randprocs.markov import discrete
from probnum.randvars import _RandomVariableList
from pbt.runner import Sub
from .librv import close, covmat, dense

RULE = ("A case is a history of list, append, freeze, index and evaluation operations mirrored in a plain list, "
        "or a set of data sets to merge; non-trivial if at least one state was stored and read back.")


def gen_rv(d, kind, n):
    if kind == "scalar":
        return randvars.Normal(d.dyadic(-3, 3), d.dyadic(0.25, 4))
    if kind == "normal":
        return randvars.Normal(d.array(n, -3, 3), covmat(d, n))
    if kind == "constant":
        return randvars.Constant(d.array(n, -3, 3))
    p = d.array(3, 0.25, 4)
    return randvars.Categorical(probabilities=p / p.sum(), support=d.array((3, n), -3, 3))


STATS = {"scalar": ["mean", "cov", "var", "std", "mode"], "normal": ["mean", "cov", "var", "std", "mode"],
         "constant": ["mean", "cov", "var", "std", "mode"], "cat": ["support", "probabilities", "mode"]}


def compare(d, lst, model, kind, what=None):
    d.check(len(lst) == len(model), "length %s, expected %s", len(lst), len(model))
    for a, b in zip(lst, model):
        d.check(a is b, "element was replaced")
    for s in ([what] if what else d.subset(STATS[kind])):
        got = np.asarray(getattr(lst, s))
        if not model:
            d.check(got.shape == (0,), "%s of an empty list: %s", s, got.shape)
            continue
        want = np.stack([np.asarray(getattr(r, s)) for r in model])
        d.check(got.shape == want.shape and close(got, want, 0.0), "%s of the list: %s, of its elements: %s", s, got, want)
    if model and kind != "cat":
        d.check(tuple(lst.shape) == (len(model),) + np.shape(model[0].mean), "shape %s", lst.shape)


def rvlist(d):
    kind = d.pick(["scalar", "normal", "constant", "cat"])
    n = d.int(1, 3)
    model = [gen_rv(d, kind, n) for _ in range(d.size(0, 3, 20))]
    lst = _RandomVariableList(list(model))
    compare(d, lst, model, kind)
    for _ in range(d.size(1, 6, 20)):
        op = d.pick(["append", "extend", "insert", "pop", "set", "del", "reverse", "slice", "index", "npindex", "iter"])
        if op == "append":
            r = gen_rv(d, kind, n)
            lst.append(r)
            model.append(r)
        elif op == "extend":
            rs = [gen_rv(d, kind, n) for _ in range(d.int(0, 2))]
            lst.extend(rs)
            model.extend(rs)
        elif op == "insert":
            i = d.int(0, len(model))
            r = gen_rv(d, kind, n)
            lst.insert(i, r)
            model.insert(i, r)
        elif op == "reverse":
            lst.reverse()
            model.reverse()
        elif op == "slice":
            a, b = d.int(-4, 4), d.int(-4, 4)
            st = d.pick([1, 1, 2, -1])
            sl = slice(a if d.bool() else None, b if d.bool() else None, st)
            got = lst[sl]
            d.check(isinstance(got, _RandomVariableList), "a slice is a %s", type(got).__name__)
            compare(d, got, model[sl], kind)
        elif op == "iter":
            d.check([id(r) for r in lst] == [id(r) for r in model], "iteration")
        elif not model:
            continue
        else:
            i = d.int(-len(model), len(model) - 1)
            if op == "pop":
                d.check(lst.pop(i) is model.pop(i), "pop")
            elif op == "set":
                r = gen_rv(d, kind, n)
                lst[i] = r
                model[i] = r
            elif op == "del":
                del lst[i]
                del model[i]
            else:
                d.check(lst[np.int64(i) if op == "npindex" else i] is model[i], "index %s", i)
        d.label(op)
        compare(d, lst, model, kind)
    if kind == "cat" and model:
        s = d.seed()
        r1, r2 = lst.resample(np.random.default_rng(s)), lst.resample(np.random.default_rng(s))
        d.check(isinstance(r1, _RandomVariableList) and len(r1) == len(model), "resample")
        for a, b, m in zip(r1, r2, model):
            d.check(np.array_equal(a.support, b.support), "resampling is not reproducible")
            rows = {tuple(np.ravel(v)) for v in m.support}
            d.check(all(tuple(np.ravel(v)) in rows for v in a.support), "resampled support is not a subset")
            d.check(close(a.probabilities, np.full(len(m.probabilities), 1 / len(m.probabilities)), 1e-12), "resampled weights")
    if model:
        d.nontrivial()
    bad = d.pick([tuple(model), "abc", [1.0], [np.zeros(2)]])
    try:
        _RandomVariableList(bad)
    except TypeError:
        return
    d.check(isinstance(bad, list) and not bad, "invalid list %s accepted", bad)


class Post(TimeSeriesPosterior):
    """Dense output that records what it was asked."""

    def interpolate(self, t, previous_index=None, next_index=None):
        self.asked.append((float(t), previous_index, next_index))
        return randvars.Constant(np.array([float(t)]))

    def sample(self, rng, t=None, size=()):
        raise NotImplementedError

    def transform_base_measure_realizations(self, base_measure_realizations, t):
        raise NotImplementedError


def posterior(d):
    n = d.int(1, 2)
    locs, states = [], []
    frozen = False
    if d.bool():
        k = d.size(0, 3, 15)
        locs = [float(v) for v in np.cumsum([d.dyadic(0.125, 2) for _ in range(k)])]
        states = [gen_rv(d, "normal", n) for _ in range(k)]
        form = d.pick(["list", "array", "tuple"])
        arg = {"list": list(locs), "array": np.array(locs), "tuple": tuple(locs)}[form]
        sarg = d.pick([list(states), _RandomVariableList(list(states)), tuple(states)])
        p = Post(locations=arg, states=sarg)
    else:
        p = Post()
        arg = sarg = None
    p.asked = []
    for _ in range(d.size(2, 9, 30)):
        op = d.weighted([(4, "append"), (1, "append-bad"), (1, "freeze"), (2, "index"), (3, "call"), (1, "call-unsorted"), (1, "tamper")])
        if op in ("append", "append-bad"):
            last = locs[-1] if locs else d.dyadic(-2, 2)
            step = d.dyadic(0.125, 2) if op == "append" else -d.dyadic(0, 2)
            t, r = last + step, gen_rv(d, "normal", n)
            ok = not frozen and (not locs or t > last)
            try:
                p.append(t, r)
            except ValueError:
                d.check(not ok, "append at %s after %s refused (frozen=%s)", t, last, frozen)
            else:
                d.check(ok, "append at %s after %s accepted (frozen=%s)", t, last, frozen)
                locs.append(t)
                states.append(r)
        elif op == "freeze":
            if d.bool():
                p.freeze()
                frozen = True
        elif op == "index" and locs:
            i = d.int(-len(locs), len(locs) - 1)
            d.check(p[i] is states[i] and p.states[i] is states[i], "state %s", i)
            sl = slice(d.int(0, len(locs)), None)
            d.check([id(r) for r in p[sl]] == [id(r) for r in states[sl]], "slice of states")
        elif op == "tamper" and locs:
            # read-only views of the history: changing what was returned changes nothing
            L = p.locations
            if L.flags.writeable:
                L[:] = 17.0
            p.states.append(states[0])
            d.label("tamper")
        elif op in ("call", "call-unsorted") and locs:
            m = d.int(1, 6)
            ts = sorted(d.weighted([(2, d.pick(locs)), (4, d.dyadic(locs[0] - 2, locs[-1] + 2, 16))]) for _ in range(m))
            if op == "call-unsorted" and m > 1 and ts[0] < ts[-1]:
                ts = ts[::-1]
                try:
                    p(np.array(ts))
                except ValueError:
                    continue
                d.fail("unsorted times accepted")
            scalar = m == 1 and d.bool()
            p.asked = []
            out = p(ts[0] if scalar else d.pick([np.array(ts), list(ts)]))
            if scalar:
                d.check(isinstance(out, randvars.RandomVariable), "scalar time gives %s", type(out).__name__)
                out = [out]
            else:
                d.check(isinstance(out, _RandomVariableList) and len(out) == m, "dense output of %s times has %s entries", m, len(out))
            for t, o in zip(ts, out):
                d.check(float(o.mean[0]) == t, "dense output at %s is that of %s", t, o.mean[0])
            for t, a, b in p.asked:
                K = len(locs)
                if t < locs[0]:
                    d.check(a is None and b % K == 0, "left of the data: indices %s %s", a, b)
                elif t > locs[-1]:
                    d.check(b is None and a % K == K - 1, "right of the data: indices %s %s", a, b)
                elif t not in locs:
                    d.check(locs[a] < t < locs[b] and b == a + 1, "time %s is not between locations %s and %s", t, locs[a], locs[b])
                else:
                    d.check(locs[b] == t or locs[a] == t, "time %s: neighbours %s %s", t, a, b)
            d.nontrivial()
            d.label("dense")
        d.check(len(p) == len(locs) and np.array_equal(np.asarray(p.locations, dtype=float), np.array(locs)), "locations %s, expected %s", p.locations, locs)
        d.check([id(r) for r in p.states] == [id(r) for r in states], "states changed")
        d.check(p.frozen == frozen, "frozen")
    if arg is not None:
        d.check(len(arg) == k and len(sarg) == k, "append changed the caller's sequences")


def model_for(d, n, m):
    return discrete.LTIGaussian(transition_matrix=d.array((m, n), -1, 1), noise=randvars.Normal(np.zeros(m), np.eye(m)))


def merge(d):
    K = d.size(2, 4, 10)
    n, m = 2, d.int(1, 2)
    flat = m == 1 and d.bool(1, 4)
    pool = d.shuffled(list(range(100)))
    probs, truth = [], {}
    have_sol = []
    used = 0
    for _ in range(K):
        c = d.size(1, 3, 10)
        idx = pool[used:used + c]
        used += c
        if d.bool(3, 4):
            idx = sorted(idx)
        locs = [i / 4.0 - 1 for i in idx]
        Y = d.array((c,) if flat else (c, m), -3, 3)
        if d.bool(1, 6):
            Y = np.round(Y).astype(int)
        sol = d.array((c, n), -3, 3) if d.bool(4, 5) else None
        have_sol.append(sol is not None)
        one = d.bool()
        mods = [model_for(d, n, m)] * c if one else [model_for(d, n, m) for _ in range(c)]
        form = d.pick(["array", "array", "list"])
        kw = dict(locations=np.array(locs) if form == "array" else locs, observations=Y if form == "array" else Y.tolist(),
                  measurement_models=mods[0] if one else (mods if d.bool() else np.array(mods, dtype=object)),
                  solution=sol if sol is None or form == "array" else sol.tolist())
        p = problems.TimeSeriesRegressionProblem(**kw)
        d.check(len(p) == c, "length")
        for i in range(c):
            t, y, mm = p[i]
            d.check(t == locs[i] and np.array_equal(y, Y[i]) and mm is mods[i], "item %s", i)
            truth[locs[i]] = (Y[i], mods[i], None if sol is None else sol[i])
        probs.append(p)
    snap = [(list(map(float, np.ravel(p.locations))), np.array(p.observations, copy=True)) for p in probs]
    out = functools.reduce(merge_regression_problems, probs)
    ts = sorted(truth)
    d.check(np.array_equal(np.asarray(out.locations, dtype=float), np.array(ts)), "locations %s", out.locations)
    d.check(len(out) == len(ts), "length")
    for i, t in enumerate(ts):
        d.check(np.array_equal(np.asarray(out.observations[i]), truth[t][0]), "data at %s: %s, expected %s", t, out.observations[i], truth[t][0])
        d.check(out.measurement_models[i] is truth[t][1], "measurement model at %s", t)
        if all(have_sol):
            d.check(np.array_equal(out.solution[i], truth[t][2]), "solution at %s", t)
    if not all(have_sol):
        d.check(out.solution is None, "a solution appeared")
    for p, (l, y) in zip(probs, snap):
        d.check(list(map(float, np.ravel(p.locations))) == l and np.array_equal(np.asarray(p.observations), y), "a merged problem was modified")
    d.nontrivial()
    # errors
    a, b = probs[0], probs[1]
    what = d.pick(["shared", "dims", "lengths"])
    try:
        if what == "shared":
            merge_regression_problems(out, probs[d.int(0, K - 1)])
        elif what == "dims":
            y = np.zeros((len(b), m + 1))
            merge_regression_problems(a, problems.TimeSeriesRegressionProblem(b.locations, y, b.measurement_models))
        else:
            problems.TimeSeriesRegressionProblem(a.locations, np.zeros((len(a) + 1, m)), a.measurement_models)
    except ValueError:
        return
    d.fail("inconsistent data accepted: " + what)


SUBS = [
    Sub("rvlist", rvlist, 1200, 20000),
    Sub("posterior", posterior, 2000, 40000),
    Sub("merge", merge, 800, 15000),
]
