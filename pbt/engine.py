"""A small choice-sequence property-based-testing engine.

Hypothesis is not available for the interpreter that runs the code under test
(PyPy 3.9), so this file implements the core of the same idea ("minithesis"):

* every random decision of a generator is an integer choice ``0 <= c <= bound``;
* a case is *defined* by its choice sequence; replaying the sequence replays it;
* shrinking works on the choice sequence (delete spans, zero spans, lower values),
  so it needs no type-specific shrinkers and also shrinks operation histories;
* each case is a pure function of (VERIF_SEED, property id, sub-check, case index).
"""
import hashlib
import random


class Violation(AssertionError):
    """The property is broken on this case."""


class Stop(Exception):
    """Case abandoned (choice budget overrun, or assume() failed): not a verdict."""


class CaseEndless(BaseException):
    """One case used up its processor time."""


class CaseTimeout(BaseException):
    """Wall-clock cap of one case: inconclusive, never a violation."""


class Inconclusive(Exception):
    """The case cannot be decided (numerically ill-posed): not a verdict."""


MAX_CHOICES = 6000


class Data:
    """Source of choices + per-case bookkeeping."""

    def __init__(self, rng=None, prefix=(), max_choices=MAX_CHOICES):
        self.rng = rng
        self.prefix = list(prefix)
        self.choices = []
        self.max_choices = max_choices
        self.labels = []
        self.notes = []
        self.nontrivial_flag = False
        self.key = None

    # ---- primitive -------------------------------------------------------
    def choice(self, bound):
        """Integer in [0, bound]; smaller is simpler."""
        bound = int(bound)
        if bound < 0:
            raise ValueError("empty choice")
        i = len(self.choices)
        if i >= self.max_choices:
            raise Stop("overrun")
        if i < len(self.prefix):
            c = min(int(self.prefix[i]), bound)
        elif self.rng is not None:
            c = self.rng.randint(0, bound)
        else:
            c = 0
        self.choices.append(c)
        return c

    # ---- scalars ---------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.choice(hi - lo)

    def size(self, lo, hi, big, den=20):
        """Usually in [lo, hi]; once in den cases in [hi + 1, big]."""
        if self.bool(1, den):
            self.label("large")
            return self.int(hi + 1, big)
        return self.int(lo, hi)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simple value."""
        return self.choice(den - 1) >= den - num

    def pick(self, seq):
        seq = list(seq)
        return seq[self.choice(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        c = self.choice(total - 1)
        for w, v in pairs:
            if c < w:
                return v
            c -= w
        raise AssertionError

    def subset(self, seq):
        return [x for x in seq if self.bool()]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.choice(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def dyadic(self, lo, hi, den=8):
        """A multiple of 1/den in [lo, hi]; values near zero (or lo) are simplest."""
        lo_i, hi_i = int(round(lo * den)), int(round(hi * den))
        if lo_i <= 0 <= hi_i:
            m = max(-lo_i, hi_i)
            c = self.choice(2 * m)
            v = (c + 1) // 2 if c % 2 else -(c // 2)
            v = min(max(v, lo_i), hi_i)
            return v / den
        return (lo_i + self.choice(hi_i - lo_i)) / den

    def real(self, lo, hi):
        """A generic real number in [lo, hi] (fine grid, not dyadic-simple)."""
        n = 10**6
        return lo + (hi - lo) * (self.choice(n) / n)

    def pos(self, lo=0.125, hi=4.0):
        return self.dyadic(lo, hi)

    # ---- arrays (numpy imported lazily so the engine stays standalone) ----
    def array(self, shape, lo=-3.0, hi=3.0, den=8, dtype=float):
        import numpy as np

        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        size = 1
        for s in shape:
            size *= s
        if size > 60:
            # one choice for all entries, so that large arrays do not use up the budget
            one = Data(rng=random.Random(self.choice(2**31 - 1)), max_choices=10**9)
            flat = [one.dyadic(lo, hi, den) for _ in range(size)]
        else:
            flat = [self.dyadic(lo, hi, den) for _ in range(size)]
        return np.array(flat, dtype=float).reshape(shape).astype(dtype)

    def int_array(self, shape, lo=-4, hi=4, dtype="int64"):
        return self.array(shape, lo, hi, den=1, dtype=dtype)

    def seed(self):
        return self.choice(2**31 - 1)

    # ---- bookkeeping -----------------------------------------------------
    def label(self, *names):
        self.labels.extend(names)

    def note(self, name, value):
        self.notes.append((name, value))

    def nontrivial(self, key=None):
        self.nontrivial_flag = True
        if key is not None:
            self.key = key

    def assume(self, cond):
        if not cond:
            raise Stop("assume")

    def inconclusive(self, why):
        raise Inconclusive(why)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            msg = msg() if callable(msg) else msg
            raise Violation(msg % args if args else msg)


def case_rng(seed, prop, sub, index):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, sub, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def shrink(run, choices, budget):
    """run(choices) -> (is_interesting, actual_choices).  Greedy, deterministic."""
    best = list(choices)
    evals = [0]
    seen = set()

    def attempt(cand):
        nonlocal best
        if evals[0] >= budget():
            return False
        t = tuple(cand)
        if t in seen:
            return False
        seen.add(t)
        evals[0] += 1
        ok, actual = run(list(cand))
        if ok:
            actual = list(actual)
            if (len(actual), actual) < (len(best), best):
                best = actual
                return True
        return False

    improved = True
    while improved and evals[0] < budget():
        improved = False
        # delete spans
        for k in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0 and evals[0] < budget():
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best) - k)
                else:
                    # deletion plus decrement of a preceding length-like choice
                    if i > 0 and best[i - 1] > 0:
                        cand = best[:i - 1] + [best[i - 1] - 1] + best[i + k:]
                        if attempt(cand):
                            improved = True
                i -= max(1, k // 2)
        # zero spans
        for k in (16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0 and evals[0] < budget():
                if any(best[i:i + k]):
                    if attempt(best[:i] + [0] * k + best[i + k:]):
                        improved = True
                i -= k
        # lower single values
        for i in range(len(best) - 1, -1, -1):
            if i >= len(best) or evals[0] >= budget():
                continue
            lo, hi = 0, best[i]
            while lo < hi and evals[0] < budget() and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid + 1
    return best
