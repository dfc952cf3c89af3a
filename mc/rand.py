"""Exhaustive enumeration of random outcomes.

Every draw the code under test asks from numpy becomes a decision with finitely many equally likely
alternatives: a uniform number is one of the midpoints of N equal cells (or one of given values), an
element chosen from a list is any of its elements, weighted as asked.  `outcomes(fn)` runs `fn` under
every sequence of decisions and returns the exact probability of every result.
"""
import collections
from fractions import Fraction

import numpy as np

from mc import build
from mc.explore import HarnessError, Violation

LAST = 1.0 - 2.0 ** -53


class Decider(object):
    """Decisions replayed from a prefix, then 0; every decision is (choice, number of alternatives, weight)."""

    def __init__(self, prefix, cells, steps=(1.0,), values=None, limit=60):
        self.prefix, self.cells, self.steps, self.values, self.limit = prefix, cells, steps, values, limit
        self.points = []
        self.weight = Fraction(1)
        self.asked = []

    def choose(self, n):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if i > self.limit:
            raise Violation('does not stop drawing random numbers')
        self.points.append((c, n))
        return c

    def u(self):
        if self.values is not None:
            return self.values[self.choose(len(self.values))]
        k = self.choose(self.cells)
        self.weight /= self.cells
        return (k + 0.5) / self.cells

    def e(self):
        k = self.choose(len(self.steps))
        self.weight /= len(self.steps)
        return self.steps[k]

    def index(self, n):
        k = self.choose(n)
        self.weight /= n
        return k

    def __call__(self, name, real, args, kwargs):
        self.asked.append(name)
        f = getattr(self, 'do_' + name, None)
        if f is None:
            raise HarnessError('random function %s is not modelled' % name)
        return f(*args, **kwargs)

    def _fill(self, size, one):
        if size is None:
            return one()
        a = np.empty(size)
        flat = a.reshape(-1)
        for i in range(flat.size):
            flat[i] = one()
        return a

    def do_uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self.u())

    def do_random(self, size=None):
        return self._fill(size, self.u)

    do_random_sample = do_ranf = do_sample = do_random

    def do_rand(self, *dims):
        return self._fill(dims or None, self.u)

    def do_exponential(self, scale=1.0, size=None):
        return self._fill(size, lambda: scale * self.e())

    def do_standard_exponential(self, size=None):
        return self._fill(size, self.e)

    def do_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.index(high - low)
        return self._fill(size, lambda: low + self.index(high - low)).astype(int)

    def do_permutation(self, x):
        a = list(range(x)) if np.isscalar(x) else list(x)
        out = []
        while a:
            out.append(a.pop(self.index(len(a)) if len(a) > 1 else 0))
        return np.array(out)

    def do_shuffle(self, x):
        x[:] = list(self.do_permutation(list(x)))

    def do_choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if np.isscalar(a) else list(a)
        if p is not None:
            p = np.array(p, float)
            if len(p) != len(a) or (p < 0).any() or abs(p.sum() - 1) > 1e-7:
                raise ValueError('probabilities do not fit')
            fr = [Fraction(float(x)).limit_denominator(10 ** 6) for x in p]
            if sum(fr) != 1:
                fr = [Fraction(float(x)) for x in p]
            live = [i for i in range(len(a)) if fr[i]]

            def one(used=()):
                left = [i for i in live if i not in used]
                i = left[self.choose(len(left)) if len(left) > 1 else 0]
                self.weight *= fr[i] / sum(fr[j] for j in left)
                return i
        else:
            def one():
                return self.index(len(a))
        if not a and (size is None or np.prod(size) > 0):
            raise ValueError('a must be non-empty')
        if size is None:
            return np.array(a)[one()]
        n = int(np.prod(size))
        if replace:
            ks = [one() for _ in range(n)]
        else:
            if n > (len(a) if p is None else len(live)):
                raise ValueError('larger sample than population')
            left, ks = list(range(len(a))), []
            if p is not None:
                for _ in range(n):
                    ks.append(one(ks))
            for _ in range(n if p is None else 0):
                ks.append(left.pop(self.index(len(left)) if len(left) > 1 else 0))
        arr = np.array(a)
        return arr[ks].reshape(size) if n else arr[:0]


def outcomes(fn, cells=8, steps=(1.0,), values=None, limit=60, most=2000000, cls=None):
    """[(probability, result, decisions)] of every sequence of decisions; None probability with given values."""
    out = []
    stack = [[]]
    old = build.HOOK.handler
    try:
        while stack:
            prefix = stack.pop()
            d = (cls or Decider)(prefix, cells, steps, values, limit)
            build.HOOK.handler = d
            r = fn()
            out.append((d.weight, r, [c for c, n in d.points]))
            if len(out) > most:
                raise HarnessError('too many outcomes')
            for i in range(len(prefix), len(d.points)):
                c, n = d.points[i]
                head = [x for x, _ in d.points[:i]]
                for alt in range(1, n):
                    stack.append(head + [alt])
    finally:
        build.HOOK.handler = old
    return out


def distribution(fn, **kw):
    d = collections.Counter()
    n = 0
    for w, r, _ in outcomes(fn, **kw):
        d[r] += w
        n += 1
    if sum(d.values()) != 1:
        raise HarnessError('probabilities do not sum to one')
    return dict(d), n


def once(fn, u=0.5, e=1.0):
    """Runs fn with every uniform draw equal to u."""
    old = build.HOOK.handler
    d = Decider([], 1, (e,), (u,), 10 ** 6)
    build.HOOK.handler = d
    try:
        return fn()
    finally:
        build.HOOK.handler = old


def traced(fn, u):
    """once(), and how many uniform numbers were drawn (None if anything else was drawn)."""
    old = build.HOOK.handler
    d = Decider([], 1, (1.0,), (u,), 10 ** 6)
    build.HOOK.handler = d
    try:
        r = fn()
    finally:
        build.HOOK.handler = old
    return r, len(d.points) if all(a in ('uniform', 'random', 'random_sample', 'ranf', 'sample', 'rand') for a in d.asked) else None
