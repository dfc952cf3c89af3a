"""C24: thinned Poisson arrivals."""
from fractions import Fraction

import queueing_tool as qt
from mc.explore import Scenario, FREE, Violation
from mc import rand, build

ASSUMPTIONS = ['uniform numbers are the midpoints of 8 equal cells (and, separately, 0 and the largest number below 1); exponential steps come from an alphabet',
               'rates are multiples of an eighth of the maximal rate']


def thinning(name, levels, maxima, cells=8, depth=3, starts=(0.0, 2.5, -7.0)):
    steps = (0.5, 1.0, 3.0)

    def run(ctx):
        rm = ctx.pick(maxima)
        t0 = ctx.pick(starts)
        es = [ctx.pick(steps) for _ in range(depth + 1)]
        lv = [ctx.pick(levels) for _ in range(depth)]
        cand, t = [], t0
        for e in es:
            t = t + (1.0 / rm) * e
            cand.append(t)
        asked = []

        def rate(x):
            asked.append(x)
            for i, c in enumerate(cand):
                if abs(x - c) < 1e-9:
                    return rm * lv[i] / 8.0 if i < depth else rm
            raise Violation('from %r with maximal rate %r: the rate is asked at %r, the candidates are %s' % (t0, rm, x, cand))

        def fn():
            return qt.poisson_random_measure(t0, rate, rm)

        class D(rand.Decider):
            n = 0

            def e(self):
                self.n += 1
                if self.n > len(es):
                    raise Violation('from %r: a candidate at the maximal rate was refused' % t0)
                return es[self.n - 1]
        dist, runs = rand.distribution(fn, cells=cells, cls=D)
        got = {}
        for r, p in dist.items():
            k = [i for i, c in enumerate(cand) if abs(c - r) < 1e-9]
            if not k or not r > t0:
                raise Violation('from %r: the arrival is at %r, the candidates are %s' % (t0, r, cand))
            got[k[0]] = got.get(k[0], 0) + p
        left = Fraction(1)
        for i in range(depth + 1):
            a = Fraction(lv[i], 8) if i < depth else Fraction(1)
            if got.get(i, 0) != left * a:
                raise Violation('from %r, maximal rate %r, rates at the candidates %s eighths of it: candidate %d is taken with probability %s instead of %s' % (
                    t0, rm, lv, i, got.get(i, 0), left * a))
            left *= 1 - a
        ctx.step(runs)
        ctx.state((rm, t0, tuple(es), tuple(lv)))
        return rm, t0, tuple(es), tuple(lv)
    return Scenario(name, run)


def extremes(ctx):
    """u = 0 at rate zero is no arrival, u just below 1 at the maximal rate is one."""
    rm = ctx.pick((1, 3.0, 7, 0.1))
    zeros = ctx.pick((0, 1, 2, 3, 30, 2500))
    u = ctx.pick((0.0, rand.LAST))
    n = [0]

    def rate(x):
        n[0] += 1
        return 0 if n[0] <= zeros else rm
    r = rand.once(lambda: qt.poisson_random_measure(1.0, rate, rm), u=u)
    want = 1.0 + (zeros + 1) / float(rm)
    if abs(r - want) > 1e-9 * want:
        raise Violation('maximal rate %r, uniform numbers all %r, the first %d candidates have rate 0 and the next the maximal rate: arrival at %r instead of %r' % (
            rm, u, zeros, r, want))
    ctx.step()
    ctx.state((rm, zeros, u))
    return rm, zeros, u


def threshold(ctx):
    """How much of the unit interval accepts a candidate, to eleven digits, by bisection; also far from zero,
    after refused candidates, and with very small and very large steps."""
    rm = ctx.pick((1, 3.0, 0.07, 1234.5))
    p = ctx.pick((0.1, 1 / 3.0, 0.9999, 1e-4, 0.123456789, 0.5, 0.75))
    t0 = ctx.pick((0.0, 1e5, -3.25))
    refused = ctx.pick((0, 1, 5))
    e = ctx.pick((1.0, 1e-4, 40.0))
    candidate = t0 + (refused + 1) * e / rm
    drawn = [None]

    def attempt(x):
        asked = [0]
        us = [0]

        def rate(t):
            asked[0] += 1
            return 0 if asked[0] <= refused else p * rm if asked[0] == refused + 1 else rm

        def handler(name, real, args, kwargs):
            if name in ('exponential', 'standard_exponential') and not kwargs.get('size') and len(args) < (2 if name == 'exponential' else 1):
                return ((args[0] if args else kwargs.get('scale', 1.0)) if name == 'exponential' else 1.0) * e
            if name in ('uniform', 'random', 'random_sample', 'rand', 'ranf', 'sample') and not kwargs.get('size'):
                us[0] += 1
                lo, hi = (float(args[0]), float(args[1])) if name == 'uniform' and len(args) == 2 else (0.0, 1.0)
                if name == 'uniform' and len(args) not in (0, 2) or kwargs:
                    lo = kwargs.get('low', args[0] if args else 0.0)
                    hi = kwargs.get('high', 1.0)
                return lo + (hi - lo) * (x if us[0] == refused + 1 else 0.5)
            drawn[0] = name
            return real(*args, **kwargs)
        build.HOOK.handler = handler
        try:
            r = qt.poisson_random_measure(t0, rate, rm)
        finally:
            build.HOOK.handler = None
        k = asked[0] - refused
        if us[0] != asked[0]:
            drawn[0] = 'another number of uniform numbers than of candidates'
        ctx.step()
        want = candidate + (0 if k == 1 else e / rm)
        if drawn[0] is None and (k not in (1, 2) or abs(r - want) > 1e-9 * max(1.0, abs(want))):
            raise Violation('from %r, maximal rate %r, %d refused, steps %r: arrival at %r instead of %r' % (t0, rm, refused, e, r, want))
        return k == 1
    at = sorted([0.0, rand.LAST, p - 1e-9, p + 1e-9] + [(i + 0.5) / 64 for i in range(64)])
    marks = [(x, attempt(x)) for x in at]
    todo = list(zip(marks, marks[1:]))
    share = 0.0
    while todo:
        (a, x), (b, y) = todo.pop()
        mid = (a + b) / 2
        if x == y or not a < mid < b:
            share += (b - a) * x
        else:
            z = attempt(mid)
            todo += [((a, x), (mid, z)), ((mid, z), (b, y))]
    if drawn[0] is not None:
        ctx.note('not decided here: %s' % drawn[0])
    elif abs(share - p) > 1e-11:
        raise Violation('from %r, maximal rate %r, after %d refused: a candidate with rate %r times that is accepted for a share of %r' % (t0, rm, refused, p, share))
    ctx.state((rm, p, t0, refused, e))
    return rm, p, t0, refused, e


def in_queue(ctx):
    """As the arrival function of a queue: arrivals strictly increase and never fall in the forbidden interval."""
    build.HOOK.handler = None
    us, es = [], []

    def u():
        us.append(ctx.pick((0.0, 0.3, 0.8, rand.LAST)) if len(us) < 7 else 0.1)
        return us[-1]

    def step():
        es.append(ctx.pick((0.25, 1.5)) if len(es) < 7 else (0.25, 1.5)[len(es) % 2])
        return es[-1]

    def handler(name, real, args, kwargs):
        if name == 'exponential':
            return (args[0] if args else kwargs.get('scale', 1.0)) * step()
        if name in ('uniform', 'random', 'rand', 'random_sample'):
            lo, hi = (list(args) + [0.0, 1.0])[:2] if name == 'uniform' and len(args) == 2 else (0.0, 1.0)
            return lo + (hi - lo) * u()
        raise AssertionError(name)

    def rate(t):
        return 2.0 if t % 4 < 2 else 0.0
    build.HOOK.handler = handler
    seen = []

    def arr(t):
        a = qt.poisson_random_measure(t, rate, 2.0)
        if not a > t:
            raise Violation('the arrival after %r is at %r' % (t, a))
        if rate(a) == 0:
            raise Violation('an arrival at %r where the rate is 0 (uniform numbers %s, steps %s)' % (a, us, es))
        seen.append(a)
        return a
    try:
        q = qt.QueueServer(arrival_f=arr, service_f=lambda t: t + 0.5)
        q.set_active()
        q.simulate(nA=3)
    finally:
        build.HOOK.handler = None
    ctx.step(len(seen))
    ctx.state(tuple(seen))
    return tuple(seen)


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    return [thinning('two candidates', (0, 1, 2, 3, 4, 5, 6, 7, 8), (1, 3.0, 0.7), depth=1 + e),
            thinning('three candidates', (0, 3, 8) if not e else (0, 3, 5, 8), (2.0,), depth=2 + e),
            Scenario('extremes', extremes), Scenario('share of the unit interval', threshold), Scenario('in a queue', in_queue)]
