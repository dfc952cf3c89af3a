"""C21: the event heap.  Runs on an AddressSanitizer build of the extension module."""
import itertools

from queueing_tool.network.priority_queue import PriorityQueue
from mc.explore import Scenario, FREE, Violation

ASAN = True
ASSUMPTIONS = ['times are finite and come from an alphabet of two to four values; two to four keys',
               'memory errors are those AddressSanitizer detects in the extension module and its arrays']


class Model(object):
    def __init__(self, keys):
        self.now = {k: t for t, k in keys}

    def push(self, t, k):
        self.now[k] = t

    def popped(self, r):
        """None if the answer of pop() is right, else what is wrong."""
        if r is None:
            return 'nothing, although %s is left' % self.now if self.now else None
        if not isinstance(r, tuple) or len(r) != 2:
            return '%r, which is no entry' % (r,)
        t, k = r
        if not self.now:
            return '%r although nothing is left' % (r,)
        if self.now.get(k) != t:
            return '%r, the latest entries are %s' % (r, self.now)
        if t != min(self.now.values()):
            return '%r, the earliest of %s is due' % (r, self.now)
        del self.now[k]
        return None


def play(keys, n, seq):
    """Runs a sequence, then drains; the first thing that goes wrong, or None."""
    pq, m = PriorityQueue(list(keys), n), Model(keys)
    for i, s in enumerate(seq):
        if s is None:
            bad = m.popped(pq.pop())
            if bad:
                return i, bad
        else:
            pq.push(s[0], s[1])
            m.push(s[0], s[1])
    for i in range(len(m.now) + 1):
        bad = m.popped(pq.pop())
        if bad:
            return 'draining', bad
    return None


def sequences(name, n, times, depth, starts, split=2, pops=True):
    ops = [(float(t), k) for t in times for k in range(n)] + ([None] if pops else [])

    def run(ctx):
        keys = ctx.pick(starts)
        head = [ctx.pick(ops, FREE) for _ in range(split)]
        nseq = 0
        for tail in itertools.product(ops, repeat=depth - split):
            bad = play(keys, n, head + list(tail))
            nseq += 1
            if bad:
                raise Violation('starting from %s, pushes (time, key) and pops (None) %s: at %s pop() returned %s' % (
                    list(keys), head + list(tail), bad[0], bad[1]))
        ctx.step(nseq * depth)
        ctx.state((keys, tuple(head)))
        return keys, tuple(head), nseq
    return Scenario(name, run)


def starts_of(n, times):
    """Every set of initial entries in every order."""
    out = [()]
    for r in range(1, n + 1):
        for ks in itertools.permutations(range(n), r):
            for ts in itertools.product(times, repeat=r):
                out.append(tuple((float(t), k) for t, k in zip(ts, ks)))
    return out


def initial(name, n, times):
    """All initial entry sets, drained, and drained with one push in between."""
    def run(ctx):
        sts = starts_of(n, times)
        part = ctx.choose(16)
        c = 0
        for keys in sts[part::16]:
            seqs = [[]] + [[None] * i + [(float(t), k)] for i in range(len(keys) + 1) for t in times for k in range(n)]
            for seq in seqs:
                bad = play(keys, n, seq)
                c += 1
                if bad:
                    raise Violation('starting from %s, operations %s: at %s pop() returned %s' % (list(keys), seq, bad[0], bad[1]))
        ctx.step(c)
        ctx.state(part)
        return c
    return Scenario(name, run)


def network_like(name, n, times, depth):
    """Pop one key, push up to two keys, as a network does; long runs with decreasing room for choice."""
    def run(ctx):
        keys = [(float(ctx.pick(times)), k) for k in range(n)]
        pq, m = PriorityQueue(list(keys), n), Model(keys)
        seq = []
        for i in range(depth):
            r = pq.pop()
            bad = m.popped(r)
            seq.append('pop->%r' % (r,))
            if bad:
                raise Violation('starting from %s: %s: pop() returned %s' % (keys, seq, bad))
            if r is None:
                break
            for k in ((r[1], (r[1] + 1) % n), ((r[1] + 1) % n,), (r[1],), ())[ctx.choose(4)]:
                t = r[0] + ctx.pick(times)
                pq.push(t, k)
                m.push(t, k)
                seq.append((t, k))
            ctx.step()
            ctx.state(tuple(sorted((k, t - r[0]) for k, t in m.now.items())))
        return tuple(map(str, seq))
    return Scenario(name, run)


def growth(name, n, starts, total):
    """Many pushes without pops and in waves: the storage grows from every initial size."""
    def run(ctx):
        k0 = ctx.pick(starts)
        wave = ctx.pick((1, 2, 3, 5, 9, 40))
        order = ctx.pick(('up', 'down', 'same', 'zigzag'))
        keys = [(5.0 + i, i) for i in range(k0)]
        pq, m = PriorityQueue(list(keys), n), Model(keys)
        for i in range(total):
            t = {'up': 1.0 + i, 'down': 1000.0 - i, 'same': 7.0, 'zigzag': 500.0 + (-1) ** i * i}[order]
            pq.push(t, (i * 7 + 3) % n)
            m.push(t, (i * 7 + 3) % n)
            ctx.step()
            if (i + 1) % wave == 0 and wave < 40:
                for _ in range(1 + i % 2):
                    bad = m.popped(pq.pop())
                    if bad:
                        raise Violation('push number %d (%s, %d initial entries, waves of %d): pop() returned %s' % (i, order, k0, wave, bad))
        for _ in range(len(m.now) + 1):
            bad = m.popped(pq.pop())
            if bad:
                raise Violation('draining after %d pushes (%s, %d initial entries, waves of %d): pop() returned %s' % (total, order, k0, wave, bad))
        ctx.state((k0, wave, order))
        return k0, wave, order
    return Scenario(name, run)


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = [sequences('two keys', 2, (1, 2), 7 + e, [(), ((1.0, 0),), ((2.0, 1), (1.0, 0)), ((1.0, 1), (2.0, 0))], split=2 + e),
           sequences('three keys', 3, (1, 2), 5 + e, [(), ((2.0, 0), (1.0, 1), (1.0, 2))]),
           sequences('three times', 2, (1, 2, 3), 5 + e, [(), ((2.0, 0), (1.0, 1)), ((3.0, 1), (2.0, 0))]),
           initial('initial entries, three keys', 3, (1, 2, 3)),
           initial('initial entries, four keys', 4, (1, 2) if not e else (1, 2, 3)),
           network_like('like a network of two', 2, (1, 2), 4 + e),
           network_like('like a network of three', 3, (1, 3), 3 + 2 * e),
           growth('growth', 5, tuple(range(6)), 150),
           growth('growth of one', 1, (0, 1), 90)]
    return out
