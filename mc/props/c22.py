"""C22: union-find against explicit partitions."""
from queueing_tool.union_find import UnionFind
from mc.explore import Scenario, FREE, Violation

ASSUMPTIONS = ['up to six elements; sequences are enumerated up to renaming of elements not touched so far']
NAMES = {'numbers': (0, 1, 2, 3, 4, 5), 'mixed': ('a', (1, 2), 3.5, None, frozenset([1]), 'b')}


def check(uf, names, part, seq, order):
    def bad(what):
        raise Violation('after %s: %s (sets merged: %s)' % (seq, what, part))
    members = {}
    for i, p in enumerate(part):
        members.setdefault(p, set()).add(i)
    if uf.nClusters != len(members):
        bad('%d sets counted' % uf.nClusters)
    lead = {}
    for i in order:
        lead[i] = uf.find(names[i])
        if lead[i] not in [names[j] for j in members[part[i]]]:
            bad('the leader of %r is %r' % (names[i], lead[i]))
        if uf.size(names[i]) != len(members[part[i]]):
            bad('the set of %r has size %s' % (names[i], uf.size(names[i])))
    for i in order:
        for j in order:
            if (lead[i] == lead[j]) != (part[i] == part[j]):
                bad('leaders of %r and %r are %r and %r' % (names[i], names[j], lead[i], lead[j]))
    for i in order:
        if uf.find(names[i]) != lead[i]:
            bad('looking up %r again gives another leader' % (names[i],))


def every(n, depth, naming, container, finds, head):
    """All sequences of `depth` operations with the given first operations, up to renaming."""
    names = NAMES[naming][:n]

    def ops(seen):
        m = min(seen + 1, n)
        for a in range(m):
            s1 = max(seen, a + 1)
            for b in range(min(s1 + 1, n)):
                yield ('union', a, b), max(s1, b + 1)
        if finds:
            for a in range(seen):
                yield ('find', a), seen
                yield ('size', a), seen

    count = 0
    stack = [((), 0)]
    while stack:
        seq, seen = stack.pop()
        if len(seq) == depth:
            for order in (range(n), range(n - 1, -1, -1)):
                uf = UnionFind(container(names))
                part = list(range(n))
                for o in seq:
                    if o[0] == 'union':
                        uf.union(names[o[1]], names[o[2]])
                        p, q = part[o[1]], part[o[2]]
                        part = [p if x == q else x for x in part]
                    else:
                        getattr(uf, o[0])(names[o[1]])
                check(uf, names, part, seq, list(order))
            count += 1
            continue
        for k, (o, s) in enumerate(ops(seen)):
            if len(seq) < len(head) and head[len(seq)] != k:
                continue
            stack.append((seq + (o,), s))
    return count


def scen(name, n, depth, naming='numbers', container=list, finds=False, split=3, width=36):
    def run(ctx):
        head = [ctx.choose(k) for k in (2, 14, width)[:split]]
        c = every(n, depth, naming, container, finds, head)
        ctx.step(c * depth)
        if c:
            ctx.state(tuple(head))
        return tuple(head), c
    return Scenario(name, run)


def tournament(ctx):
    """Eight elements merged pairwise, then fours, then all: every pair of representatives."""
    names = list(range(8))
    seq = [('union', i, i + 1) if ctx.choose(2) == 0 else ('union', i + 1, i) for i in (0, 2)]
    seq += [('union', 4, 5), ('union', 6, 7)]
    for a, b in (((0, 1), (2, 3)), ((4, 5), (6, 7))):
        x, y = ctx.pick(a), ctx.pick(b)
        seq.append(('union', x, y) if ctx.choose(2) == 0 else ('union', y, x))
    x, y = ctx.choose(4), 4 + ctx.choose(4)
    seq.append(('union', x, y) if ctx.choose(2) == 0 else ('union', y, x))
    for order in (names, names[::-1]):
        uf, part = UnionFind(names), list(names)
        for o in seq:
            uf.union(o[1], o[2])
            p, q = part[o[1]], part[o[2]]
            part = [p if z == q else z for z in part]
        check(uf, names, part, seq, order)
        ctx.step(len(seq))
    ctx.state(tuple(seq))
    return tuple(seq)


def binomial(ctx, levels):
    """Merging leaders only makes the deepest trees there can be; then every element is looked up, or merged, first."""
    n = 2 ** levels
    flips = [ctx.choose(2) for _ in range(levels)]
    how = ctx.choose(3)
    for first in range(n):
        uf, part, seq = UnionFind(range(n)), list(range(n)), []
        lead = list(range(n))
        for f in flips:
            new = []
            for a, b in zip(lead[::2], lead[1::2]):
                if f:
                    a, b = b, a
                uf.union(a, b)
                seq.append(('union', a, b))
                part = [part[a] if z == part[b] else z for z in part]
                new.append(uf.find(a))
            if how == 2 and len(new) == 2:
                # the last merge is of any two members
                a, b = first, (first + n // 2) % n
                uf.union(a, b)
                seq.append(('union', a, b))
                part = [part[a] if z == part[b] else z for z in part]
                break
            lead = new
        if how == 1:
            uf.size(first)
        check(uf, list(range(n)), part, seq, list(range(first, n)) + list(range(first)))
        ctx.step(len(seq))
    ctx.state(tuple(flips))
    return tuple(flips), how


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    return [scen('merges of six', 6, 5 + e),
            scen('merges of four', 4, 6 + e),
            scen('merges and look-ups of four', 4, 5 + e, finds=True),
            scen('merges of five, a set of mixed names', 5, 5 + e, naming='mixed', container=set),
            Scenario('tournament of eight', tournament),
            Scenario('the deepest trees', lambda ctx: binomial(ctx, 5 + e)),
            scen('short', 6, 3, naming='mixed', container=tuple, finds=True)]
