"""C16: setting and reading routing probabilities."""
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs

ASSUMPTIONS = ['graphs of at most four vertices; probabilities are multiples of 1/4 (accepted ones) and small variations (refused ones)']


def dists(k, den=4):
    """All distributions over k out-edges with denominators `den`."""
    return [tuple(x / den for x in c) for c in itertools.product(range(den + 1), repeat=k) if sum(c) == den]


def orders(n):
    return [tuple(range(n)), tuple(range(n - 1, -1, -1)), tuple((v * 2 + 1) % n if n % 2 else (v + n // 2) % n for v in range(n))]


def network(ctx, n, sets):
    edges = ctx.pick(sets)
    vo = ctx.pick(orders(n))
    eo = ctx.pick((1, -1))
    es = list(edges)[::eo]
    types = {e: 0 if not any(f[0] == e[1] for f in edges) else 1 for e in edges}
    adjust = ctx.choose(2) == 1
    g = graphs.digraph(n, es, types, vo, pos=graphs.positions(n))
    net = qt.QueueNetwork(g, adjust_graph=adjust)
    outs = {v: sorted(e[1] for e in edges if e[0] == v) for v in range(n)}
    return net, edges, outs


def read(net, n, outs, want, what):
    """Read twice: what was returned first belongs to the caller, who writes into it."""
    for again in ('', ', read again after changing what was returned'):
        d, m = read_once(net, n, outs, want, what + again)
        m[:] = 0.3
        for p in d.values():
            p.clear()
        d.clear()


def read_once(net, n, outs, want, what):
    d = net.transitions(False)
    m = net.transitions()
    if set(d) != set(range(n)):
        raise Violation('%s: the dictionary read back has the vertices %s' % (what, sorted(d)))
    if m.shape != (n, n):
        raise Violation('%s: the matrix read back has the shape %s' % (what, m.shape))
    for v in range(n):
        got = {u: float(p) for u, p in d[v].items()}
        if got != want[v]:
            raise Violation('%s: vertex %d has %s, read back as a dictionary %s' % (what, v, want[v], got))
        row = [want[v].get(u, 0.0) for u in range(n)]
        if m[v].tolist() != row:
            raise Violation('%s: vertex %d has %s, read back as a matrix row %s' % (what, v, row, m[v].tolist()))
    return d, m


def default(outs):
    return {v: {u: 1.0 / len(o) for u in o} for v, o in outs.items()}


def settings(name, n, sets, den=2, twice=True):
    """Set as matrix or dictionary of some vertices, one after the other; read back in both forms after each."""
    def run(ctx):
        net, edges, outs = network(ctx, n, sets)
        want = default(outs)
        read(net, n, outs, want, 'default of %s' % (edges,))
        base = {v: dict(w) for v, w in want.items()}
        every = list(itertools.product(*[dists(len(outs[v]), den) if outs[v] else [()] for v in range(n)]))
        c = 0
        for i, ds in enumerate(every):
            new = {v: dict(zip(outs[v], ds[v])) for v in range(n)}
            mat = np.zeros((n, n))
            for v in range(n):
                for u, p in new[v].items():
                    mat[v, u] = p
            net.set_transitions(mat)
            want = {v: dict(new[v]) for v in range(n)}
            read(net, n, outs, want, 'matrix %s on %s' % (mat.tolist(), edges))
            mat[:] = 7          # the matrix still belongs to the caller
            read(net, n, outs, want, 'matrix changed afterwards on %s' % (edges,))
            # a dictionary of some vertices taken from another setting
            other = every[(i * 5 + 3) % len(every)]
            for sub in (1 << (i % n), (1 << n) - 1, (i * 3) % (1 << n)):
                part = {}
                for v in range(n):
                    if sub >> v & 1 and outs[v]:
                        full = dict(zip(outs[v], other[v]))
                        part[v] = full if i % 2 else {u: p for u, p in full.items() if p}      # zeros may be left out
                        want[v] = full
                net.set_transitions(part)
                read(net, n, outs, want, 'dictionary %s on %s' % (part, edges))
                c += 1
        ctx.step(c)
        ctx.state((edges, c))
        return edges, c
    return Scenario(name, run)


def refused(name, n, sets):
    """Everything that is no distribution over the out-edges of a vertex."""
    def run(ctx):
        net, edges, outs = network(ctx, n, sets)
        live = [v for v in range(n) if outs[v]]
        good = {}
        for v in live:
            k = len(outs[v])
            good[v] = {u: (2.0 * k - 1 - 2 * i) / (k * k) for i, u in enumerate(outs[v])}
        net.set_transitions({v: dict(p) for v, p in good.items()})
        want = {v: dict(good.get(v, {})) for v in range(n)}
        read(net, n, outs, want, 'dictionary %s on %s' % (good, edges))
        bads = []
        for v in live:
            o, absent = outs[v], [u for u in range(n) if u not in outs[v]]
            u = o[-1]
            one = {w: 0.0 for w in o}
            bads += [(v, dict(one)), (v, {w: 1.0 for w in o} if len(o) > 1 else {o[0]: 2.0})]
            d = dict(one)
            d[u] = 0.75
            bads.append((v, d))
            d = dict(one)
            d[u] = 1.25
            bads.append((v, d))
            for x in (1.001, 0.999):
                d = dict(one)
                d[u] = x
                bads.append((v, d))
            if len(o) > 1:
                for x in (5e-4, 1e-9):
                    d = dict(one)
                    d[u], d[o[0] if u != o[0] else o[-1]] = 1.0 + x, -x
                    bads.append((v, d))
            else:
                bads.append((v, {u: -5e-4}))
            if len(o) > 1:
                d = dict(one)
                d[o[0]], d[u] = 1.5, -0.5
                bads.append((v, d))
                d = dict(one)
                d[o[0]], d[u] = -0.5, 1.5
                bads.append((v, d))
            else:
                bads.append((v, {o[0]: -1.0}))
            for a in absent:
                bads.append((v, {a: 1.0}))
                d = dict(one)
                d[u], d[a] = 0.5, 0.5
                bads.append((v, d))
                d = dict(one)
                d[u], d[a] = 1.0, 1.0
                bads.append((v, d))
        mats, dicts = [], []
        for v, d in bads:
            m = np.zeros((n, n))
            for w in live:
                for u, p in (d if w == v else good[w]).items():
                    m[w, u] = p
            mats.append(m)
            dicts.append({v: d})
            w = [x for x in live if x != v]
            if w:
                flat = {u: 1.0 / len(outs[w[0]]) for u in outs[w[0]]}
                dicts.append({w[0]: flat, v: d})        # refused as a whole
        dicts += [{n: {0: 1.0}}, {-1: {0: 1.0}}, {live[0]: dict(good[live[0]]), n + 3: {}}, {'a': {0: 1.0}}]
        for shape in ((n, n + 1), (n + 1, n), (n + 1, n + 1), (n * n,), (n,), (n, n, 1)):
            mats.append(np.full(shape, 1.0 / n))
        if n > 1:
            mats.append(np.full((n - 1, n - 1), 1.0))
        for bad in mats + dicts:
            try:
                net.set_transitions(bad)
            except ValueError:
                pass
            except Exception as e:
                raise Violation('%s on %s: %s: %s instead of ValueError' % (bad, edges, type(e).__name__, e))
            else:
                raise Violation('accepted although no distribution over the out-edges %s: %s' % (outs, bad))
            read(net, n, outs, want, 'after the refused %s on %s' % (bad, edges))
        for bad in ([[1.0]], 'mat', None, 3, mats[0].tolist(), [{0: {1: 1}}], (1, 2)):
            try:
                net.set_transitions(bad)
            except TypeError:
                pass
            except Exception as e:
                raise Violation('%r on %s: %s: %s instead of TypeError' % (bad, edges, type(e).__name__, e))
            else:
                raise Violation('accepted %r' % (bad,))
            read(net, n, outs, want, 'after the refused %r on %s' % (bad, edges))
        ctx.step(len(mats) + len(dicts))
        ctx.state(edges)
        return edges, len(mats) + len(dicts)
    return Scenario(name, run)


def generated(name, n, sets):
    """A generated matrix is accepted and read back."""
    def run(ctx):
        net, edges, outs = network(ctx, n, sets)
        for seed in range(3):
            m = qt.generate_transition_matrix(net.g, seed=seed)
            net.set_transitions(m)
            want = {v: {u: float(m[v, u]) for u in outs[v]} for v in range(n)}
            read(net, n, outs, want, 'generated %s on %s' % (m.tolist(), edges))
            net.set_transitions(net.transitions(False))
            read(net, n, outs, want, 'dictionary read back and set again on %s' % (edges,))
            net.set_transitions(net.transitions())
            read(net, n, outs, want, 'matrix read back and set again on %s' % (edges,))
            if net.copy().transitions().tolist() != m.tolist():
                raise Violation('the copy of the network has other probabilities')
            ctx.step(3)
        ctx.state(edges)
        return edges
    return Scenario(name, run)


SMALL = [(2.0 ** -50, 1 - 2.0 ** -50), (1e-13, 1.0), (1e-300, 1.0), (5e-324, 1.0), (1 - 2.0 ** -53, 2.0 ** -53), (1e-9, 1 - 1e-9), (0.1, 0.2, 0.7), (1 / 3.0, 1 / 3.0, 1 / 3.0),
         (1e-7, 1e-13, 1 - 1e-7), (0.0, 1e-15, 1.0), (1.0, 0.0, 0.0), (1 / 7.0, 2 / 7.0, 4 / 7.0)]


def tiny(ctx):
    """Probabilities that are next to nothing, or not finite in binary, are kept as they are."""
    ps = ctx.pick(SMALL)
    vo, eo, adjust = ctx.pick((1, -1)), ctx.pick((1, -1)), ctx.choose(2) == 1
    n = 3
    edges = [(0, v) for v in range(len(ps))] + [(1, 0), (2, 1), (2, 0)]
    outs = {v: sorted(e[1] for e in edges if e[0] == v) for v in range(n)}
    net = qt.QueueNetwork(graphs.digraph(n, edges[::eo], {e: 1 for e in edges}, range(n)[::vo], pos=graphs.positions(n)), adjust_graph=adjust)
    want = default(outs)
    for k in range(len(ps)):
        qs = ps[k:] + ps[:k]
        want[0] = dict(zip(outs[0], qs))
        mat = np.zeros((n, n))
        for v in range(n):
            for u, p in want[v].items():
                mat[v, u] = p
        for how in (0, 1):
            net.set_transitions(default(outs))
            net.set_transitions(mat if how else {0: dict(want[0])})
            read(net, n, outs, want, '%s %s' % ('matrix' if how else 'dictionary', want[0]))
            net.set_transitions(net.transitions() if how else net.transitions(False))
            read(net, n, outs, want, '%s %s, read and set again' % ('matrix' if how else 'dictionary', want[0]))
    ctx.step(4 * len(ps))
    ctx.state((ps, vo, eo))
    return ps, vo, eo


def large(ctx):
    """Many vertices, and many edges out of one."""
    n = ctx.pick((17, 70, 270))
    vo, eo, hub = ctx.pick((1, -1)), ctx.pick((1, -1)), ctx.pick((0, 1))
    hub = hub * (n - 1)
    edges = sorted({(v, (v + 1) % n) for v in range(n)} | {(hub, v) for v in range(n)} | {(v, (v * 5 + 2) % n) for v in range(0, n, 3)})
    outs = {v: sorted(e[1] for e in edges if e[0] == v) for v in range(n)}
    net = qt.QueueNetwork(graphs.digraph(n, edges[::eo], {e: 1 for e in edges}, range(n)[::vo], pos=graphs.positions(n)))
    want = default(outs)
    read(net, n, outs, want, 'default of %d vertices' % n)
    for how in (0, 1):
        new = {}
        for v in range(n):
            k = len(outs[v])
            ws = [(j * 7 + v + how) % (k + 3) + 1.0 for j in range(k)]
            new[v] = {u: w / sum(ws) for u, w in zip(outs[v], ws)}
        mat = np.zeros((n, n))
        for v in range(n):
            for u, p in new[v].items():
                mat[v, u] = p
        net.set_transitions(mat if how else new)
        read(net, n, outs, new, '%s of %d vertices' % ('matrix' if how else 'dictionary', n))
    bad = dict(new)
    bad[n // 2] = {outs[n // 2][0]: 0.5}
    try:
        net.set_transitions(bad)
    except ValueError:
        pass
    else:
        raise Violation('%d vertices: accepted although the probabilities of vertex %d are %s' % (n, n // 2, bad[n // 2]))
    read(net, n, outs, new, 'after a refused dictionary of %d vertices' % n)
    ctx.step(3)
    ctx.state((n, vo, eo, hub))
    return n, vo, eo, hub


def used(sets, n):
    return [s for s in sets if {v for e in s for v in e} == set(range(n))]


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    three = used(graphs.edge_sets(3, 5 + e), 3)
    four = [((0, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3)), ((0, 3), (1, 3), (2, 3)), ((3, 0), (3, 1), (3, 2), (3, 3), (0, 3), (1, 3)),
            ((2, 0), (2, 1), (2, 3), (0, 2), (1, 2))]
    return [settings('two vertices', 2, used(graphs.edge_sets(2), 2), 4),
            settings('three vertices', 3, three[::1 if e else 4], 2),
            settings('four vertices', 4, four, 3 + e),
            refused('refused, two vertices', 2, used(graphs.edge_sets(2), 2)),
            refused('refused, three vertices', 3, three[::1 if e else 3]),
            refused('refused, four vertices', 4, four),
            Scenario('probabilities next to nothing', tiny), Scenario('large networks', large),
            generated('generated', 3, three[::1 if e else 5])]
