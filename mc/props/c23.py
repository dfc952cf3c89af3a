"""C23: random graph generators."""
from fractions import Fraction
import itertools
import math

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, Violation
from mc import graphs, rand, build

ASSUMPTIONS = ['uniform numbers come from finite alphabets (cell midpoints, 0 and the largest number below 1); graphs of at most five vertices',
               'top-share vertices and the vertices near them have loops of one of the types 2 and 3 each; which of the two is not judged']

ALPHABET = (0.0, 0.004, 0.37, rand.LAST)


def has_edge(g, e):
    return g.has_edge(*e)


def etypes(g):
    return {e: g.ep(e, 'edge_type') for e in g.edges()}


def matrices(name, n, sets, values=ALPHABET):
    def run(ctx):
        edges = ctx.pick(sets)
        vo = ctx.pick((tuple(range(n)), tuple(range(n - 1, -1, -1))))
        eo = ctx.pick((1, -1))
        outs = {v: sorted(e[1] for e in edges if e[0] == v) for v in range(n)}
        kinds = set()

        def fn():
            g = graphs.digraph(n, list(edges)[::eo], None, vo)
            m = qt.generate_transition_matrix(g)
            if m.shape != (n, n):
                raise Violation('edges %s: the shape is %s' % (edges, m.shape))
            for v in range(n):
                for u in range(n):
                    if u not in outs[v] and m[v, u] != 0:
                        raise Violation('edges %s: probability %r of the absent edge (%d, %d)' % (edges, m[v, u], v, u))
                    if not (0 <= m[v, u] <= 1):
                        raise Violation('edges %s: probability %r of (%d, %d)' % (edges, m[v, u], v, u))
                if outs[v] and not abs(m[v].sum() - 1) < 1e-9:
                    raise Violation('edges %s (inserted %s): row %d is %s with the sum %r' % (edges, list(edges)[::eo], v, m[v].tolist(), m[v].sum()))
            kinds.add(tuple(map(tuple, m.round(6).tolist())))
            return 0
        runs = len(rand.outcomes(fn, values=values))
        ctx.step(runs)
        for k in kinds:
            ctx.state((edges, k))
        return edges
    return Scenario(name, run)


def accepted(ctx):
    """A generated matrix is accepted by a network and is what the network then routes by."""
    edges = ctx.pick(graphs.edge_sets(3, 4, 2)[::7])

    def fn():
        g = graphs.digraph(3, edges, {e: 1 for e in edges}, pos=graphs.positions(3))
        m = qt.generate_transition_matrix(g)
        net = qt.QueueNetwork(g)
        net.set_transitions(m)
        back = net.transitions()
        for v in range(3):
            if any(e[0] == v for e in edges) and back[v].tolist() != m[v].tolist():
                raise Violation('edges %s: generated row %s, read back from the network %s' % (edges, m[v].tolist(), back[v].tolist()))
        return 0
    ctx.step(len(rand.outcomes(fn, values=(0.0, 0.37))))
    ctx.state(edges)
    return edges


def product(p, q):
    return {a + (b,): x * y for a, x in p.items() for b, y in q.items()}


def typed(name, tables, ltables, sets, cells=8, default=False):
    """The exact joint distribution of the edge types."""
    def run(ctx):
        n, edges = ctx.pick(sets)
        table, ltable = ctx.pick(tables), ctx.pick(ltables)
        eo = ctx.pick((1, -1))
        wrap = ctx.choose(2)
        es = sorted(edges)

        def fn():
            g = graphs.digraph(n, list(edges)[::eo])
            if wrap:
                g = qt.QueueNetworkDiGraph(g)
            kw = {}
            if table is not None:
                kw['proportions'] = {k: x / float(cells) for k, x in table}
            if ltable is not None:
                kw['loop_proportions'] = {k: x / float(cells) for k, x in ltable}
            g = qt.set_types_random(g, **kw)
            if sorted(g.edges()) != es or sorted(g.nodes()) != list(range(n)):
                raise Violation('typing %s changed the graph to %s' % (es, sorted(g.edges())))
            t = etypes(g)
            return tuple(int(t[e]) for e in es)
        got, runs = rand.distribution(fn, cells=cells)
        tb = table if table is not None else tuple((k, Fraction(cells, 3)) for k in (1, 2, 3))
        lb = ltable if ltable is not None else tuple((k, Fraction(cells, 4)) for k in range(4))
        want = {(): Fraction(1)}
        for e in es:
            want = product(want, {k: Fraction(x) / cells for k, x in (lb if e[0] == e[1] else tb) if x})
        if got != want:
            d = [k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)]
            k = min(d)
            raise Violation('edges %s with types %s and loop types %s (in cells of 1/%d): the types %s have probability %s instead of %s' % (
                es, tb, lb, cells, k, got.get(k, 0), want.get(k, 0)))
        ctx.step(runs)
        ctx.state((edges, table, ltable))
        return edges, len(got)
    return Scenario(name, run)


def refused(ctx):
    """Tables that do not sum to one are refused, whatever the edges, and the graph is left as it was."""
    edges = ctx.pick((((0, 1), (1, 1)), ((0, 1), (1, 0)), ((0, 0),)))
    which = ctx.pick(('proportions', 'loop_proportions'))
    d = ctx.pick(({1: 0.5}, {1: 0.5, 2: 0.4}, {1: 0.75, 2: 0.5}, {1: 1.0, 2: 1.0}, {0: 0.0}, {1: 0.2, 2: 0.2, 3: 0.2, 4: 0.2, 5: 0.1}, {}))
    made = ctx.choose(2)
    g = graphs.digraph(2, edges, {e: 7 for e in edges})
    if made:
        g = qt.QueueNetworkDiGraph(g)
    before = {e: dict(g.edges[e]) for e in g.edges()}
    try:
        rand.once(lambda: qt.set_types_random(g, **{which: d}))
    except ValueError:
        pass
    else:
        raise Violation('%s=%s is accepted for the edges %s' % (which, d, edges))
    after = {e: dict(g.edges[e]) for e in g.edges()}
    if after != before:
        raise Violation('the refused %s=%s changed the graph from %s to %s' % (which, d, before, after))
    ctx.step()
    ctx.state((edges, which, tuple(d)))
    return edges, which, tuple(d)


def placed(points):
    """A decider whose first draws are the positions of the vertices."""
    fixed = [x for p in points for x in p]

    class Placed(rand.Decider):
        n = 0

        def u(self):
            self.n += 1
            if self.n <= len(fixed):
                return fixed[self.n - 1]
            return rand.Decider.u(self)
    return Placed


def geometric(g, n, what):
    """The edges a minimal random graph with these positions has; checks that g has all its vertices."""
    if sorted(g.nodes()) != list(range(n)):
        raise Violation('%s: asked for %d vertices, got %s' % (what, n, sorted(g.nodes())))
    pos = {v: g.vp(v, 'pos') for v in range(n)}
    d = {}
    for a, b in itertools.combinations(range(n), 2):
        w = pos[a] - pos[b]
        d[a, b] = float(w[0]) ** 2 + float(w[1]) ** 2
    for r in sorted(set(d.values())):
        h = nx.Graph()
        h.add_nodes_from(range(n))
        h.add_edges_from(e for e in d if d[e] <= r)
        if nx.is_connected(h):
            return {(a, b) for a, b in h.edges()} | {(b, a) for a, b in h.edges()}, pos
    return set(), pos


def minimal(name, n, grid, gridy=None):
    spots = list(itertools.product(grid, gridy or grid))

    def run(ctx):
        flat = [x for _ in range(n) for x in ctx.pick(spots)]
        it = iter(flat)

        def handler(name, real, args, kwargs):
            d = rand.Decider([], 1)
            d.u = lambda: next(it)
            return d(name, real, args, kwargs)
        build.HOOK.handler = handler
        try:
            g = qt.minimal_random_graph(n)
        finally:
            build.HOOK.handler = None
        want, pos = geometric(g, n, 'minimal random graph')
        got = set(g.edges())
        if got != want:
            raise Violation('vertices at %s: the edges are %s, the pairs no farther apart than the least connecting distance are %s' % (
                [pos[v].tolist() for v in range(n)], sorted(got), sorted(want)))
        if sorted(x for v in range(n) for x in pos[v]) != sorted(10 * x for x in flat):
            raise Violation('drawn coordinates %s, positions %s' % (flat, [pos[v].tolist() for v in range(n)]))
        ctx.step()
        ctx.state(tuple(flat))
        return tuple(sorted(got))
    return Scenario(name, run)


POINTS = {1: [((0.5, 0.5),)],
          2: [((0.0, 0.0), (0.5, 0.25))],
          3: [((0.0, 0.0), (0.25, 0.0), (0.75, 0.5)), ((0.0, 0.0), (0.25, 0.0), (0.0, 0.375)), ((0.5, 0.0), (0.5, 0.5), (0.5, 0.25))]}


def random_graph(ctx):
    """Every vertex gets a loop with exactly the given probability, and types are drawn from both tables."""
    n = ctx.pick((1, 2, 3))
    pts = ctx.pick(POINTS[n])
    k = ctx.pick((0, 1, 2, 4) if n < 3 else (0, 3, 4))
    plain = {1: 1.0} if n == 3 else {1: 0.5, 2: 0.5}
    loops = {0: 0.25, 3: 0.75} if n < 3 else {3: 1.0}

    def fn():
        g = qt.generate_random_graph(n, prob_loop=k / 4.0, proportions=plain, loop_proportions=loops)
        want, pos = geometric(g, n, 'random graph')
        t = etypes(g)
        if {e for e in t if e[0] != e[1]} != want:
            raise Violation('random graph with vertices at %s: edges %s instead of %s' % (pts, sorted(t), sorted(want)))
        return tuple(sorted((e, int(x)) for e, x in t.items()))
    got, runs = rand.distribution(fn, cells=4, cls=placed(pts))
    es = sorted({e for r in got for e, _ in r if e[0] != e[1]})
    want = {}
    for sub in itertools.product((0, 1), repeat=n):
        p = Fraction(1)
        for s in sub:
            p *= Fraction(k, 4) if s else 1 - Fraction(k, 4)
        if not p:
            continue
        alll = es + [(v, v) for v in range(n) if sub[v]]
        for ts in itertools.product(*[sorted(loops if e[0] == e[1] else plain) for e in alll]):
            q = p
            for e, x in zip(alll, ts):
                q *= Fraction((loops if e[0] == e[1] else plain)[x])
            want[tuple(sorted(zip(alll, ts)))] = q
    if got != want:
        r = min(x for x in set(got) | set(want) if got.get(x, 0) != want.get(x, 0))
        raise Violation('%d vertices, prob_loop=%d/4, types %s and loop types %s: the graph %s has probability %s instead of %s' % (
            n, k, plain, loops, r, got.get(r, 0), want.get(r, 0)))
    ctx.step(runs)
    ctx.state((n, pts, k))
    return n, pts, k


def loops_of_extremes(ctx):
    """Probability 0 never gives a loop, probability 1 always does, whatever is drawn."""
    n = ctx.pick((1, 2, 3))
    prob = ctx.pick((0, 1, 0.0, 1.0))
    seen = set()

    def fn():
        g = qt.generate_random_graph(n, prob_loop=prob, proportions={1: 1.0}, loop_proportions={2: 1.0})
        loops = [v for v in range(n) if g.has_edge(v, v)]
        if loops != (list(range(n)) if prob else []):
            raise Violation('prob_loop=%r: loops at %s of %d vertices' % (prob, loops, n))
        seen.add(tuple(loops))
        return 0
    runs = rand.outcomes(fn, values=(0.0, rand.LAST), cls=placed(POINTS[n][0]))
    ctx.step(len(runs))
    ctx.state((n, prob))
    return n, str(prob), tuple(seen)


def check_rank(g, n, base, rank, p2, p3, what):
    """base: the edges before typing."""
    nd, nf = int(math.ceil(n * p2)), int(p3 * n)
    order = sorted(rank, reverse=True)
    top = {v for v in range(n) if nd and rank[v] >= order[nd - 1]}
    t = etypes(g)
    if sorted(g.nodes()) != list(range(n)):
        raise Violation('%s: the vertices are %s' % (what, sorted(g.nodes())))
    missing = [e for e in base if e not in t]
    if missing:
        raise Violation('%s: the edges %s are gone' % (what, missing))
    bad = [v for v in top if (v, v) not in t]
    if bad:
        raise Violation('%s: ranks %s, the top-share vertices %s have no loop' % (what, rank, bad))
    tt = {t[(v, v)] for v in top}
    if len(tt) > 1 or not tt <= {2, 3}:
        raise Violation('%s: the loops of the top-share vertices %s have the types %s' % (what, sorted(top), sorted(tt)))
    near = [v for v in range(n) if (v, v) in t and v not in top and t[(v, v)] in (2, 3)]
    for v in near:
        if tt and t[(v, v)] in tt:
            raise Violation('%s: ranks %s, vertex %d is not in the top share %s and its loop has the same type' % (what, rank, v, sorted(top)))
    if len(near) > nf or (near and not top):
        raise Violation('%s: %d vertices %s are marked as near the top-share vertices %s, at most %d were asked for' % (what, len(near), near, sorted(top), nf))
    if top and nf and len(top) < n and not near:
        raise Violation('%s: no vertex is marked as near the top-share vertices %s' % (what, sorted(top)))
    for e in t:
        if e[0] == e[1] and (e[0] in top or e[0] in near):
            continue
        if e not in base:
            raise Violation('%s: the edge %s has appeared' % (what, e))
        if t[e] != 1:
            raise Violation('%s: the edge %s has the type %r instead of 1' % (what, e, t[e]))
    return tuple(sorted(top)), tuple(near)


def ranks(name, n, sets, ranksets, shares):
    def run(ctx):
        edges = ctx.pick(sets)
        rank = ctx.pick(ranksets)
        p2, p3 = ctx.pick(shares)
        vo = ctx.pick((tuple(range(n)), tuple(range(n - 1, -1, -1))))
        g = graphs.digraph(n, edges, {e: 5 for e in edges}, vo, pos=graphs.positions(n))
        us = set()

        def fn():
            h = qt.set_types_rank(g.copy(), rank=np.array(rank, float), pType2=p2, pType3=p3)
            us.add(check_rank(h, n, edges, rank, p2, p3, 'set_types_rank(rank=%s, pType2=%r, pType3=%r) on %s' % (list(rank), p2, p3, edges)))
            return 0
        runs = len(rand.outcomes(fn, values=(0.0, 0.6) if p3 <= 0.5 else (0.3,)))
        ctx.step(runs)
        ctx.state((edges, rank, p2, p3))
        return tuple(sorted(us))
    return Scenario(name, run)


def pagerank(ctx):
    n = 4
    spots = ((0.0, 0.0), (0.25, 0.5), (0.5, 0.0), (0.75, 0.75), (0.0, 1.0))
    pts = [ctx.pick(spots[i:] + spots[:i]) for i in range(n)]
    p2, p3 = ctx.pick(((0.25, 0.25), (0.5, 0.25), (0.0, 0.25), (0.25, 0.0)))

    def fn():
        g = qt.generate_pagerank_graph(n, pType2=p2, pType3=p3)
        h = nx.DiGraph()
        h.add_nodes_from(g.nodes())
        base, _ = geometric(g, n, 'pagerank graph')
        h.add_edges_from(e for e in g.edges() if e in base)
        pr = nx.pagerank_numpy(h)
        what = 'generate_pagerank_graph(pType2=%r, pType3=%r) with vertices at %s' % (p2, p3, pts)
        t = etypes(g)
        loops = {k: {v for v in range(n) if t.get((v, v)) == k} for k in (1, 2, 3)}
        odd = [e for e in t if t[e] not in ((2, 3) if e[0] == e[1] else (1,))]
        if odd or set(e for e in t if e[0] != e[1]) != base:
            raise Violation('%s: edges and types are %s' % (what, t))
        rank = {v: float(pr[v]) for v in range(n)}
        nd, nf = int(math.ceil(n * p2)), int(p3 * n) if p2 else 0
        thr = sorted(rank.values(), reverse=True)[nd - 1] if nd else 2.0

        def fits(top, near):
            """The top share, ranks closer than rounding errors taken as equal."""
            return (all(v in top for v in rank if rank[v] > thr + 1e-6) and all(rank[v] > thr - 1e-6 for v in top) and
                    len(top) >= nd and len(near) <= nf and bool(near) == bool(nf and top and len(top) < n))
        if not (fits(loops[2], loops[3]) or fits(loops[3], loops[2])):
            raise Violation('%s: page ranks %s, types %s' % (what, rank, t))
        return tuple(sorted(loops[2])), tuple(sorted(loops[3]))
    order = []
    for w, r, _ in rand.outcomes(fn, values=(0.2,), cls=placed(pts)):
        order.append(r)
    ctx.step(len(order))
    ctx.state((tuple(pts), p2, p3))
    return order[0]


def scenarios(tier):
    th = tier == 'thorough'
    s = [matrices('matrices on two vertices', 2, graphs.edge_sets(2)),
         matrices('matrices on three vertices', 3, graphs.edge_sets(3, 4)[::1 if th else 4]),
         matrices('matrices on stars', 6, [tuple((2, u) for u in us) for us in ((0, 1, 3, 4), (0, 2, 4, 5), (0, 1, 2, 3, 5))]),
         matrices('matrices on large stars', 10, [tuple((4, u) for u in range(10) if u != 7)], values=(0.0, 0.004, 0.9) if th else (0.004, 0.9)),
         Scenario('generated matrices in a network', accepted)]
    small = [(2, e) for e in graphs.edge_sets(2, 3)]
    tabs = (((1, 8),), ((1, 3), (2, 5)), ((4, 1), (0, 7)), ((2, 2), (1, 0), (9, 6)))
    s += [typed('types of a few edges', tabs, tabs[1:] if not th else tabs, small),
          typed('default tables', (None, ((1, 6), (2, 6))), (None, ((0, 12),)), [(2, e) for e in graphs.edge_sets(2, 2)], cells=12),
          typed('four edges', (((1, 1), (2, 1), (3, 2)),), (((0, 3), (2, 1)),), [(2, graphs.edge_sets(2, 4, 4)[0])] + [(3, e) for e in graphs.edge_sets(3, 4, 4)[::9 if not th else 2]], cells=4),
          Scenario('tables that do not sum to one', refused),
          minimal('one and two vertices', 2, (0.0, 0.25, 0.5, rand.LAST)),
          minimal('distances nearly equal', 3, (0.0, 0.5, 0.5 + 2.0 ** -30)),
          minimal('distances nearly equal, four vertices', 4, (0.25, 0.5), (0.0, 0.25, 0.25 + 2.0 ** -31)),
          minimal('one vertex', 1, (0.0, 0.5)),
          minimal('three vertices', 3, (0.0, 0.25, 0.5, 0.75) if not th else (0.0, 0.125, 0.25, 0.5, 0.75)),
          minimal('four vertices', 4, (0.0, 0.25, 0.625), (0.0, 0.25) if not th else None),
          Scenario('loops of random graphs', random_graph), Scenario('loops with probability 0 and 1', loops_of_extremes)]
    if th:
        s.append(minimal('five vertices', 5, (0.0, 0.25, 0.625), (0.0, 0.25)))
    perms = list(itertools.permutations((1, 2, 4)))
    ties = [(1, 1, 2), (2, 2, 1), (3, 3, 3)]
    sh3 = [(a, b) for a in (0.0, 0.25, 0.5, 0.75, 1.0) for b in (0.0, 0.5, 1.0)]
    s += [ranks('ranks of three vertices', 3, graphs.edge_sets(3, 3)[::6 if not th else 1], perms + ties, sh3),
          ranks('ranks of four vertices', 4, [((0, 1), (1, 2), (2, 3), (3, 0)), ((0, 0), (0, 1), (1, 3), (3, 3), (3, 2))],
                list(itertools.permutations((1, 2, 3, 4)))[::1 if th else 3], [(0.25, 0.25), (0.5, 0.25), (0.25, 0.5), (0.5, 0.5), (0.0, 0.25), (1.0, 0.25)]),
          ranks('rank of one vertex', 1, [((0, 0),), ()], [(1,)], sh3),
          Scenario('page rank', pagerank)]
    return s
