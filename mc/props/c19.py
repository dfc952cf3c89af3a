"""C19: adjacency input in any form."""
import copy
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs

ASSUMPTIONS = ['vertices are 0..n-1 with n at most 4, every edge set up to a bound; types given in a matrix are not 0, which means unspecified there']


def adjacency(form, n, edges, attrs, rot):
    """The input in the given form; keys start at vertex `rot`."""
    keys = [(v + rot) % n for v in range(n)]
    if form == 'lists':
        return {u: [v for v in keys if (u, v) in attrs] for u in keys}
    if form == 'tuples':
        return {u: tuple(v for v in keys if (u, v) in attrs) for u in keys}
    if form == 'dicts':
        return {u: {v: {} for v in keys if (u, v) in attrs} for u in keys}
    if form == 'attributes':
        return {u: {v: dict(attrs[u, v]) for v in keys if (u, v) in attrs} for u in keys}
    if form == 'sources':       # only vertices that have out-edges are keys
        return {u: {v: {} for v in keys if (u, v) in attrs} for u in keys if any(e[0] == u for e in edges)}
    if form == 'source lists':
        return {u: [v for v in keys if (u, v) in attrs] for u in keys if any(e[0] == u for e in edges)}
    if form == 'shared':
        d = {}
        return {u: {v: d for v in keys if (u, v) in attrs} for u in keys}
    m = np.zeros((n, n), {'matrix': int, 'flags': bool}.get(form, float))
    for i, e in enumerate(edges):
        m[e] = {'matrix': 1, 'flags': True, 'weights': 0.5 + i}.get(form, (-1.5, 1e-300, -0.25, 7.0)[i % 4])
    return m


def types_in(form, n, types):
    if form is None:
        return None
    if form == 'matrix':
        m = np.zeros((n, n), int)
        for e, t in types.items():
            m[e] = t
        return m
    d = {}
    for (u, v), t in types.items():
        d.setdefault(u, {})[v] = t
    return d


def expected(n, edges, attrs, types, adjust):
    want = {u: {} for u in {v for e in edges for v in e}}
    for e in edges:
        a = dict(attrs[e])
        if e in types:
            a['edge_type'] = types[e]
        if a.get('edge_type') is None:
            a['edge_type'] = 1
        want[e[0]][e[1]] = a
    ends = [v for v in want if not want[v]]
    for v in ends:
        if adjust == 2:
            for u in want:
                if v in want[u]:
                    want[u][v]['edge_type'] = 0
        else:
            want[v][v] = {'edge_type': 0}
    return want


FORMS = ('lists', 'dicts', 'attributes', 'tuples', 'sources', 'source lists', 'shared', 'matrix', 'weights', 'flags', 'signed')


def same(x, y):
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and np.array_equal(x, y)
    return x == y


def graphs_of(name, n, sets, palette, forms=FORMS, part=6):
    def run(ctx):
        form = ctx.pick(forms)
        tform = ctx.pick((None, 'dict', 'matrix'))
        adjust = ctx.pick((1, 2, 0))
        p = ctx.choose(part)
        c = 0
        for edges in sets[p::part]:
            for given in itertools.product(palette, repeat=len(edges)):
                inside = form == 'attributes'
                if tform is None and not inside and any(given):
                    continue
                if tform == 'dict':
                    types = {e: t for e, t in zip(edges, given) if t is not None}
                elif tform == 'matrix':
                    types = {e: t for e, t in zip(edges, given) if t}
                else:
                    types = {}
                attrs = {e: {} for e in edges}
                if inside:
                    for i, e in enumerate(edges):
                        if given[i - 1] is not None:
                            attrs[e]['edge_type'] = given[i - 1]
                        if i % 2:
                            attrs[e]['weight'] = i
                adj = adjacency(form, n, edges, attrs, c % n)
                if isinstance(adj, dict) and not adj:
                    continue
                if form in ('weights', 'matrix', 'flags', 'signed') or form in ('lists', 'tuples', 'dicts', 'attributes', 'shared'):
                    verts = set(range(n))
                else:
                    verts = {v for e in edges for v in e}
                et = types_in(tform, n, types)
                adj0, et0 = copy.deepcopy(adj), copy.deepcopy(et)
                want = expected(n, edges, attrs, types, adjust)
                for v in verts - set(want):
                    want[v] = {v: {'edge_type': 0}} if adjust != 2 else {}
                what = 'adjacency %s (%s), edge types %s, adjust=%d' % (adj0, form, et0, adjust)
                g = qt.adjacency2graph(adj, edge_type=et, adjust=adjust)
                got = {u: {v: dict(d) for v, d in nb.items()} for u, nb in g.adj.items()}
                if got != want:
                    raise Violation('%s: the graph is\n  %s, described is\n  %s' % (what, got, want))
                if not same(adj, adj0) or not same(et, et0):
                    raise Violation('%s: the input was changed to %s, %s' % (what, adj, et))
                back = qt.graph2dict(g)
                if {u: {v: dict(d) for v, d in nb.items()} for u, nb in back.items()} != want:
                    raise Violation('%s: converted back %s, described is %s' % (what, back, want))
                flat = qt.graph2dict(g, False)
                if {u: sorted(x) for u, x in flat.items()} != {u: sorted(x) for u, x in want.items()}:
                    raise Violation('%s: converted back to lists %s, described is %s' % (what, flat, want))
                again = qt.adjacency2graph(copy.deepcopy(back), adjust=adjust)
                if {u: {v: dict(d) for v, d in nb.items()} for u, nb in again.adj.items()} != want:
                    raise Violation('%s: converted back and forth %s, was %s' % (what, again.adj, want))
                if isinstance(adj, dict):
                    w = qt.QueueNetworkDiGraph(adj, edge_type=et, adjust=adjust)
                    if {u: {v: dict(d) for v, d in nb.items()} for u, nb in w.adj.items()} != want:
                        raise Violation('%s: the wrapper has %s, described is %s' % (what, w.adj, want))
                    if not same(adj, adj0) or not same(et, et0):
                        raise Violation('%s: the input was changed to %s, %s' % (what, adj, et))
                c += 1
        ctx.step(c)
        ctx.state((form, tform, adjust, p))
        return form, tform, adjust, p, c
    return Scenario(name, run)


def wrong(ctx):
    for bad in ([], 'a', 3, None, [[0, 1]], (0, 1), {1, 2}):
        try:
            qt.adjacency2graph(bad)
        except TypeError:
            continue
        except Exception as e:
            raise Violation('%r: %s instead of TypeError' % (bad, type(e).__name__))
        raise Violation('accepted %r as an adjacency' % (bad,))
    ctx.step(7)
    ctx.state(0)
    return 0


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    four = [((0, 1), (1, 2), (2, 3)), ((0, 3), (1, 3), (2, 3)), ((3, 0), (3, 1), (3, 2)), ((0, 1), (0, 2), (1, 3), (2, 3)), ((2, 2), (2, 0), (1, 0), (3, 2))]
    return [graphs_of('two vertices', 2, graphs.edge_sets(2), (None, 2, 0, 5)),
            graphs_of('three vertices', 3, graphs.edge_sets(3, 2 + e), (None, 3, 0)),
            graphs_of('three vertices, all edge sets', 3, graphs.edge_sets(3), (None,)),
            graphs_of('four vertices', 4, four, (None, 4, 0)),
            Scenario('wrong types', wrong)]
