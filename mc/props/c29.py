"""C29: edge indices and properties of the graph wrapper."""
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs

ASSUMPTIONS = ['vertices are 0..n-1, n at most 4; property arrays (colours) are made after the last edge is added']


def initial(form, n, edges):
    """A wrapper and the edges it must have."""
    es = set(edges)
    if form == 'digraph':
        return qt.QueueNetworkDiGraph(graphs.digraph(n, edges)), es
    if form == 'reversed':
        return qt.QueueNetworkDiGraph(graphs.digraph(n, edges, None, range(n - 1, -1, -1), range(len(edges) - 1, -1, -1))), es
    if form == 'list':
        return qt.QueueNetworkDiGraph(list(edges)), es
    if form == 'wrapper':
        return qt.QueueNetworkDiGraph(qt.QueueNetworkDiGraph(graphs.digraph(n, edges))), es
    if form == 'matrix':
        m = np.zeros((n, n))
        for e in edges:
            m[e] = 1
        return qt.QueueNetworkDiGraph(m), es
    if form in ('dict', 'dicts'):
        adj = {u: ({} if form == 'dicts' else []) for u in range(n)}
        for u, v in edges:
            if form == 'dicts':
                adj[u][v] = {}
            else:
                adj[u].append(v)
        for u in range(n):
            if not adj[u]:
                es.add((u, u))
        return qt.QueueNetworkDiGraph(adj), es
    raise AssertionError(form)


def check_index(g, es, before, what):
    idx = dict(g.edge_index)
    if set(g.edges()) != es:
        raise Violation('%s: the graph has the edges %s instead of %s' % (what, sorted(g.edges()), sorted(es)))
    if set(idx) != es or sorted(idx.values()) != list(range(len(es))):
        raise Violation('%s: the edges %s are numbered %s' % (what, sorted(es), idx))
    for e, i in before.items():
        if idx[e] != i:
            raise Violation('%s: edge %s was number %d and is now %d' % (what, e, i, idx[e]))
    for e in es:
        if not g.is_edge(e):
            raise Violation('%s: is_edge(%s) is false' % (what, e))
    return idx


def growing(name, n, most, forms, steps, bulk=True):
    sets = [()] + graphs.edge_sets(n, most)
    ps = graphs.pairs(n + 1)

    def run(ctx):
        form = ctx.pick(forms)
        part = ctx.choose(8)
        c = 0
        for edges in sets[part::8]:
            if form == 'matrix' and not edges:
                continue
            for adds in itertools.product(ps, repeat=steps):
                g, es = initial(form, n, edges)
                idx = check_index(g, es, {}, '%s %s' % (form, edges))
                done = []
                if bulk and steps > 1:
                    # the first by itself, the others together
                    g.add_edge(*adds[0])
                    es.add(adds[0])
                    done.append(adds[0])
                    idx = check_index(g, es, idx, '%s %s then add_edge %s' % (form, edges, done))
                    g.add_edges_from(list(adds[1:]))
                    es.update(adds[1:])
                    idx = check_index(g, es, idx, '%s %s then add_edge %s and add_edges_from %s' % (form, edges, done, adds[1:]))
                else:
                    for a in adds:
                        g.add_edge(*a, edge_type=len(done) + 1)
                        es.add(a)
                        done.append(a)
                        idx = check_index(g, es, idx, '%s %s then add_edge %s' % (form, edges, done))
                c += steps
        ctx.step(c)
        ctx.state((form, part))
        return form, part, c
    return Scenario(name, run)


def properties(name, n, most, writes, bound=0):
    """Any edges, in any wrapper, then any writes: everything is read back from its owner only."""
    sets = [s for s in graphs.edge_sets(n, most) if {v for e in s for v in e} == set(range(n))]

    def run(ctx):
        edges = ctx.pick(sets)
        form = ctx.pick(('digraph', 'reversed', 'dict'))
        g, es = initial(form, n, edges)
        if ctx.choose(2):
            e = (n - 1, 0)
            g.add_edge(*e)
            es.add(e)
        order = sorted(es)
        g.new_edge_property('edge_color')
        g.new_edge_property('w')
        g.new_vertex_property('vertex_color')
        g.new_vertex_property('vertex_fill_color')
        g.new_vertex_property('size')
        for ws in itertools.product(range(len(order)), repeat=writes):
            model = {}
            for e in order:
                model[e, 'edge_type'] = g.ep(e, 'edge_type')
            if ws[0]:
                for e in order:
                    g.set_ep(e, 'edge_type', 1)
                    g.set_ep(e, 'w', None)
                    model[e, 'edge_type'] = 1
                    model[e, 'w'] = None
            vm = {}
            for j, w in enumerate(ws):
                e = order[w]
                g.set_ep(e, 'edge_type', 2 + j)
                g.set_ep(e, 'w', ('w', j))
                col = [0.125 * j, 0.25, 0.5, 1.0]
                g.set_ep(e, 'edge_color', col)
                model[e, 'edge_type'], model[e, 'w'], model[e, 'edge_color'] = 2 + j, ('w', j), col
                v = (w + j) % n
                g.set_vp(v, 'vertex_color', [0.5, 0.125 * j, 0, 1])
                g.set_vp(v, 'vertex_fill_color', [0.25, 0.125 * j, 0, 1])
                g.set_vp(v, 'size', j)
                vm[v] = j
            for e in order:
                for p in ('edge_type', 'w'):
                    if (e, p) in model and g.ep(e, p) != model[e, p]:
                        raise Violation('graph %s, writes to %s: %s of edge %s is %r, not %r' % (
                            sorted(es), [order[w] for w in ws], p, e, g.ep(e, p), model[e, p]))
                if (e, 'edge_color') in model:
                    got = [list(map(float, g.ep(e, 'edge_color'))), list(map(float, g.edge_color[g.edge_index[e]]))]
                    if got != [model[e, 'edge_color']] * 2:
                        raise Violation('graph %s, writes to %s: the colour of edge %s is %r, in the list of colours %r' % (
                            sorted(es), [order[w] for w in ws], e, got[0], got[1]))
            for v, j in vm.items():
                if g.vp(v, 'size') != j or list(g.vp(v, 'vertex_color'))[1] != 0.125 * j or list(g.vertex_color[v])[1] != 0.125 * j \
                        or list(g.vertex_fill_color[v])[:2] != [0.25, 0.125 * j]:
                    raise Violation('graph %s, writes %s: vertex %d does not show what was set last' % (sorted(es), ws, v))
            for t in range(0, writes + 4):
                want = sorted(e for e in order if model[e, 'edge_type'] == t)
                if sorted(g.get_edge_type(t)) != want:
                    raise Violation('graph %s: edges of type %d are %s, not %s' % (sorted(es), t, g.get_edge_type(t), want))
            ctx.step(writes)
        if not {'edge_type', 'w', 'edge_color'} <= set(g.edge_properties()) or not {'size', 'vertex_color'} <= set(g.vertex_properties()):
            raise Violation('the names of properties are %s and %s' % (g.edge_properties(), g.vertex_properties()))
        for v in range(n):
            want = sorted(e[1] for e in es if e[0] == v)
            if sorted(g.out_neighbours(v)) != want:
                raise Violation('graph %s: out-neighbours of %d are %s' % (sorted(es), v, g.out_neighbours(v)))
        ctx.state((form, tuple(order)))
        return form, tuple(order)
    return Scenario(name, run, bound)


def added(ctx):
    """Edges, new ones and ones that are there, added with properties: those named change, on those edges, nothing else does."""
    n = 3
    edges = ctx.pick([s for s in graphs.edge_sets(n, 3, 1)][::3])
    form = ctx.pick(('digraph', 'reversed', 'wrapper', 'dict'))
    bulk = ctx.choose(3)
    ps = graphs.pairs(n + 1)
    for adds in itertools.product(ps, repeat=2):
        g, es = initial(form, n, edges)
        want = {}
        for i, e in enumerate(sorted(es)):
            for k, x in (('edge_type', 1 + i), ('w', ('w', i))):
                g.set_ep(e, k, x)
            want[e] = {'edge_type': 1 + i, 'w': ('w', i)}
        idx = dict(g.edge_index)
        if bulk == 1:
            g.add_edges_from(list(adds), edge_type=9, mark=0)
            new = [(a, {'edge_type': 9, 'mark': 0}) for a in adds]
        elif bulk == 2:
            g.add_edges_from([adds[0] + ({'edge_type': 7},), adds[1] + ({'mark': 3, 'w': None},)])
            new = [(adds[0], {'edge_type': 7}), (adds[1], {'mark': 3, 'w': None})]
        else:
            g.add_edge(*adds[0], edge_type=8)
            g.add_edge(*adds[1], mark=5, w='new')
            new = [(adds[0], {'edge_type': 8}), (adds[1], {'mark': 5, 'w': 'new'})]
        for e, kw in new:
            want.setdefault(e, {}).update(kw)
        es.update(adds)
        what = '%s %s, then %s added in way %d' % (form, sorted(edges), new, bulk)
        check_index(g, es, idx, what)
        for e in sorted(es):
            got = {k: g.ep(e, k) for k in ('edge_type', 'mark', 'w')}
            if {k: want[e].get(k) for k in got} != got:
                raise Violation('%s: edge %s has %s, not %s' % (what, e, got, want[e]))
        for t in range(10):
            if sorted(g.get_edge_type(t)) != sorted(e for e in es if want[e].get('edge_type') == t):
                raise Violation('%s: edges of type %d are %s' % (what, t, sorted(g.get_edge_type(t))))
        ctx.step(2)
    ctx.state((edges, form, bulk))
    return edges, form, bulk


PLACES = ((0.0, 0.0), (0.25, 0.5), (1.0, -0.5), (0.25, 0.75))


def lengths(ctx):
    """The length of an edge depends on where its two ends are and on nothing else."""
    n = 3
    edges = ctx.pick([s for s in graphs.edge_sets(n, 4, 2) if {v for e in s for v in e} == set(range(n))][::3])
    where = ctx.pick(list(itertools.permutations(range(len(PLACES)), n))[::2] + [(0, 0, 1), (2, 2, 2)])
    pos = [PLACES[i] for i in where]
    wrap = ctx.choose(2)
    seen = {}
    for vo in itertools.permutations(range(n)):
        for eo in (1, -1):
            g = graphs.digraph(n, list(edges)[::eo], {e: 1 + i for i, e in enumerate(edges)}, vo, pos=dict(enumerate(pos)))
            if wrap:
                g = qt.QueueNetworkDiGraph(g)
            g = qt.add_edge_lengths(g)
            what = 'edges %s with vertices at %s, inserted in the order %s and %d' % (edges, pos, vo, eo)
            if set(g.edges()) != set(edges) or sorted(g.nodes()) != list(range(n)):
                raise Violation('%s: measuring the edges changed the graph to %s' % (what, sorted(g.edges())))
            check_index(g, set(edges), {}, what)
            for i, e in enumerate(edges):
                x = g.ep(e, 'edge_length')
                if x is None or not x >= 0 or (x > 0) != (pos[e[0]] != pos[e[1]]):
                    raise Violation('%s: the length of edge %s is %r' % (what, e, x))
                k = frozenset((pos[e[0]], pos[e[1]]))
                y = seen.setdefault(k, x)
                if abs(x - y) > 0.0011:
                    raise Violation('%s: the length between %s is %r here and %r elsewhere' % (what, sorted(k), x, y))
                if g.ep(e, 'edge_type') != 1 + i or any(tuple(g.vp(v, 'pos')) != tuple(pos[v]) for v in range(n)):
                    raise Violation('%s: measuring the edges changed types or positions' % what)
    for k, x in seen.items():
        g = qt.add_edge_lengths(graphs.digraph(2, [(0, 1)], pos=dict(enumerate(list(sorted(k)) * (3 - len(k))))))
        y = g.ep((0, 1), 'edge_length')
        if abs(x - y) > 0.0011:
            raise Violation('edges %s with vertices at %s: the length between %s is %r, and %r in a graph of two vertices' % (edges, pos, sorted(k), x, y))
    ctx.step(12)
    ctx.state((edges, where))
    return edges, where, wrap


def names(ctx):
    """The names of properties are those that any vertex or edge has."""
    n = 3
    edges = ctx.pick([s for s in graphs.edge_sets(n, 4, 2) if {v for e in s for v in e} == set(range(n))][::5])
    form = ctx.pick(('digraph', 'reversed', 'dict'))
    vs = ctx.pick([s for r in range(n + 1) for s in itertools.combinations(range(n), r)])
    g, es = initial(form, n, edges)
    order = sorted(es)
    v0, e0 = set(g.vertex_properties()), set(g.edge_properties())
    have = {k for d in (g.adj[e[0]][e[1]] for e in order) for k in d}
    if v0 != {k for v in range(n) for k in g.nodes[v]} or e0 != have:
        raise Violation('graph %s: the names of properties are %s and %s' % (order, v0, e0))
    ves = []
    for j, v in enumerate(vs):
        g.set_vp(v, 'mark %d' % j, 0)
        e = order[v % len(order)]
        g.set_ep(e, 'flag %d' % j, None)
        ves.append(e)
        if set(g.vertex_properties()) != v0 | {'mark %d' % i for i in range(j + 1)} or set(g.edge_properties()) != e0 | {'flag %d' % i for i in range(j + 1)}:
            raise Violation('graph %s, properties set on the vertices %s and edges %s: the names are %s and %s' % (
                order, vs[:j + 1], ves, sorted(g.vertex_properties()), sorted(g.edge_properties())))
    ctx.step(2 * len(vs))
    ctx.state((form, edges, vs))
    return form, edges, vs


def large(ctx):
    """Graphs with many edges."""
    kind = ctx.choose(4)
    n = (300, 40, 200, 11)[kind]
    edges = ([(i, (i + 1) % n) for i in range(n)], [(a, b) for a in range(n) for b in range(n)], [(0, v) for v in range(1, n)] + [(v, 0) for v in range(1, n)],
             [(a, b) for a in range(n) for b in range(n) if (a + b) % 2])[kind]
    form = ctx.pick(('digraph', 'reversed', 'list', 'wrapper'))
    g, es = initial(form, n, edges)
    idx = check_index(g, es, {}, 'large graph %d as %s' % (kind, form))
    for e, i in idx.items():
        g.set_ep(e, 'edge_type', 1 + i % 5)
        g.set_ep(e, 'number', i)
    for e, i in idx.items():
        if g.ep(e, 'number') != i or g.ep(e, 'edge_type') != 1 + i % 5:
            raise Violation('large graph %d as %s: edge %s does not have what was set' % (kind, form, e))
    for t in range(7):
        if sorted(g.get_edge_type(t)) != sorted(e for e, i in idx.items() if 1 + i % 5 == t):
            raise Violation('large graph %d as %s: the edges of type %d are not those set' % (kind, form, t))
    for k in range(3):
        g.add_edge(n + k, 0)
        es.add((n + k, 0))
        idx = check_index(g, es, idx, 'large graph %d as %s, edge added' % (kind, form))
    for v in range(n):
        if sorted(g.out_neighbours(v)) != sorted(b for a, b in es if a == v) if kind in (0, 3) else False:
            raise Violation('large graph %d as %s: out-neighbours of %d are %s' % (kind, form, v, g.out_neighbours(v)))
    ctx.step(len(es))
    ctx.state((kind, form))
    return kind, form


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    allf = ('digraph', 'reversed', 'list', 'wrapper', 'dict', 'dicts', 'matrix')
    return [growing('two vertices, three additions one by one', 2, 4, allf, 3, bulk=False),
            growing('two vertices, one and two additions', 2, 4, allf, 3),
            growing('three vertices, two additions', 3, 2 + e, allf, 2, bulk=False),
            growing('three vertices, bulk', 3, 2 + e, ('digraph', 'reversed', 'dict'), 2),
            Scenario('edges added with properties', added),
            Scenario('lengths of edges', lengths),
            Scenario('names of properties', names),
            Scenario('large graphs', large),
            properties('properties, three vertices', 3, 3 + e, 2 + e),
            properties('properties, two vertices', 2, 4, 3)]
