"""C20: every edge carries the queue its type asks for."""
import copy
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs
from mc.props.c16 import orders, used

ASSUMPTIONS = ['vertices are 0..n-1 with n at most 4; edge types 0 to 5; the graph is adjusted, or handed over as a networkx graph']


def arr(t):
    return t + 1.0


def ser(t):
    return t + 2.0


class MyQueue(qt.QueueServer):
    pass


DEFAULT = {0: qt.NullQueue, 1: qt.QueueServer, 2: qt.LossQueue, 3: qt.LossQueue, 4: qt.LossQueue}
CLASSES = [None, {}, {1: qt.LossQueue}, {5: MyQueue}, {1: MyQueue, 3: qt.ResourceQueue, 5: qt.LossQueue, 2: qt.InfoQueue}]
ARGS = [None, {1: {'num_servers': 3}}, {5: {'num_servers': 4, 'active_cap': 7}, 1: {'arrival_f': arr}},
        {1: {'service_f': ser, 'num_servers': 2}, 2: {'qbuffer': 3, 'collect_data': True}, 3: {'num_servers': 6, 'arrival_f': arr},
         5: {'deactive_t': 9.5, 'service_f': ser}, 0: {'collect_data': True}, 4: {'AgentFactory': qt.GreedyAgent}}]


def give(form, n, edges, types, vo, eo):
    pos = graphs.positions(n)
    if form == 'digraph':
        return graphs.digraph(n, edges, types, vo, eo, pos), None
    if form == 'wrapper':
        return qt.QueueNetworkDiGraph(graphs.digraph(n, edges, types, vo, eo, pos)), None
    if form == 'grown wrapper':     # edges added one by one keep the order of insertion as index
        g = qt.QueueNetworkDiGraph()
        for v in vo:
            g.add_node(v, pos=pos[v])
        for i in eo:
            g.add_edge(*edges[i], edge_type=types[edges[i]])
        return g, None
    if form == 'dicts':
        return {u: {v: {'edge_type': types[u, v]} for v in range(n) if (u, v) in types} for u in vo}, 'dict'
    if form == 'lists':
        return {u: [v for v in range(n) if (u, v) in types] for u in vo}, 'dict'
    if form == 'matrix':
        m = np.zeros((n, n), int)
        for e in edges:
            m[e] = 1
        return m, None
    raise AssertionError(form)


def snapshot(g):
    if isinstance(g, np.ndarray):
        return g.copy().tolist()
    if isinstance(g, dict):
        return copy.deepcopy(g)
    s = [sorted(g.nodes()), [(e, {k: v for k, v in g.adj[e[0]][e[1]].items()}) for e in g.edges()],
         [(v, {k: np.array(x).tolist() for k, x in g.nodes[v].items()}) for v in g.nodes()], nx.is_frozen(g), dict(g.graph)]
    if isinstance(g, qt.QueueNetworkDiGraph):
        s += [dict(g.edge_index), g.edge_color, g.vertex_color, g.vertex_fill_color]
    return copy.deepcopy(s)


def want_arg(q, name, default, args):
    return args.get(name, default)


def check(net, n, edges, types, classes, args, what, wrapped):
    E = len(edges)
    if (net.num_vertices, net.num_nodes, net.num_edges) != (n, n, E) or len(net.edge2queue) != E:
        raise Violation('%s: the network counts %s vertices, %s edges, %s queues' % (what, net.num_nodes, net.num_edges, len(net.edge2queue)))
    idx = net.g.edge_index
    if set(idx) != set(edges) or sorted(idx.values()) != list(range(E)):
        raise Violation('%s: edge indices %s' % (what, idx))
    if len(set(map(id, net.edge2queue))) != E:
        raise Violation('%s: two edges share a queue' % what)
    for e in edges:
        q = net.edge2queue[idx[e]]
        t = types[e]
        if net.g.ep(e, 'edge_type') != t:
            raise Violation('%s: the edge %s has type %r in the network instead of %d' % (what, e, net.g.ep(e, 'edge_type'), t))
        if tuple(q.edge) != (e[0], e[1], idx[e], t):
            raise Violation('%s: the queue on edge %s, number %d of type %d, says it sits on %s' % (what, e, idx[e], t, q.edge))
        cls = classes.get(t, DEFAULT.get(t))
        if type(q) is not cls:
            raise Violation('%s: the queue on edge %s of type %d is a %s instead of a %s' % (what, e, t, type(q).__name__, cls.__name__))
        if cls is qt.NullQueue:
            continue
        a = args.get(t, {})
        seen = {'num_servers': q.num_servers, 'active_cap': q.active_cap, 'deactive_t': q.deactive_t, 'collect_data': q.collect_data,
                'AgentFactory': q.AgentFactory}
        base = {'num_servers': 10 if cls is qt.ResourceQueue else 1, 'active_cap': float('inf'), 'deactive_t': float('inf'), 'collect_data': False,
                'AgentFactory': qt.ResourceAgent if cls is qt.ResourceQueue else qt.InfoAgent if cls is qt.InfoQueue else qt.Agent}
        for k in seen:
            if seen[k] != a.get(k, base[k]):
                raise Violation('%s: the queue on edge %s of type %d has %s=%r instead of %r' % (what, e, t, k, seen[k], a.get(k, base[k])))
        for k in ('arrival_f', 'service_f'):
            if k in a and getattr(q, k) is not a[k]:
                raise Violation('%s: the queue on edge %s of type %d does not have the %s given' % (what, e, t, k))
            if k not in a and getattr(q, k) in (arr, ser):
                raise Violation('%s: the queue on edge %s of type %d has the %s given for another type' % (what, e, t, k))
        if issubclass(cls, qt.LossQueue) and cls is not qt.ResourceQueue and cls is not qt.InfoQueue:
            if q.buffer != a.get('qbuffer', 0):
                raise Violation('%s: the queue on edge %s of type %d has a buffer of %s' % (what, e, t, q.buffer))
    for v in range(n):
        o, i = sorted(idx[e] for e in edges if e[0] == v), sorted(idx[e] for e in edges if e[1] == v)
        if sorted(net.out_edges[v]) != o:
            raise Violation('%s: the out-edges of vertex %d are %s instead of %s' % (what, v, net.out_edges[v], o))
        if sorted(net.in_edges[v]) != i:
            raise Violation('%s: the in-edges of vertex %d are %s instead of %s' % (what, v, net.in_edges[v], i))
    if sorted(net.g.nodes()) != list(range(n)):
        raise Violation('%s: the vertices are %s' % (what, sorted(net.g.nodes())))


def networks(name, n, sets, palette, forms, part=8, cls=range(len(CLASSES)), adjust=(True,)):
    def run(ctx):
        form = ctx.pick(forms)
        ci, ai = ctx.pick(tuple(cls)), ctx.choose(len(ARGS))
        adj = ctx.pick(adjust)
        p = ctx.choose(part)
        c = 0
        for k, edges in enumerate(sets):
            if k % part != p:
                continue
            for j, given in enumerate(itertools.product(palette, repeat=len(edges))):
                types = dict(zip(edges, given))
                if form in ('lists', 'matrix'):
                    if j:
                        break
                    types = {e: 1 for e in edges}
                if 5 in types.values() and (CLASSES[ci] is None or 5 not in CLASSES[ci]):
                    continue
                vo = orders(n)[c % 3]
                eo = list(range(len(edges)))
                eo = (eo, eo[::-1], eo[1::2] + eo[::2])[(c // 3) % 3]
                g, kind = give(form, n, edges, types, vo, eo)
                want = dict(types)
                es = list(edges)
                ends = [v for v in range(n) if not any(e[0] == v for e in edges)]
                if form == 'lists' or form == 'dicts':      # graphs made from a dictionary get a loop at such vertices
                    for v in ends:
                        want[v, v] = 0
                        es.append((v, v))
                elif adj:
                    for e in edges:
                        if e[1] in ends:
                            want[e] = 0
                elif any(types[e] != 0 for e in edges if e[1] in ends):
                    continue
                before = snapshot(g)
                classes, args = copy.copy(CLASSES[ci]), copy.deepcopy(ARGS[ai])
                what = '%s with types %s given as %s, vertices inserted as %s, edges as %s, classes %s, arguments %s' % (
                    edges, given, form, vo, [edges[i] for i in eo], CLASSES[ci], ARGS[ai])
                net = qt.QueueNetwork(g, q_classes=classes, q_args=args, adjust_graph=adj)
                check(net, n, es, want, CLASSES[ci] or {}, ARGS[ai] or {}, what, form)
                after = snapshot(g)
                if after != before:
                    raise Violation('%s: the graph given was changed\n  from %s\n  to   %s' % (what, before, after))
                if classes != CLASSES[ci] or args != ARGS[ai]:
                    raise Violation('%s: the arguments given were changed to %s, %s' % (what, classes, args))
                c += 1
        ctx.step(c)
        ctx.state((form, ci, ai, p, adj))
        return form, ci, ai, p, c
    return Scenario(name, run)


def bigger(ctx):
    """Undirected and directed graphs of networkx, default everything."""
    g = [nx.cycle_graph(5), nx.path_graph(4), nx.complete_graph(4), nx.star_graph(3), nx.DiGraph([(0, 1), (1, 2), (2, 0), (1, 1)]),
         nx.moebius_kantor_graph(), nx.balanced_tree(2, 2)][ctx.choose(7)]
    before = snapshot(g)
    net = qt.QueueNetwork(g)
    d = g.to_directed()
    edges = list(d.edges())
    check(net, g.number_of_nodes(), edges, {e: 1 for e in edges}, {}, {}, str(g), None)
    if snapshot(g) != before:
        raise Violation('%s was changed' % g)
    ctx.step()
    ctx.state(sorted(edges).__repr__())
    return len(edges)


def types_(ctx):
    """Many types of edges, each with its own arguments."""
    n, same = ctx.pick((7, 13, 40, 130)), ctx.choose(2)
    vo, eo = ctx.pick((1, -1)), ctx.pick((1, -1))
    adj = ctx.choose(2) == 1
    types = {(0, v): v for v in range(1, n + 1)}
    types.update({(v, 0): n + 1 for v in range(1, n + 1)})
    edges = list(types)
    g = graphs.digraph(n + 1, edges[::eo], types, range(n + 1)[::vo], pos=graphs.positions(n + 1))
    classes = {t: qt.LossQueue if same else (qt.LossQueue, qt.QueueServer, MyQueue, qt.InfoQueue, qt.ResourceQueue)[t % 5] for t in range(1, n + 2)}
    args = {t: {'num_servers': 1000 + t, 'active_cap': 5 * t} for t in range(1, n + 1)}
    net = qt.QueueNetwork(g, q_classes=dict(classes), q_args=copy.deepcopy(args), adjust_graph=adj)
    check(net, n + 1, edges, types, classes, args, '%d types of edges, vertices inserted %s, edges %s' % (n + 1, vo, eo), 'digraph')
    ctx.step()
    ctx.state((n, same, vo, eo, adj))
    return n, same, vo, eo


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    two = used(graphs.edge_sets(2), 2)
    three = used(graphs.edge_sets(3, 3), 3)
    dense = used(graphs.edge_sets(3, 5, 4), 3)
    four = [((0, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3)), ((0, 3), (1, 3), (2, 3)), ((3, 0), (3, 1), (3, 2), (3, 3), (0, 3), (1, 3)),
            ((2, 0), (2, 1), (2, 3), (0, 2), (1, 2))]
    allf = ('digraph', 'wrapper', 'grown wrapper', 'dicts')
    return [networks('two vertices', 2, two, (1, 5, 0) if not e else (1, 2, 5, 0), allf),
            networks('three vertices', 3, three[::1 if e else 2], (1, 5), allf, cls=(3, 4)),
            networks('three vertices, more edges', 3, dense[::1 if e else 7], (2,), ('digraph', 'grown wrapper'), cls=(0, 4)),
            networks('four vertices', 4, four, (1, 3), ('digraph', 'grown wrapper'), part=4, cls=(0, 4)),
            networks('untyped input', 3, three[::1 if e else 3], (1,), ('lists', 'matrix'), cls=(0, 2)),
            networks('not adjusted', 3, three[::1 if e else 3], (1, 0), ('digraph',), cls=(0, 4), adjust=(False,)),
            Scenario('larger graphs', bigger), Scenario('many types', types_)]
