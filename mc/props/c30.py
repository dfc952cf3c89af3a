"""C30: invalid requests are refused with the documented error and leave no trace."""
from decimal import Decimal
from fractions import Fraction
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs, qsim, nsim, nscen, rand
from mc.nsim import nsnap
from mc.nscen import QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations come from small alphabets; one refused request (in different runs, each of those listed) per point of a history',
               'ResourceQueue.set_num_servers, whose values are not restricted by its documentation, is not judged']

NOT_INT = [0.5, 1.0, 2.5, -1.5, '1', None, (1,), np.float64(2), Fraction(2), float('nan'), 2j, Decimal(2)]
NOT_POS = [0, -1, -7, np.int64(0), np.int32(-2), False]
SERVERS = [(x, TypeError) for x in NOT_INT] + [(x, ValueError) for x in NOT_POS]


def must_refuse(fn, err, what):
    try:
        fn()
    except err:
        return
    except Exception as e:
        raise Violation('%s raises %s (%s) instead of %s' % (what, type(e).__name__, e, err.__name__))
    raise Violation('%s is accepted' % what)


def queue_servers(name, cls, n, gaps, services, bound, **kw):
    """A refused change of the number of servers, at every point of every history: the queue with it and the queue without it agree for ever."""
    menu = [('set_inactive',), ('set_num_servers', 1), ('set_num_servers', 3), ('delay_service',), ('clear',), ('give', 'half', ((0.25, 2.0, 1.0), (0.5, 1.0, 3.0)) if cls is IQ else None)]

    def run(ctx):
        at = ctx.choose(n)
        cached = qsim.Cached(qsim.Times(ctx), {'A': gaps, 'S': services})
        a = qsim.QEnv(ctx, cls, draw=cached.stream(), collect_data=True, **kw)
        b = qsim.QEnv(ctx, cls, draw=cached.stream(), collect_data=True, **kw)
        for i in range(n):
            k = ctx.choose(1 + len(menu), DEV) if i else 0
            o = ('set_active',) if i == 0 else ('simulate',) if k == 0 else menu[k - 1]
            if i == at:
                qsim.Cur.env = b
                pre = qsim.snap(b.q)
                for x, err in SERVERS:
                    must_refuse(lambda: b.q.set_num_servers(x), err, '%s.set_num_servers(%r)' % (cls.__name__, x))
                    if qsim.snap(b.q) != pre or b.calls:
                        raise Violation('the refused set_num_servers(%r) changed the queue\nfrom %s\nto   %s, notifying %s' % (x, pre, qsim.snap(b.q), b.calls))
            for e in (a, b):
                if o[0] == 'simulate':
                    e.sim()
                elif o[0] == 'give':
                    e.give(*o[1:])
                else:
                    e.op(*o)
            x, y = a.record(), b.record()
            if x != y:
                j = [p == q for p, q in zip(x, y)].index(False)
                raise Violation('refused changes of the number of servers before step %d show at step %d:\nwithout %s\nwith    %s' % (at, j, x[j], y[j]))
        if a.q.fetch_data().tolist() != b.q.fetch_data().tolist():
            raise Violation('refused changes of the number of servers before step %d show in the data' % at)
        ctx.state((qsim.snap(b.q), at))
        return qsim.snap(b.q), at
    return Scenario(name, run, bound)


def constructors(ctx):
    """Every class of queue, every invalid number of servers, in both spellings of the arguments; invalid networks."""
    cls = ctx.pick((QS, LQ, IQ, RQ))
    x, err = ctx.pick(SERVERS)
    how = ctx.choose(3)
    if how == 0:
        must_refuse(lambda: cls(num_servers=x), err, '%s(num_servers=%r)' % (cls.__name__, x))
    elif how == 1:
        if cls is RQ or cls is IQ or cls is LQ:
            must_refuse(lambda: cls(num_servers=x, qbuffer=1, collect_data=True), err, '%s(num_servers=%r)' % (cls.__name__, x))
        else:
            must_refuse(lambda: cls(x), err, '%s(%r)' % (cls.__name__, x))
    else:
        g = nx.DiGraph([(0, 1), (1, 2)])
        q_cl, q_ar = {1: cls}, {1: {'num_servers': x}}
        for e in g.edges():
            g.edges[e]['edge_type'] = 1
        must_refuse(lambda: qt.QueueNetwork(g, q_classes=q_cl, q_args=q_ar), err, 'a network of %s(num_servers=%r)' % (cls.__name__, x))
        if q_cl != {1: cls} or q_ar != {1: {'num_servers': x}}:
            raise Violation('a refused network changed its arguments: %s %s' % (q_cl, q_ar))
    ctx.step()
    ctx.state((cls.__name__, str(x), how))
    return cls.__name__, str(x), how


def networks(ctx):
    """A network that is given a blocking rule that is no string is refused, whatever else it is given."""
    x = ctx.pick((None, 1, True, b'RS', b'BAS', ['RS'], ('BAS',), 2.5))
    cls = ctx.pick((QS, LQ, IQ, RQ))
    typed = ctx.choose(2)
    g = nx.DiGraph([(0, 1), (1, 2), (2, 2)])
    if typed:
        for e in g.edges():
            g.edges[e]['edge_type'] = 1
    must_refuse(lambda: qt.QueueNetwork(g, q_classes={1: cls}, blocking=x), TypeError, 'a network with blocking=%r' % (x,))
    if sorted(g.edges()) != [(0, 1), (1, 2), (2, 2)] or any(dict(g.edges[e]) != ({'edge_type': 1} if typed else {}) for e in g.edges()):
        raise Violation('a refused network changed its graph: %s' % {e: dict(g.edges[e]) for e in g.edges()})
    ctx.step()
    ctx.state((str(x), cls.__name__, typed))
    return str(x), cls.__name__, typed


def not_graphs(ctx):
    """What cannot be made into a graph is refused by everything that takes a graph."""
    bad = ctx.pick((5, 2.5, 'graph', None, object()))
    fns = (('QueueNetwork', lambda: qt.QueueNetwork(bad)),
           ('adjacency2graph', lambda: qt.adjacency2graph(bad)),
           ('set_types_random', lambda: qt.set_types_random(bad)),
           ('set_types_rank', lambda: qt.set_types_rank(bad, rank=0.5)),
           ('generate_transition_matrix', lambda: qt.generate_transition_matrix(bad)))
    name, fn = ctx.pick(fns)
    if bad is None and name != 'adjacency2graph':
        return name, 'none'         # networkx may read None as an empty graph
    must_refuse(fn, TypeError, '%s(%r)' % (name, bad))
    ctx.step()
    ctx.state((name, repr(type(bad))))
    return name, repr(type(bad))


def tables(ctx):
    """set_types_random refuses tables that do not sum to one and leaves the graph alone."""
    n, directed = ctx.pick((2, 3, 4)), ctx.choose(2)
    which = ctx.choose(2)
    bad = ctx.pick(({1: 0.5}, {1: 0.5, 2: 0.4}, {1: 0.5, 2: 0.6}, {1: 0.0, 3: 0.0}, {0: 1.0, 2: 0.01}, {1: 2.0}, {1: 0.25, 2: 0.25, 3: 0.25, 4: 0.2}, {}))
    attrs = ctx.choose(2)
    base = nx.complete_graph(n, nx.DiGraph if directed else nx.Graph)
    base.add_edge(0, 0)
    g = qt.QueueNetworkDiGraph(base) if attrs else base
    if attrs:
        g.new_edge_property('edge_type')
        for k, e in enumerate(sorted(g.edges())):
            g.set_ep(e, 'edge_type', k % 3)
    before = sorted((e[0], e[1], sorted(d.items())) for e in g.edges() for d in [g.edges[e]])
    kept = dict(bad)
    must_refuse(lambda: qt.set_types_random(g, **{'proportions' if which == 0 else 'loop_proportions': bad}), ValueError,
                'set_types_random(%s=%s)' % (('proportions', 'loop_proportions')[which], bad))
    after = sorted((e[0], e[1], sorted(d.items())) for e in g.edges() for d in [g.edges[e]])
    if before != after or bad != kept:
        raise Violation('the refused set_types_random changed its arguments:\n%s\n%s\n%s' % (before, after, bad))
    ctx.step()
    ctx.state((n, directed, which, str(bad), attrs))
    return n, directed, which, str(bad), attrs


def requests(env):
    """Invalid requests to a network, whatever its state: (name, call, error)."""
    net, nV, nE = env.net, env.net.nV, env.nE
    outs = {v: sorted(e[1] for e in env.edge_list if e[0] == v) for v in range(nV)}
    v = max(outs, key=lambda u: len(outs[u]))
    null = [i for i, t in enumerate(env.type_at) if t == 0]
    live = [i for i, t in enumerate(env.type_at) if t != 0]
    m = np.zeros((nV, nV))
    for u in outs:
        for w in outs[u]:
            m[u, w] = 1.0 / len(outs[u])

    def changed(i, j, x):
        c = m.copy()
        c[i, j] = x
        return c
    def larger(i, j):
        c = np.zeros((nV + i, nV + j))
        c[:nV, :nV] = m
        c[nV:, 0] = 1.0
        for u in outs:
            if not outs[u]:
                c[u, 0] = 1.0
        return c
    out = [('blocking = %r' % (b,), lambda b=b: setattr(net, 'blocking', b), TypeError) for b in (None, 1, True, b'RS', ['RS'])]
    out += [('initialize(%s)' % k, lambda k=k: net.initialize(**k), err) for k, err in (
        ({'nActive': 0}, ValueError), ({'nActive': -3}, ValueError), ({'nActive': 1.5}, TypeError), ({'nActive': 2.0}, TypeError), ({'nActive': '1'}, TypeError),
        ({'nActive': None}, TypeError), ({'queues': []}, qt.QueueingToolError), ({'edges': []}, qt.QueueingToolError), ({'edge_type': []}, qt.QueueingToolError),
        ({'edge_type': 99}, qt.QueueingToolError), ({'edge_type': 0}, qt.QueueingToolError), ({'queues': null}, qt.QueueingToolError),
        ({'queues': null[0]}, qt.QueueingToolError)) if not (k.get('nActive', 1) is None)]
    out += [('set_transitions(%r)' % (k,), lambda k=k: net.set_transitions(k), err) for k, err in (
        (None, TypeError), (1, TypeError), ('x', TypeError), (m.tolist(), TypeError), (list(outs), TypeError),
        (m[:-1], ValueError), (m[:, :-1], ValueError), (np.zeros((nV + 1, nV + 1)), ValueError), (larger(1, 1), ValueError), (larger(1, 0), ValueError), (larger(0, 1), ValueError),
        (larger(3, 3), ValueError), (np.eye(1), ValueError), (m[v], ValueError), (m[:, :, None], ValueError), (m.ravel(), ValueError), (np.zeros((nV, nV)), ValueError), (m * 0.5, ValueError),
        (m * 1.5, ValueError), (changed(v, outs[v][0], -1.0), ValueError), (changed(v, outs[v][0], 3.0), ValueError),
        ({v: {w: 0.25 for w in outs[v]} if len(outs[v]) != 4 else {}}, ValueError), ({v: {}}, ValueError), ({v: {outs[v][0]: 2.0}}, ValueError),
        ({nV + 3: {0: 1.0}}, ValueError), ({-1: {0: 1.0}}, ValueError), ({'a': {0: 1.0}}, ValueError),
        (dict([(u, {w: float(w == outs[u][-1]) for w in outs[u]}) for u in outs if outs[u] and u != v] + [(v, {outs[v][0]: 0.5})]), ValueError),
        (dict([(u, {w: float(w == outs[u][-1]) for w in outs[u]}) for u in outs if outs[u]] + [(nV + 1, {0: 1.0})]), ValueError))]
    if len(outs[v]) > 1:
        def slightly(x, matrix):
            w0, w1 = outs[v][:2]
            c = m.copy()
            c[v, :] = 0
            c[v, w0], c[v, w1] = 1 + x, -x
            return c if matrix else {v: dict((w, c[v, w]) for w in outs[v])}
        out += [('set_transitions, slightly negative', lambda x=x, b=b: net.set_transitions(slightly(x, b)), ValueError) for x in (1e-3, 1e-7, 1e-10, 1e-16, 5e-324) for b in (False, True)]
        out.append(('set_transitions, negative', lambda: net.set_transitions({v: dict([(w, 0.0) for w in outs[v]] + [(outs[v][0], 1.5), (outs[v][1], -0.5)])}), ValueError))
    out += [('queue %d: set_num_servers(%r)' % (i, x), lambda i=i, x=x: net.edge2queue[i].set_num_servers(x), err)
            for i in live if not isinstance(net.edge2queue[i], qt.ResourceQueue) for x, err in ((0, ValueError), (-1, ValueError), (1.0, TypeError), ('2', TypeError))]
    return out


def seen(net):
    return nsnap(net), net.transitions(False), net.blocking, net._initialized if hasattr(net, '_initialized') else None, net.get_queue_data().tolist()


def network(name, queues, exits, steps, bound=1, **kw):
    """Every invalid request at one point of every history: nothing changes, now or later."""
    menu = ['clear', 'servers', 'collect', 'until', 'more']

    def run(ctx):
        at = ctx.choose(steps)
        tab = nsim.NCached(nsim.NTimes(ctx))
        routes = {}
        envs = []
        for _ in range(2):
            env = nsim.NEnv(ctx, queues, exits, draw=tab.stream(), collect=True, **kw)
            env.n = 0

            def pick(agent, edge, k, env=env):
                env.n += 1
                if env.n not in routes:
                    routes[env.n] = ctx.choose(k)
                return routes[env.n]
            env.draw_route = pick
            envs.append(env)
        started = False
        for s in range(steps):
            k = ctx.choose(1 + len(menu), DEV) if s > 1 else 0
            o = menu[k - 1] if k else 'initialize' if s == 1 or s > 1 and not started else 'simulate' if started else 'nothing'
            if not started and o in ('until',):
                o = 'initialize'
            if s == at:
                b = envs[1]
                nsim.Cur.env = b
                b.calls = []
                pre = seen(b.net)
                reqs = requests(b)
                if not started:
                    reqs += [('%s before initialize()' % w, f, qt.QueueingToolError) for w, f in (
                        ('simulate()', lambda: b.net.simulate()), ('simulate(n=1)', lambda: b.net.simulate(n=1)), ('simulate(n=0)', lambda: b.net.simulate(n=0)),
                        ('simulate(t=1)', lambda: b.net.simulate(t=1)), ('animate()', lambda: b.net.animate(frames=1)))]
                for what, fn, err in reqs:
                    must_refuse(fn, err, '%s at step %d' % (what, s))
                    if b.calls:
                        raise Violation('the refused %s notified %s' % (what, b.calls))
                    if seen(b.net) != pre:
                        raise Violation('the refused %s at step %d changed the network\nfrom %s\nto   %s' % (what, s, pre, seen(b.net)))
                ctx.step(len(reqs))
            for e in envs:
                if o == 'simulate':
                    e.sim()
                elif o == 'until':
                    t = min(float(e.net.time - e.net.current_time), 4096.0)
                    e.op('simulate', t=t)
                elif o == 'initialize':
                    e.op('initialize', queues=[i for i, t in enumerate(e.type_at) if t][:1])
                elif o == 'more':
                    e.op('initialize', queues=[i for i, t in enumerate(e.type_at) if t])
                elif o == 'servers':
                    e.servers(next(i for i, t in enumerate(e.type_at) if t), 2)
                elif o == 'collect':
                    e.op('stop_collecting_data')
                elif o == 'clear':
                    e.op('clear')
            started = o == 'initialize' or o == 'more' or started and o != 'clear'
            x, y = seen(envs[0].net), seen(envs[1].net)
            cx, cy = [e.named(e.ops[-1].calls) if e.ops else () for e in envs]
            if x != y or cx != cy:
                raise Violation('invalid requests before step %d show after step %d (%s):\nwithout %s %s\nwith    %s %s' % (at, s, o, x, cx, y, cy))
            ctx.state((x[0], at))
        return nsnap(envs[0].net).events, at
    return Scenario(name, run, bound)


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = [Scenario('constructors', constructors), Scenario('no graphs', not_graphs), Scenario('blocking rules of new networks', networks), Scenario('type tables', tables)]
    for cls, kw in ((QS, {}), (LQ, {'qbuffer': 1}), (IQ, {'net_size': 2, 'qbuffer': 1})):
        s.append(queue_servers(cls.__name__, cls, 7 + th, (1, 3), (4,), 1 + th, num_servers=2, **kw))
        s.append(queue_servers(cls.__name__ + ' long', cls, 9 + th, (1,), (2, 5), 1, num_servers=1, **kw))
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        for b in ('BAS', 'RS'):
            qs, ex = top(LQ, LQ, s1=(1,), s2=(3, 6), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 0})
            s.append(network('%s %s' % (nm, b), qs, ex, 7 + th, blocking=b))
        qs, ex = top(IQ, RQ, s1=(1,), s2=(3,), g1=(1, 2), g2=(9,), k2={'num_servers': 2, 'qbuffer': 3}, k1={'active_cap': 2})
        s.append(network('other kinds %s' % nm, qs, ex, 6 + th))
    return s
