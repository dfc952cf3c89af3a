"""C27: queues and networks in one process are independent, and seeds reproduce runs."""
import copy
import random

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import nsim, nscen, qsim, build, graphs
from mc.nsim import Q, INF, nsnap
from mc.qsim import snap
from mc.nscen import QS, LQ, IQ, RQ
from mc.props import c17

ASSUMPTIONS = ['durations come from small alphabets; in the interleavings each object has its own table of random outcomes',
               'objects are built and used from one thread',
               'seeds are tried from a fixed set, with a fixed set of prior uses of numpy\'s and Python\'s generators']

COLS = {'edge_color': [0.1, 0.2, 0.3, 0.4], 'vertex_color': [0.4, 0.3, 0.2, 0.1]}
FIRST = {'edge_loop_color': [0.5, 0.2, 0.3, 0.4], 'vertex_fill_color': [0.7, 0.3, 0.2, 0.1]}
SHARED = {'colors': COLS}


# ---------------------------------------------------------------- queues
def qdo(env, o):
    """One operation on one queue, and all there is to see."""
    qsim.Cur.env = env
    q = env.q
    env.calls = []
    if o[0] == 'collect':
        q.collect_data = not q.collect_data
    elif o[0] == 'paint':
        q.colors['edge_color'] = [1, 0, 0, 1]
    elif o[0] == 'forget':
        q.data = {}
    elif o[0] == 'copy':
        q.copy()
    else:
        getattr(q, o[0])(*o[1:])
    env.ctx.step()

    def name(c):
        return (c[0], getattr(env.agents.get(c[1]), 'agent_id', None)) + tuple(c[2:]) if c[0] in ('act', 'loss', 'new') else c
    return (o, snap(q), tuple(name(c) for c in env.calls), str(q.fetch_data().tolist()), str(sorted(q.colors.items())), bool(q.collect_data),
            tuple(q.edge), repr(q), str(getattr(q, 'over_max', None)), str(getattr(q, 'max_servers', None)), str(getattr(q, 'buffer', None)))


class Tab(object):
    """Answers by name, so that the same object sees the same environment in every run."""

    def __init__(self, ctx, ties=False):
        self.ctx, self.times, self.tab = ctx, qsim.Times(ctx, ties), {}

    def reader(self, who, alphabets):
        n = {}

        def read(name):
            k = (who, name, n.get(name, 0))
            n[name] = k[2] + 1
            if k not in self.tab:
                self.tab[k] = self.times.draw(alphabets[name])
            return self.tab[k]
        return read


def interleavings(ctx, a, b):
    """An order in which two objects take turns; every change of turn before the end is a deviation."""
    left = [a, b]
    who = ctx.choose(2)
    out = []
    while left[0] and left[1]:
        out.append(who)
        left[who] -= 1
        if left[0] and left[1] and ctx.choose(2, DEV):
            who = 1 - who
    return out + [0] * left[0] + [1] * left[1]


SIM, ACT = ('simulate', 1), ('set_active',)
SCRIPTS = {
    'plain': [ACT, SIM, SIM, SIM, SIM, SIM],
    'painted': [ACT, SIM, ('paint',), SIM, SIM],
    'servers': [ACT, SIM, ('set_num_servers', 2), SIM, SIM, SIM],
    'cleared': [ACT, SIM, SIM, ('clear',), ACT, SIM],
    'collected': [ACT, ('collect',), SIM, SIM, ('forget',), SIM],
    'stopped': [ACT, SIM, ('set_inactive',), SIM, SIM, ('delay_service',)],
    'copied': [ACT, SIM, ('copy',), SIM, SIM],
}


def queues(name, ca, cb, sa, sb, ka={}, kb={}, services=(2, 5), gaps=(1,), share=True, ties=False, bound=3):
    def run(ctx):
        tab = Tab(ctx, ties)
        shared = copy.deepcopy(SHARED)
        if not share:
            shared = {}
        alpha = {'A': gaps, 'S': services}

        def kw(cls, k):
            k = dict(k)
            if cls is IQ:
                k.setdefault('net_size', 3)
            return k
        spec = [(ca, kw(ca, ka), SCRIPTS[sa]), (cb, kw(cb, kb), SCRIPTS[sb])]

        def new(who):
            cls, k, _ = spec[who]
            return qsim.QEnv(ctx, cls, draw=tab.reader(who, alpha), gaps=gaps, services=services, collect_data=True, edge=(0, 1, who, 1), **dict(k, **shared))
        order = interleavings(ctx, len(spec[0][2]) + 1, len(spec[1][2]) + 1)
        envs, recs, at = [None, None], [[], []], [0, 0]
        for who in order:
            if envs[who] is None:
                envs[who] = new(who)
                recs[who].append((snap(envs[who].q), str(sorted(envs[who].q.colors.items()))))
            else:
                recs[who].append(qdo(envs[who], spec[who][2][at[who]]))
                at[who] += 1
        final = [(snap(e.q), str(e.q.fetch_data().tolist()), str(sorted(e.q.colors.items()))) for e in envs]
        for who in (0, 1):
            e = new(who)
            rec = [(snap(e.q), str(sorted(e.q.colors.items())))] + [qdo(e, o) for o in spec[who][2]]
            for i, (x, y) in enumerate(zip(recs[who], rec)):
                if x != y:
                    raise Violation('%s in the order %s (first) and alone (second) differ at step %d:\n   %s\n   %s' % (
                        ('the first queue', 'the second queue')[who], order, i, x, y))
            if final[who] != (snap(e.q), str(e.q.fetch_data().tolist()), str(sorted(e.q.colors.items()))):
                raise Violation('queue %d in the order %s ends otherwise than alone: %s' % (who, order, final[who]))
        if share and shared != SHARED:
            raise Violation('the arguments were changed: %s' % shared)
        ctx.state((final[0][0], final[1][0]))
        return final[0][0], final[1][0]
    return Scenario(name, run, bound)


# ---------------------------------------------------------------- networks
NSIM = ('simulate', ('n', 1))
NINIT = ('initialize', ('queues', [0, 1]))
NSCRIPTS = {
    'plain': [NINIT, NSIM, NSIM, NSIM, NSIM],
    'routed': [NINIT, NSIM, ('set_transitions', ('mat', {1: {1: 1.0, 2: 0.0}})), NSIM, NSIM],
    'cleared': [NINIT, NSIM, ('clear',), NINIT, NSIM],
    'data': [NINIT, NSIM, ('stop_collecting_data', ('queues', [0])), NSIM, ('clear_data',)],
    'servers': [NINIT, NSIM, ('servers', ('e', 0), ('n', 3)), NSIM, NSIM],
    'copied': [NINIT, NSIM, ('copy',), NSIM, NSIM],
    'reset': [NINIT, NSIM, ('reset_colors',), NSIM, NSIM],
    'painted': [NINIT, ('paint',), NSIM, ('reset_colors',), NSIM],
}


def graph_state(env):
    g = env.net.g
    return str([(e, g.ep(e, 'edge_color') is not None and [round(float(x), 9) for x in g.ep(e, 'edge_color')]) for e in env.edge_list]), \
        str([(v, g.vp(v, 'vertex_fill_color')) for v in sorted(g.nodes())]), str(np.asarray(g.pos).tolist())


def ndo(env, o):
    if o[0] == 'paint':
        env.net.colors['vertex_fill_color'] = [0.3, 0.3, 0.3, 1.0]
        env.net.edge2queue[0].colors['edge_color'] = [0.2, 0.9, 0.3, 1.0]
        env.net.max_agents = 7
        env.rec.append((nsnap(env.net), graph_state(env)))
    elif o[0] == 'copy':
        env.net.copy()
        env.rec.append((nsnap(env.net), graph_state(env)))
    else:
        c17.act(env, o)
        env.rec.append(graph_state(env))


class Share(object):
    """Graph and argument dictionaries handed to both networks."""

    def __init__(self, queues, exits):
        self.queues, self.exits = queues, exits


def shared_env(ctx, qs, ex, reader, given, **kw):
    """As c17.make, but with the graph and the dictionaries of `given` if there are any."""
    real = qt.QueueNetwork

    def build_with(g, q_classes=None, q_args=None, **k):
        if 'g' not in given:
            given['g'], given['q_classes'], given['q_args'] = g, q_classes, q_args
            given['colors'] = {'vertex_color': [0.2, 0.5, 0.2, 1.0]}
        return real(given['g'], q_classes=given['q_classes'], q_args=given['q_args'], colors=given['colors'], **k)
    qt.QueueNetwork = build_with
    try:
        return c17.make(ctx, qs, ex, reader, **kw)
    finally:
        qt.QueueNetwork = real


def frozen(given):
    g = given.get('g')
    return None if g is None else (str(sorted(g.nodes(data=True))), str(sorted(g.edges(data=True))), str(given['q_classes']), str(sorted(given['q_args'].items())),
                                   str(given['colors']))


def networks(name, top, sa, sb, share, kwa={}, kwb={}, cols=None, steps=None, ties=False, bound=3):
    """Two networks of one kind take turns; `share`: from the same graph and dictionaries."""
    def run(ctx):
        qs, ex = top
        tabs = [c17.Answers(ctx, ties), c17.Answers(ctx, ties)]
        tabs[1].times = tabs[0].times
        given = {}
        spec = [(NSCRIPTS[sa][:steps], kwa), (NSCRIPTS[sb][:steps], kwb)]

        def new(who, given):
            k = dict(spec[who][1])
            r = tabs[who].reader()
            return shared_env(ctx, qs, ex, r, given, **k) if share else c17.make(ctx, qs, ex, r, **k)
        order = interleavings(ctx, len(spec[0][0]) + 1, len(spec[1][0]) + 1)
        envs, at = [None, None], [0, 0]
        fr = None
        for who in order:
            if envs[who] is None:
                envs[who] = new(who, given)
                envs[who].rec.append((nsnap(envs[who].net), c17.table(envs[who]), graph_state(envs[who])))
            else:
                ndo(envs[who], spec[who][0][at[who]])
                at[who] += 1
            if share:
                fr = fr or frozen(given)
                if frozen(given) != fr:
                    raise Violation('the arguments were changed in the order %s:\n%s\n%s' % (order, fr, frozen(given)))
        final = [(nsnap(e.net), c17.table(e), graph_state(e)) for e in envs]
        for who in (0, 1):
            e = new(who, {})
            e.rec.append((nsnap(e.net), c17.table(e), graph_state(e)))
            for o in spec[who][0]:
                ndo(e, o)
            for i, (x, y) in enumerate(zip(envs[who].rec, e.rec)):
                if x != y:
                    d = [(str(p)[:700], str(q)[:700]) for p, q in zip(x, y) if p != q]
                    raise Violation('%s in the order %s (first) and alone (second) differ at step %d:\n   %s\n   %s' % (
                        ('the first network', 'the second network')[who], order, i, d[0][0], d[0][1]))
            if final[who] != (nsnap(e.net), c17.table(e), graph_state(e)):
                raise Violation('network %d in the order %s ends otherwise than alone:\n   %s\n   %s' % (who, order, final[who], (nsnap(e.net), c17.table(e), graph_state(e))))
        ctx.state((final[0][0], final[1][0]))
        return final[0][0].agents, final[1][0].agents
    return Scenario(name, run, bound)


# ---------------------------------------------------------------- seeds
def _other():
    net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 0)]), seed=99)
    net.initialize(2)
    net.simulate(n=30)


PRIOR = [('nothing', lambda: None), ('numbers drawn', lambda: (np.random.uniform(size=7), np.random.normal(size=3), random.random())),
         ('another network run', _other), ('another seed', lambda: (np.random.seed(12345), random.seed(4))),
         ('a queue run', lambda: (qt.QueueServer(seed=8).set_active())), ('a graph made', lambda: qt.generate_random_graph(6, seed=2))]


def gdump(g):
    return str(sorted((v, sorted((k, np.asarray(x).tolist() if x is not None else None) for k, x in d.items())) for v, d in g.nodes(data=True))), \
        str(sorted((u, v, sorted((k, np.asarray(x).tolist() if x is not None else None) for k, x in d.items())) for u, v, d in g.edges(data=True)))


def full(net):
    return str([nsnap(net), net.get_queue_data().tolist(), sorted((str(a), r.tolist()) for a, r in net.get_agent_data().items()), np.asarray(net.g.pos).tolist()])


def run_net(seed, classes=None, args=None, n=25, **kw):
    g = nx.DiGraph([(0, 1), (1, 2), (2, 0), (1, 3), (2, 2)])
    nx.set_edge_attributes(g, {(0, 1): 1, (1, 2): 2, (2, 0): 1, (1, 3): 0, (2, 2): 3}, 'edge_type')
    net = qt.QueueNetwork(g, q_classes=classes, q_args=args, **dict(kw, **({} if seed is None else {'seed': seed})))
    net.start_collecting_data()
    net.initialize(2)
    out = [full(net)]
    net.simulate(n=n)
    out.append(full(net))
    net.set_transitions(qt.generate_transition_matrix(net.g))
    net.simulate(t=5)
    out.append(full(net))
    net.clear()
    net.start_collecting_data()
    net.initialize(1)
    net.simulate(n=10)
    out.append(full(net))
    return out


def run_queue(cls, seed, **kw):
    q = cls(collect_data=True, **dict(kw, **({} if seed is None else {'seed': seed})))
    q.set_active()
    q.simulate(n=30)
    a = str((snap(q), q.fetch_data().tolist()))
    q.simulate(t=3)
    return a, str((snap(q), q.fetch_data().tolist()))


def square():
    return nx.DiGraph([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 0), (2, 1)])


SEEDED = [
    ('a network', lambda s: run_net(s)),
    ('a network with blocking and few agents', lambda s: run_net(s, {1: LQ, 2: LQ}, {1: {'qbuffer': 1}, 2: {'qbuffer': 0}}, blocking='RS', max_agents=9)),
    ('a network of resources and information', lambda s: run_net(s, {1: RQ, 2: IQ}, {2: {'net_size': 5}})),
    ('a network of greedy agents', lambda s: run_net(s, {1: QS}, {1: {'AgentFactory': qt.GreedyAgent, 'num_servers': 2}})),
    ('a server', lambda s: run_queue(QS, s, num_servers=2)), ('a loss queue', lambda s: run_queue(LQ, s, qbuffer=1)),
    ('a resource queue', lambda s: run_queue(RQ, s, num_servers=3)), ('an information queue', lambda s: run_queue(IQ, s, net_size=3)),
    ('generate_random_graph', lambda s: gdump(qt.generate_random_graph(9, **({} if s is None else {'seed': s})))),
    ('generate_pagerank_graph', lambda s: gdump(qt.generate_pagerank_graph(9, **({} if s is None else {'seed': s})))),
    ('minimal_random_graph', lambda s: gdump(qt.minimal_random_graph(8, **({} if s is None else {'seed': s})))),
    ('set_types_random', lambda s: gdump(qt.set_types_random(square(), {1: 0.4, 2: 0.3, 3: 0.3}, **({} if s is None else {'seed': s})))),
    ('set_types_rank', lambda s: gdump(qt.set_types_rank(square(), np.array([0.1, 0.4, 0.2, 0.3]), pType2=0.4, pType3=0.3, **({} if s is None else {'seed': s})))),
    ('generate_transition_matrix', lambda s: qt.generate_transition_matrix(square(), **({} if s is None else {'seed': s})).tolist()),
]

SEEDS = [3, np.int64(5), 0, 1, 17, np.uint8(200), 2 ** 31 - 1]


def seeds(what, fn, count):
    def run(ctx):
        seed = SEEDS[ctx.choose(count)]
        build.HOOK.handler = None
        ref = None
        got = set()
        for name, prior in PRIOR:
            for again in (0, 1):
                prior()
                a = fn(seed)
                ctx.step()
                if ref is None:
                    ref = a
                elif a != ref:
                    raise Violation('%s with seed %r is different after %s:\n   %s\n   %s' % (what, seed, name, str(a)[:900], str(ref)[:900]))
                got.add(str(a))
            # without a seed everything follows from the state of numpy's generator
            out = []
            for _ in (0, 1):
                prior()
                np.random.seed(int(seed) % 1000)
                random.seed(int(seed) % 1000)
                out.append(fn(None))
                np.random.uniform(size=3)
            if out[0] != out[1]:
                raise Violation('%s without a seed does not follow from the generator\'s state (after %s):\n   %s\n   %s' % (what, name, str(out[0])[:900], str(out[1])[:900]))
        other = fn(SEEDS[1] if seed == SEEDS[0] else SEEDS[0])
        ctx.state((what, str(seed)))
        return str(ref), other != ref
    return Scenario('seeds of %s' % what, run)


def scenarios(tier):
    th = tier == 'thorough'
    bd = 5 if th else 3
    s = []
    kinds = [('server', QS, {'num_servers': 1}), ('loss', LQ, {'qbuffer': 1}), ('information', IQ, {'qbuffer': 1}), ('resource', RQ, {'num_servers': 2, 'qbuffer': 1})]
    names = list(SCRIPTS)
    for i, (n1, c1, k1) in enumerate(kinds):
        for j, (n2, c2, k2) in enumerate(kinds):
            pairs = [(a, b) for a in names for b in names] if th and i <= j else [(names[(i + j) % 7], names[(2 * i + 3 * j + 1) % 7]), (names[(i + j + 3) % 7], 'plain')]
            for a, b in pairs:
                s.append(queues('%s %s with %s %s' % (n1, a, n2, b), c1, c2, a, b, k1, k2, share=(i + j) % 2 == 0, services=(2, 5) if th or i == j else (2,), bound=bd))
    s.append(queues('colours of one, defaults of the other', QS, QS, 'painted', 'plain', {'colors': FIRST}, {}, share=False, services=(2,), bound=bd))
    s.append(queues('colours of one kind, defaults of another', LQ, QS, 'painted', 'plain', {'colors': FIRST}, {}, share=False, services=(2,), bound=bd))
    s.append(queues('colours of a resource queue', RQ, RQ, 'painted', 'plain', {'colors': FIRST}, {}, share=False, services=(2,), bound=bd))
    s.append(queues('simultaneous events', QS, QS, 'plain', 'plain', {}, {}, ties=True, services=(1, 2)))
    lp = nscen.loop(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 0})
    cy = nscen.cycle(IQ, RQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 2}, k2={'qbuffer': 1, 'num_servers': 2})
    lq = nscen.loop(QS, QS, s1=(1,), s2=(3,), g1=(1,), g2=(3,))
    for a, b in (('plain', 'routed'), ('cleared', 'data'), ('servers', 'painted'), ('copied', 'reset')):
        s.append(networks('networks from the same arguments: %s and %s' % (a, b), lp, a, b, True, steps=None if th else 4, bound=bd))
        s.append(networks('networks: %s and %s' % (b, a), lq, b, a, False, steps=None if th else 4, bound=bd))
    s.append(networks('networks from the same arguments: information and resources', cy, 'plain', 'cleared', True, steps=None if th else 4, bound=bd))
    s.append(networks('networks with different settings', lp, 'plain', 'plain', False, {'blocking': 'RS', 'max_agents': 3, 'colors': {'vertex_fill_color': [0.1, 0.2, 0.3, 1.0]}}, {}, steps=None if th else 4, bound=bd))
    for what, fn in SEEDED:
        s.append(seeds(what, fn, 7 if th else 3))
    return s
