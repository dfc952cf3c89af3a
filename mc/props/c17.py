"""C17: a copied network has the same separate future, a cleared one is as good as new."""
import collections

import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, nsim, nscen, build
from mc.nsim import Q, INF, nsnap
from mc.nscen import QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations come from small alphabets; uniform numbers for routing are 1/4 or 3/4',
               'the newly built network gets the same settings, including the current numbers of servers and transition probabilities']


class Answers(object):
    """The environment as a table: what comes next depends on the stream and the position in it."""

    def __init__(self, ctx, ties):
        self.ctx, self.times, self.tab = ctx, nsim.NTimes(ctx, ties), {}

    def reader(self, pos=None):
        pos = collections.Counter(pos or {})
        tab = self.tab

        def read(name, alphabet):
            k = (name, pos[name])
            pos[name] += 1
            if k not in tab:
                tab[k] = self.ctx.pick(alphabet) if name == 'U' else self.times.draw(alphabet)
            return tab[k]
        read.pos = pos
        return read


def make(ctx, queues, exits, reader, **kw):
    env = nsim.NEnv(ctx, queues, exits, route='real', draw=reader, collect=True, hook=False, **kw)
    env.unit = lambda: reader('U', (0.25, 0.75))
    build.HOOK.handler = lambda *a: nsim.Cur.env.randomness(*a)
    env.rec = []
    return env


def twin(env, net, reader):
    e = object.__new__(nsim.NEnv)
    e.__dict__.update(env.__dict__)
    e.net, e.draw, e.calls, e.ops, e.agents, e.rec = net, reader, [], [], dict(env.agents), []
    e.unit = lambda: reader('U', (0.25, 0.75))
    return e


def table(env):
    """Settings and structure as an observer sees them."""
    net = env.net
    return (net.num_vertices, net.num_edges, net.max_agents, net.blocking, tuple(map(tuple, net.out_edges)), tuple(map(tuple, net.in_edges)),
            tuple(sorted(net.g.edge_index.items())), str(net.transitions(False)), tuple(type(q).__name__ for q in net.edge2queue),
            tuple(tuple(q.edge) for q in net.edge2queue), str(sorted((k, str(v)) for k, v in net.colors.items())),
            tuple(str(sorted((k, str(v)) for k, v in q.colors.items())) for q in net.edge2queue),
            tuple(net.g.ep(e, 'edge_type') for e in env.edge_list), tuple(bool(q.collect_data) for q in net.edge2queue))


def picture(env):
    """What would be drawn, by edge and vertex."""
    net = env.net
    lines, dots = net.g.lines_scatter_args()
    seg = {e: (tuple(map(tuple, np.array(lines['segments'][i]).tolist())),
           None if lines['colors'] is None else tuple(np.array(lines['colors'][i]).tolist())) for e, i in net.g.edge_index.items()}
    c = None if dots['c'] is None else [None if isinstance(x, int) else tuple(x) for x in dots['c']]
    return str(sorted(seg.items())), str(c), str(np.array([dots['x'], dots['y']]).tolist())


def act(env, o):
    """Performs one operation and records everything observable."""
    nsim.Cur.env = env
    name, kw = o[0], dict(o[1:])
    env.calls = []
    try:
        if name == 'servers':
            env.net.edge2queue[kw['e']].set_num_servers(kw['n'])
            ret = None
        else:
            ret = getattr(env.net, name)(**kw)
        out = 'ok'
    except qt.QueueingToolError as e:
        out, ret = 'refused', None
    env.ctx.step()
    env.rec.append((o, out, nsnap(env.net), env.named(env.calls), str(env.net.get_queue_data().tolist()),
                    str(sorted((k, v.tolist()) for k, v in env.net.get_agent_data().items())), table(env)))
    env.calls = []


SIM = ('simulate', ('n', 1))


def ops(ctx, n, menu):
    out = []
    for _ in range(n):
        k = ctx.choose(1 + len(menu), DEV) if menu else 0
        out.append(SIM if k == 0 else menu[k - 1])
    return out


def differ(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        for p, q in zip(x, y):
            if p != q:
                return 'operation %d %s:\n   %s\n   %s' % (i, x[0], p, q)
    return None


def copied(name, queues, exits, n1, n2, menu=(), bound=1, ties=False, orders=(0, 1, 2), init=True, again=False, setup=(), lost=False, words=None, **kw):
    def run(ctx):
        tab = deep.Reader(deep.words(ctx, words, 2, 3), ties) if words else Answers(ctx, ties)
        pre = ([('initialize', ('queues', list(range(len(queues)))))] if init else []) + list(setup) + ops(ctx, n1, menu)
        post = [ops(ctx, n2, menu), ops(ctx, n2, menu)]
        if not init or lost:
            post = [[SIM, ('initialize', ('queues', [0]))] + p for p in post]
        order = ctx.pick(orders)

        def start():
            r = tab.reader()
            e = make(ctx, queues, exits, r, **kw)
            for o in pre:
                act(e, o)
            return e, r
        env, r = start()
        before = nsnap(env.net), table(env), picture(env)
        net2 = env.net.copy()
        if again:
            net2 = net2.copy()
        if nsnap(env.net) != before[0]:
            raise Violation('copying changed the network')
        two = twin(env, net2, tab.reader(r.pos))
        for what, x, y in (('state', before[0], nsnap(net2)), ('settings', before[1], table(two)), ('picture', before[2], picture(two)),
                           ('queue data', str(env.net.get_queue_data().tolist()), str(net2.get_queue_data().tolist())),
                           ('agent data', str(sorted(map(str, env.net.get_agent_data().items()))), str(sorted(map(str, net2.get_agent_data().items()))))):
            if x != y:
                raise Violation('%s of the network and of its copy differ after %s:\n   %s\n   %s' % (what, pre, x, y))
        env.rec = []
        if order == 0:
            seq = [(env, o) for o in post[0]] + [(two, o) for o in post[1]]
        elif order == 1:
            seq = [(two, o) for o in post[1]] + [(env, o) for o in post[0]]
        else:
            seq = [x for a, b in zip(post[0], post[1]) for x in ((env, a), (two, b))]
        for e, o in seq:
            act(e, o)
        for who, e, suffix in (('original', env, post[0]), ('copy', two, post[1])):
            ref, _ = start()
            ref.rec = []
            for o in suffix:
                act(ref, o)
            d = differ(e.rec, ref.rec)
            if d:
                raise Violation('the %s (first) and a network that was never copied (second) differ at %s\nafter %s' % (who, d, pre))
        ctx.state((nsnap(env.net), nsnap(net2)))
        return nsnap(env.net).events, nsnap(net2).agents
    return Scenario(name, run, bound)


def cleared(name, queues, exits, n1, n2, menu=(), bound=1, ties=False, setup=(), start=None, words=None, **kw):
    def run(ctx):
        p = deep.words(ctx, words, 2, 3) if words else None
        tab = deep.Reader(p, ties) if words else Answers(ctx, ties)
        env = make(ctx, queues, exits, tab.reader(), **kw)
        blank = nsnap(env.net)
        for o in list(setup) + [('initialize', ('queues', list(range(len(queues)))))] + ops(ctx, n1, menu):
            act(env, o)
        servers = [q.num_servers for q in env.net.edge2queue]
        trans = env.net.transitions(False)
        on = [q.collect_data for q in env.net.edge2queue]
        act(env, ('clear',))
        s = nsnap(env.net)
        want = blank._replace(queues=tuple(q._replace(servers=n, full=f.full) for q, n, f in zip(blank.queues, servers, s.queues)))
        if s != want:
            raise Violation('a cleared network is not blank:\n   %s\n   %s' % (s, want))
        if len(env.net.get_queue_data()) or env.net.get_agent_data():
            raise Violation('data are left after clear()')
        tab2 = deep.Reader(p, ties, shift=1) if words else Answers(ctx, ties)
        tab2.times = getattr(tab, 'times', None)
        r1, r2 = tab2.reader(), tab2.reader()
        env.draw, env.unit = r1, lambda: r1('U', (0.25, 0.75))
        env.rec, env.agents = [], {}
        new = make(ctx, queues, exits, r2, **kw)
        for q, n, c in zip(new.net.edge2queue, servers, on):
            q.num_servers = n
            q.collect_data = c
        new.net.set_transitions({v: p for v, p in trans.items() if p})
        seq = [SIM, ('initialize', ('queues', start if start is not None else list(range(len(queues)))))] + ops(ctx, n2, menu)
        for o in seq:
            act(env, o)
            act(new, o)
        if env.rec[0][1] != 'refused':
            raise Violation('a cleared network simulates before it is initialized')
        d = differ(env.rec, new.rec)
        if d:
            raise Violation('a cleared network (first) and a new one (second) differ at %s' % d)
        ctx.state(nsnap(env.net))
        return nsnap(env.net).events, nsnap(env.net).agents
    return Scenario(name, run, bound)


def separate():
    """Settings changed in place in the copy leave the original alone, and the other way round."""
    def run(ctx):
        qs, ex = nscen.loop(QS, LQ, s1=(1,), s2=(3,), g1=(1,), g2=(3,))
        tab = Answers(ctx, False)
        env = make(ctx, qs, ex, tab.reader())
        for o in [('initialize', ('queues', [0, 1])), SIM, SIM]:
            act(env, o)
        a, b = env.net, env.net.copy()
        two = twin(env, b, None)
        was = [nsnap(env.net), table(env), picture(env)]
        x, y, watched = ((a, b, two), (b, a, env))[ctx.choose(2)]
        what = ctx.choose(7)
        if what == 0:
            for c in x.colors.values():
                c[0] = 0.125
        elif what == 1:
            for q in x.edge2queue:
                for c in q.colors.values():
                    c[0] = 0.125
        elif what == 2:
            for e in x.g.edges():
                x.g.set_ep(e, 'edge_type', 7)
                x.g.set_ep(e, 'edge_color', [0.5, 0.5, 0.5, 0.5])
        elif what == 3:
            for v in x.g.nodes():
                x.g.set_vp(v, 'vertex_fill_color', [0.5, 0.5, 0.5, 0.5])
        elif what == 4:
            x.g.set_pos({v: (9.0 - v, 1.0) for v in x.g.nodes()})
        elif what == 5:
            for l in x.out_edges + x.in_edges:
                l.append(0)
        else:
            x.set_transitions({1: {1: 0.25, 2: 0.75}})
        ctx.step()
        got = [nsnap(watched.net), table(watched), picture(watched)]
        if got != was:
            raise Violation('settings changed in the %s change the %s:\n  %s\n  %s' % (('original', 'copy') if watched is two else ('copy', 'original'), was, got))
        ctx.state((what, x is a))
        return what, x is a
    return Scenario('settings changed in place', run)


def scenarios(tier):
    th = 1 if tier == 'thorough' else -1
    s = []
    MENU = [('initialize', ('queues', [1])), ('stop_collecting_data', ('queues', [0])), ('clear_data',), ('clear',),
            ('set_transitions', ('mat', {1: {1: 1.0, 2: 0.0}}))]
    LINE = [m for m in MENU if m[0] != 'set_transitions']
    for b in ('BAS', 'RS'):
        qs, ex = nscen.loop(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 0})
        s.append(copied('copy loop %s' % b, qs, ex, 5 + th, 4 + th, MENU, blocking=b, order=(2, 1, 0), orders=(0, 1, 2) if th > 0 else (2,)))
        s.append(cleared('clear loop %s' % b, qs, ex, 5 + th, 5 + th, MENU[:3] + MENU[4:], blocking=b))
        qs, ex = nscen.cycle(IQ, IQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 1})
        s.append(copied('copy information %s' % b, qs, ex, 5 + th, 4 + th, LINE[:2], blocking=b, orders=(2,)))
        s.append(cleared('clear information %s' % b, qs, ex, 5 + th, 5 + th, LINE[:3], blocking=b))
    qs, ex = nscen.cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'num_servers': 2, 'qbuffer': 1}, k2={'num_servers': 2, 'qbuffer': 1})
    s.append(copied('copy resources', qs, ex, 6 + th, 4 + th, LINE[:1], orders=(2,)))
    s.append(cleared('clear resources', qs, ex, 6 + th, 5 + th, LINE[:1]))
    qs, ex = nscen.fork(QS, LQ, IQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k1={'num_servers': 2, 'active_cap': 3}, k2={'qbuffer': 0}, k3={'qbuffer': 1})
    s.append(copied('copy fork', qs, ex, 6 + th, 4 + th, [('initialize', ('queues', [2])), ('servers', ('e', 0), ('n', 1))], orders=(1, 2), order=(3, 0, 4, 1, 2)))
    s.append(cleared('clear fork', qs, ex, 6 + th, 5 + th, [('initialize', ('queues', [2])), ('servers', ('e', 0), ('n', 1)), ('servers', ('e', 0), ('n', 3))]))
    qs, ex = nscen.loop(QS, QS, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,))
    s.append(copied('copy before initializing', qs, ex, 0, 3, MENU[:1], init=False))
    s.append(copied('copy right after initializing', qs, ex, 0, 4 + th, MENU[:1], orders=(0, 1)))
    s.append(copied('copy of a cleared network', qs, ex, 0, 3, [], setup=[SIM, SIM, ('clear',)], orders=(0,), init=True, lost=True))
    s.append(copied('copy of a copy', qs, ex, 4 + th, 4 + th, MENU[:1], again=True, orders=(0, 2)))
    s.append(copied('copy with changed probabilities', qs, ex, 5 + th, 4 + th, [('set_transitions', ('mat', {1: {1: 0.5, 2: 0.5}}))], setup=[('set_transitions', ('mat', {1: {1: 0.75, 2: 0.25}}))], orders=(2,)))
    s.append(cleared('clear with changed probabilities', qs, ex, 5 + th, 4 + th, [], setup=[('set_transitions', ('mat', {1: {1: 0.75, 2: 0.25}}))]))
    s.append(copied('copy with few agents', qs, ex, 6 + th, 4 + th, MENU[:1], max_agents=3, orders=(2,)))
    s.append(cleared('clear with few agents', qs, ex, 6 + th, 5 + th, MENU[:1], max_agents=3))
    # several events due at once: the copy takes them in the same order
    for nm, top in (('loop', nscen.loop), ('cycle', nscen.cycle)):
        qs, ex = top(s1=(1, 2), s2=(1,), g1=(1, 2), g2=(2,), k2={'num_servers': 2})
        s.append(copied('copy with ties %s' % nm, qs, ex, 5 + th, 4 + th, [], ties=True, orders=(0, 2)))
        s.append(cleared('clear with ties %s' % nm, qs, ex, 4 + th, 5 + th, [], ties=True))
    qs, ex = nscen.merge(s1=(1, 2), s2=(1,), s3=(1, 2), g1=(1, 2), g2=(1,), g3=(1,))
    s.append(copied('copy with ties merge', qs, ex, 5 + th, 6 + th, [], ties=True, orders=(0,)))
    # long histories of a large network
    for kind in ('plain', 'finite', 'information', 'resource'):
        for b in ('BAS', 'RS'):
            qs, ex = deep.city(kind)
            for ties in (False, True):
                nm = 'large network, %s %s%s' % (kind, b, ', ties' if ties else '')
                s.append(copied('copy ' + nm, qs, ex, 60, 60, [], ties=ties, orders=(2,), words=(1, 1) if th < 0 else (1, 2), blocking=b))
                s.append(cleared('clear ' + nm, qs, ex, 60, 60, [], ties=ties, words=(1, 1) if th < 0 else (1, 2), blocking=b))
    for nm, top in (('line', nscen.line), ('cycle', nscen.cycle)):
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(900, 300, 500), g1=(1, 1), g2=(4, 4, 4), k2={'qbuffer': 200})
        s.append(cleared('clear, then a crowd, %s' % nm, qs, ex, 20, 420, [], words=(1, 1), start=[0]))
        s.append(copied('copy of a crowd, %s' % nm, qs, ex, 420, 20, [], words=(1, 1), orders=(2,)))
    s.append(separate())
    return s
