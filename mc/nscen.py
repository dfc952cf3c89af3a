"""Scenario builder for networks, and the topologies shared by the properties."""
import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import nsim
from mc.nsim import Q, INF
from mc.qscen import mixed

QS, LQ, IQ, RQ = qt.QueueServer, qt.LossQueue, qt.InfoQueue, qt.ResourceQueue


def flipped(queues, exits):
    """The same network with its vertices numbered the other way round, and what becomes of the numbers of the edges."""
    edges = [q.edge for q in queues] + list(exits)
    top = max(v for e in edges for v in e)
    new = lambda e: (top - e[0], top - e[1])
    after = sorted(map(new, edges))
    return [q._replace(edge=new(q.edge)) for q in queues], [new(e) for e in exits], [after.index(new(e)) for e in sorted(edges)]


def run_net(ctx, monitors, queues, steps=10, start=({'queues': [0]},), menu=(), menu_kind=DEV, flip=False, exits=(), **kw):
    number = lambda e: e
    if flip:
        queues, exits, numbers = flipped(queues, exits)
        number = numbers.__getitem__
        start = [renumbered(s, number) for s in start]
        menu = [(m[0], number(m[1]), m[2]) if m[0] == 'servers' else (m[0], renumbered(dict(m[1]), number)) for m in menu]
    env = nsim.NEnv(ctx, queues, exits=exits, **kw)
    for s in start:
        env.op('initialize', **s)
    for _ in range(steps):
        k = ctx.choose(1 + len(menu), menu_kind) if menu else 0
        if k == 0:
            env.sim()
        else:
            m = menu[k - 1]
            if m[0] == 'servers':       # ('servers', queue, number)
                env.servers(m[1], m[2])
            else:
                env.op(m[0], **dict(m[1]))
    ds = nsim.ntrack(env)
    for mon in monitors:
        mon(env, ds)
    for d in ds:
        ctx.state((d.after.key(), d.op.post.events, d.op.post.next))
    return env, ds


def renumbered(args, number):
    return dict(args, queues=[number(e) for e in args['queues']]) if 'queues' in args else args


def scen(name, monitor, queues, bound=0, **kw):
    """Half of the scenarios run with data collection on, and half with the vertices numbered the other way round: neither may matter."""
    kw.setdefault('collect', mixed(name, 1))
    kw.setdefault('flip', mixed(name, 2))

    def run(ctx):
        env, ds = run_net(ctx, [monitor], queues, **kw)
        return tuple((d.kind, d.edge, tuple((m.sid, m.dst, m.blocked) for m in d.moves)) for d in ds)
    return Scenario(name, run, bound)


# topologies: (queues, exits); edges are numbered in sorted order
def line(cls1=QS, cls2=QS, s1=(3,), s2=(5,), g1=(2,), g2=(4,), **k):
    """0 -> 1 -> 2 -> out"""
    return [Q((0, 1), cls1, g1, s1, k.get('k1', {}), k.get('a1')), Q((1, 2), cls2, g2, s2, k.get('k2', {}), k.get('a2'))], [(2, 3)]


def loop(cls1=QS, cls2=QS, s1=(3,), s2=(5,), g1=(2,), g2=(4,), **k):
    """0 -> 1, a loop at 1, out of 1"""
    return [Q((0, 1), cls1, g1, s1, k.get('k1', {}), k.get('a1')), Q((1, 1), cls2, g2, s2, k.get('k2', {}), k.get('a2'))], [(1, 2)]


def cycle(cls1=QS, cls2=QS, s1=(3,), s2=(5,), g1=(2,), g2=(4,), **k):
    """0 <-> 1, out of 1"""
    return [Q((0, 1), cls1, g1, s1, k.get('k1', {}), k.get('a1')), Q((1, 0), cls2, g2, s2, k.get('k2', {}), k.get('a2'))], [(1, 2)]


def merge(c1=QS, c2=QS, c3=QS, s1=(3,), s2=(4,), s3=(5,), g1=(2,), g2=(3,), g3=(7,), k1={}, k2={}, k3={}):
    """0 -> 2, 1 -> 2, 2 -> 3 -> out"""
    return [Q((0, 2), c1, g1, s1, k1), Q((1, 2), c2, g2, s2, k2), Q((2, 3), c3, g3, s3, k3)], [(3, 4)]


def fork(c1=QS, c2=QS, c3=QS, s1=(1,), s2=(4,), s3=(5,), g1=(2,), g2=(3,), g3=(7,), k1={}, k2={}, k3={}):
    """0 -> 1, 1 -> 2, 1 -> 3, both out"""
    return [Q((0, 1), c1, g1, s1, k1), Q((1, 2), c2, g2, s2, k2), Q((1, 3), c3, g3, s3, k3)], [(2, 4), (3, 4)]


def first(n):
    return ({'queues': list(range(n))},)
