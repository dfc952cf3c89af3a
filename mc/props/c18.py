"""C18: data selection names exactly the chosen queues and both views agree with them."""
import collections
import itertools

import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, graphs, nsim, nscen
from mc.nsim import Q, INF, nfail, nsnap
from mc.nscen import QS, LQ, IQ, RQ
from mc.props.c25 import GRAPHS, build_net, forms as _forms

ASSUMPTIONS = ['networks of at most six edges', 'requests naming a queue by more than one of index, edge and type at once, or naming it twice, are not judged',
               'durations come from small alphabets', 'rows of one agent with equal arrival times (visits of no duration) may come in any order among themselves']

HEADER = 'arrival,service,departure,num_queued,num_total,q_id'


def forms(edges, types, sub):
    """As for initialize(), where the parameter is called edge here."""
    out = [({'edges': 'edge'}.get(n, n), v) for n, v in _forms(edges, types, sub)] if sub else [('queues', []), ('queues', ()), ('edge', []), ('edge', ()), ('edge_type', 99), ('edge_type', [])]
    if len(sub) == len(edges):
        out.append((None, None))
    return out


def call(net, name, form, **kw):
    n, v = form
    v = v() if callable(v) else v
    return getattr(net, name)(**dict(kw, **({} if n is None else {n: v})))


def show(form):
    n, v = form
    return '' if n is None else '%s=%r' % (n, list(v()) if callable(v) else v)


def rows(a):
    return sorted(tuple(float(x) for x in r) for r in np.asarray(a).reshape(-1, 6))


def started(types, vo=1, eo=1, n=14, on=None):
    net, edges = build_net(types, vo, eo)
    np.random.seed(5)
    for i, q in enumerate(net.edge2queue):
        q.collect_data = on is None or i in on
    net.initialize(edge_type=[t for t in set(types.values()) if t])
    net.simulate(n=n)
    return net, edges


def want_rows(net, sub):
    """Straight from the queues."""
    return sorted(tuple(float(x) for x in r) + (float(i),) for i in sub for dat in net.edge2queue[i].data.values() for r in dat)


def want_agents(net, sub):
    out = collections.defaultdict(list)
    for i in sub:
        for a, dat in net.edge2queue[i].data.items():
            out[a] += [tuple(float(x) for x in r) + (float(i),) for r in dat]
    return {a: sorted(r) for a, r in out.items()}


def readout(net, form, sub, what):
    """Read twice: what was returned first belongs to the caller, who writes into it."""
    before = want_rows(net, sub)
    for a in readout_once(net, form, sub, what):
        a[...] = -7
    if want_rows(net, sub) != before:
        raise Violation('%s: the recorded data change with what was returned' % what)
    readout_once(net, form, sub, what + ', read again after changing what was returned')


def readout_once(net, form, sub, what):
    got = call(net, 'get_queue_data', form)
    if got.ndim != 2 or got.shape[1] != 6:
        raise Violation('get_queue_data(%s) has shape %s' % (what, got.shape))
    if rows(got) != want_rows(net, sub):
        raise Violation('get_queue_data(%s) gives %s; queues %s recorded %s' % (what, rows(got), sub, want_rows(net, sub)))
    h = call(net, 'get_queue_data', form, return_header=True)
    if rows(h[0]) != rows(got) or h[1] != HEADER:
        raise Violation('get_queue_data(%s) with a header gives something else: %s' % (what, h[1]))
    ag = call(net, 'get_agent_data', form)
    want = want_agents(net, sub)
    if set(ag) != set(want):
        raise Violation('get_agent_data(%s) tells of agents %s; queues %s saw %s' % (what, sorted(ag), sub, sorted(want)))
    for a, r in ag.items():
        if rows(r) != want[a]:
            raise Violation('get_agent_data(%s) gives %s for agent %s; queues %s recorded %s' % (what, rows(r), a, sub, want[a]))
        if [x[0] for x in r] != sorted(x[0] for x in r):
            raise Violation('get_agent_data(%s): the rows of agent %s are not in order of arrival: %s' % (what, a, r))
    h = call(net, 'get_agent_data', form, return_header=True)
    if h[1] != HEADER or {a: rows(r) for a, r in h[0].items()} != want:
        raise Violation('get_agent_data(%s) with a header gives something else' % what)
    return [got] + list(ag.values()) + list(h[0].values())


def flags(net):
    return [bool(q.collect_data) for q in net.edge2queue]


def data(net):
    return [want_rows(net, [i]) for i in range(net.num_edges)]


def case(ctx):
    types = ctx.pick(GRAPHS)
    vo, eo = ctx.pick(((1, 1), (-1, -1)))
    edges = sorted(types)
    sub = ctx.pick([s for r in range(len(edges), -1, -1) for s in itertools.combinations(range(len(edges)), r)])
    return types, vo, eo, edges, sub


def reading(ctx):
    types, vo, eo, edges, sub = case(ctx)
    net, _ = started(types, vo, eo)
    if not all(want_rows(net, [i]) for i in range(len(edges)) if types[edges[i]]):
        raise Violation('harness: some queue has no data', key='harness')
    before, s, f = data(net), nsnap(net), flags(net)
    for form in forms(edges, types, sub):
        readout(net, form, sub, show(form))
        ctx.step(2)
    if (before, s, f) != (data(net), nsnap(net), flags(net)):
        raise Violation('reading data of %s changed them' % (sub,))
    ctx.state((str(types), sub, vo))
    return str(types), sub


def acting(what):
    def run(ctx):
        types, vo, eo, edges, sub = case(ctx)
        n = len(edges)
        if what == 'start':
            ref, _ = started(types, vo, eo, 6)
            np.random.seed(3)
            ref.simulate(n=8)
            full = data(ref)
        for form in forms(edges, types, sub):
            on = set(range(n)) - set(sub) if what == 'start' else set(range(n))
            if what == 'start' and len(on) > 1:
                on -= {min(on)}
            net, _ = started(types, vo, eo, 9 if what == 'clear' else 6, on)
            old, s, f = data(net), nsnap(net), flags(net)
            if what == 'clear':
                call(net, 'clear_data', form)
                want, fl = [[] if i in sub else old[i] for i in range(n)], f
            else:
                call(net, what + '_collecting_data', form)
                want, fl = old, [(what == 'start') if i in sub else f[i] for i in range(n)]
            if flags(net) != fl:
                raise Violation('%s(%s) on %s: collection is %s, it should be %s' % (what, show(form), types, flags(net), fl))
            if data(net) != want:
                raise Violation('%s(%s) on %s: data are %s, they should be %s' % (what, show(form), types, data(net), want))
            if nsnap(net) != s:
                raise Violation('%s(%s) on %s changed the network:\n%s\n%s' % (what, show(form), types, s, nsnap(net)))
            ref, _ = started(types, vo, eo, 9 if what == 'clear' else 6, on)
            for x in (net, ref):
                np.random.seed(3)
                x.simulate(n=8)
            if nsnap(net) != nsnap(ref):
                raise Violation('%s(%s) on %s changed the future' % (what, show(form), types))
            now, r = data(net), data(ref)
            for i in range(n):
                if i not in sub and now[i] != r[i]:
                    raise Violation('%s(%s) on %s: queue %d, which is not named, records %s instead of %s' % (what, show(form), types, i, now[i], r[i]))
                if i in sub and what == 'stop' and len(now[i]) != len(old[i]):
                    raise Violation('%s(%s) on %s: queue %d still records %s' % (what, show(form), types, i, now[i]))
                if i in sub and what == 'start':
                    x, y = [[a for a in b[i] if a[0] > s.now] for b in (now, full)]
                    if x != y:
                        raise Violation('%s(%s) on %s: queue %d records %s instead of %s' % (what, show(form), types, i, x, y))
            ctx.step(1)
        ctx.state((str(types), sub, vo))
        return str(types), sub
    return run


def journeys(name, queues, exits, steps, menu=(), bound=0, init=None, off=(), subsets=True, **kw):
    """What an agent's rows tell is the way it went."""
    def run(ctx):
        env = nsim.NEnv(ctx, queues, exits, collect=True, **kw)
        for e in off:
            env.net.stop_collecting_data(queues=e)
        env.op('initialize', queues=init or list(range(len(queues))))
        reads = [env.net.get_agent_data()]
        for _ in range(steps):
            k = ctx.choose(1 + len(menu), DEV) if menu else 0
            if k:
                env.op(menu[k - 1][0], **dict(menu[k - 1][1]))
            else:
                env.sim()
            reads.append(env.net.get_agent_data())
        way = told(env, nsim.ntrack(env), reads, off)
        net = env.net
        if subsets:
            for k in range(2 ** env.nE):
                sub = [i for i in range(env.nE) if k >> i & 1]
                readout(net, ('queues', sub), sub, 'queues=%s' % sub)
        return tuple(sorted(len(w) for w in way.values()))
    return Scenario(name, run, bound)


def reading_all(env):
    env.reads = []

    def read(env):
        env.reads.append(env.net.get_agent_data())
    return read


def matching(have, want):
    return want if sorted(have) == sorted(want) else have


def told(env, ds, reads, off=()):
    way = collections.defaultdict(list)       # agent id -> [queue, arrival, departure]
    ident = {}
    sid2id = {s: a.agent_id for s, a in env.agents.items()}
    if len(set(map(str, sid2id.values()))) != len(sid2id):
        raise Violation('two agents have the same identity: %s' % sorted(map(str, sid2id.values())))
    on = [i not in off for i in range(env.nE)]
    for d, got in zip(ds, reads):
        if d.bad:
            nfail(d, d.bad)
        now = d.op.post.now
        for s, e, t in d.served_out:
            if way[s] and way[s][-1][0] == e:
                way[s][-1][2] = now
        for s, e, t in d.lost:
            way[s].append([e, now, 0.0])
        for s, e, t in d.arrived:
            way[s].append([e, now, 0.0])
        for m in d.moves:
            if not m.blocked and env.type_at[m.dst] == 0:
                way[m.sid].append([m.dst, now, 0.0])
            elif not m.blocked and m.sid in d.after.returned and m.sid not in d.before.returned:
                way[m.sid].append([m.dst, now, now])
        want = {sid2id[s]: [(float(a), float(b), float(e)) for e, a, b in w if on[e]] for s, w in way.items()}
        want = {a: w for a, w in want.items() if w}
        have = {a: [(float(x[0]), float(x[2]), float(x[5])) for x in r] for a, r in got.items()}
        for a, w in have.items():
            if [x[0] for x in w] != sorted(x[0] for x in w):
                nfail(d, 'the data of agent %s are not in order of arrival: %s' % (a, w))
        # visits that begin at the same instant (the earlier ones last no time) come in any order
        have = {a: [x for t in sorted({x[0] for x in w}) for x in matching([x for x in w if x[0] == t], [x for x in want.get(a, ()) if x[0] == t])] for a, w in have.items()}
        if have != want:
            nfail(d, 'agents went %s, their data say %s' % ({a: w for a, w in want.items() if have.get(a) != w}, {a: w for a, w in have.items() if want.get(a) != w}))
        if not off:
            for a, w in have.items():
                for x, y in zip(w, w[1:]):
                    if x[1] != y[0]:
                        nfail(d, 'the journey of agent %s is not continuous: %s' % (a, w))
        env.ctx.state(str(sorted(map(str, have.items()))))
    return way


def many(n):
    """The data of very many agents."""
    def run(ctx):
        n_ = n + ctx.choose(2)
        vo, eo = ctx.pick(((1, 1), (-1, -1)))
        edges = [(0, 1), (1, 2), (2, 3)]
        types = {(0, 1): 1, (1, 2): 2, (2, 3): 0}
        g = graphs.digraph(4, edges[::eo], types, range(4)[::vo])
        args = {1: {'arrival_f': lambda t: t + 1.0, 'service_f': lambda t: t + 0.25}, 2: {'arrival_f': lambda t: INF, 'service_f': lambda t: t + 0.5}}
        net = qt.QueueNetwork(g, q_classes={1: QS, 2: QS}, q_args=args, max_agents=10 ** 7, seed=2)
        net.start_collecting_data()
        net.initialize(queues=0)
        net.simulate(n=3 * n_)
        ctx.step(n_ * 3)
        times = [[(float(i), float(i), i + 0.25, 0.0), (i + 0.25, i + 0.25, i + 0.75, 1.0), (i + 0.75, 0.0, 0.0, 2.0)] for i in range(1, n_ + 1)]
        for sub in ([0], [1], [2], [0, 1], [0, 1, 2]):
            want = [sorted(r for r in t if r[3] in sub) for t in times]
            got = [tuple(float(x) for x in r) for r in net.get_queue_data(queues=sub)]
            if sorted((r[0], r[1], r[2], r[5]) for r in got) != sorted(r for w in want for r in w):
                raise Violation('the data of %d agents by queue (queues %s): %d rows' % (n_, sub, len(got)))
            have = {k: sorted((float(r[0]), float(r[1]), float(r[2]), float(r[5])) for r in v) for k, v in net.get_agent_data(queues=sub).items()}
            if sorted(have.values()) != sorted(want) or sorted(have) != [(0, i) for i in range(n_)]:
                raise Violation('the data of %d agents by agent (queues %s): %d agents' % (n_, sub, len(have)))
        ctx.state((n_, vo))
        return n_, vo
    return Scenario('data of %d agents' % n, run)


def far(n):
    """Agents that visit very many queues."""
    def run(ctx):
        vo, eo, back = ctx.pick((1, -1)), ctx.pick((1, -1)), ctx.choose(2)
        label = (lambda v: n - v) if back else (lambda v: v)
        edges = [(label(v), label(v + 1)) for v in range(n)]
        types = {e: 2 for e in edges}
        types[edges[0]], types[edges[-1]] = 1, 0
        g = graphs.digraph(n + 1, edges[::eo], types, range(n + 1)[::vo])
        args = {1: {'arrival_f': lambda t: t + 1.0, 'service_f': lambda t: t + 0.25, 'active_cap': 3}, 2: {'service_f': lambda t: t + 0.5}}
        net = qt.QueueNetwork(g, q_classes={1: QS, 2: QS}, q_args=args, seed=2)
        index = {e: i for i, e in enumerate(sorted(edges))}
        number = [index[e] for e in edges]
        net.start_collecting_data()
        net.initialize(queues=number[0])
        net.simulate(n=5 * n)
        ctx.step(5 * n)
        want = {}
        for i in range(3):
            t = 1.0 + i
            rows = []
            for j in range(n):
                d = t + (0.25 if j == 0 else 0.5)
                rows.append((t, t, d, float(number[j])) if j < n - 1 else (t, 0.0, 0.0, float(number[j])))
                t = d
            want[number[0], i] = rows
        have = {k: [(float(r[0]), float(r[1]), float(r[2]), float(r[5])) for r in v] for k, v in net.get_agent_data().items()}
        if have != want:
            raise Violation('agents that pass %d queues: their data are %s' % (n, {k: (v[:3], v[-3:]) for k, v in have.items() if want.get(k) != v}))
        for sub in (number, number[::2], number[-1:], [number[n // 2]]):
            got = sorted((float(r[0]), float(r[1]), float(r[2]), float(r[5])) for r in net.get_queue_data(queues=sub))
            if got != sorted(r for v in want.values() for r in v if int(r[3]) in set(sub)):
                raise Violation('%d queues: the data of the queues %s are %s' % (n, sub[:5], got[:5]))
        ctx.state((n, vo, eo, back))
        return n, vo, eo, back
    return Scenario('agents that pass %d queues' % n, run)


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = [Scenario('read what is selected', reading)]
    for w in ('start', 'stop', 'clear'):
        s.append(Scenario('%s what is selected' % w, acting(w)))
    for n in (20, 99, 1023, 4100) if th else (20, 1023):
        s.append(many(n))
    for n in (140, 300) if th else (140, 270):
        s.append(far(n))
    for b in ('BAS', 'RS'):
        for nm, top in (('loop', nscen.loop), ('cycle', nscen.cycle), ('line', nscen.line)):
            qs, ex = top(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 1})
            s.append(journeys('journeys %s %s' % (nm, b), qs, ex, 9 + 2 * th, blocking=b))
    for nm, top in (('loop', nscen.loop), ('cycle', nscen.cycle), ('line', nscen.line)):
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(1,), k1={'active_cap': 3}, k2={'qbuffer': 1, 'active_cap': 2})
        s.append(journeys('journeys that take no time, %s' % nm, qs, ex, 8 + th, ties=True))
    s += deep.networks(lambda env, ds: told(env, ds, env.reads), tier, after=reading_all, collect=True, steps=120)
    qs, ex = nscen.fork(QS, LQ, LQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1, 2), g2=(9,), g3=(9,), k1={'num_servers': 2}, k2={'qbuffer': 0}, k3={'qbuffer': 1})
    s.append(journeys('journeys fork', qs, ex, 7 + 2 * th, init=[0]))
    qs, ex = nscen.cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,), k1={'num_servers': 3, 'qbuffer': 3}, k2={'num_servers': 3, 'qbuffer': 3})
    s.append(journeys('journeys with resources', qs, ex, 8 + 2 * th))
    qs, ex = nscen.cycle(IQ, IQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,), k1={'qbuffer': 1})
    s.append(journeys('journeys with information', qs, ex, 8 + 2 * th))
    qs, ex = nscen.loop(QS, QS, s1=(1, 3), s2=(1,), g1=(1,), g2=(4,))
    s.append(journeys('journeys seen in part', qs, ex, 9 + th, off=(1,)))
    s.append(journeys('journeys seen without the exit', qs, ex, 9 + th, off=(2,)))
    qs, ex = nscen.merge(s1=(1, 2), s2=(1,), s3=(2,), g1=(1, 3), g2=(2,), g3=(9,))
    s.append(journeys('journeys merge', qs, ex, 8 + th))
    return s
