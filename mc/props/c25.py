"""C25: initialize() activates exactly the requested queues."""
from fractions import Fraction
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import graphs, rand, nsim, nscen, build
from mc.nmon import c11
from mc.nsim import Q, nfail, nsnap, INF
from mc.nscen import QS, LQ, IQ, RQ

ASSUMPTIONS = ['networks of at most six edges; max_agents leaves room for every requested queue',
               'requests naming a queue by more than one of index, edge and type at once are not judged']

GRAPHS = [
    {(0, 1): 1, (1, 2): 2, (2, 0): 1, (1, 3): 0},
    {(0, 1): 2, (1, 1): 1, (1, 0): 0, (0, 2): 0},
    {(0, 1): 1, (0, 2): 3, (1, 3): 0, (2, 3): 0, (2, 1): 1},
    {(1, 0): 4, (0, 0): 1, (0, 1): 1},
    {(0, 1): 1, (1, 0): 2, (1, 2): 1, (2, 0): 3, (2, 3): 0},
]


class Times(object):
    """Deterministic arrivals and services; remembers who asked."""

    def __init__(self):
        self.asked = []

    def arr(self, t):
        return t + 2.0

    def ser(self, t):
        return t + 1.0


def build_net(types, vo=1, eo=1, **kw):
    n = max(v for e in types for v in e) + 1
    g = graphs.digraph(n, sorted(types)[::eo], types, range(n)[::vo], pos=graphs.positions(n))
    tm = Times()
    args = {t: {'arrival_f': tm.arr, 'service_f': tm.ser} for t in set(types.values()) if t}
    return qt.QueueNetwork(g, q_args=args, **kw), sorted(types)


def gen(xs):
    for x in xs:
        yield x


def forms(edges, types, sub):
    """Every accepted way to name exactly the queues of `sub` (indices)."""
    es = [edges[i] for i in sub]
    out = []
    if len(sub) == 1:
        i, e = sub[0], es[0]
        out += [('queues', i), ('queues', np.int64(i)), ('queues', np.int32(i)), ('edges', e), ('edges', tuple(np.int64(v) for v in e)),
                ('edges', [e])]
    out += [('queues', list(sub)), ('queues', tuple(sub[::-1])), ('queues', set(sub)), ('queues', frozenset(sub)), ('queues', np.array(sub)),
            ('queues', lambda: gen(sub)), ('queues', dict.fromkeys(sub).keys()), ('queues', np.array(sub, np.int16)),
            ('edges', list(es)), ('edges', tuple(es)), ('edges', es[::-1]), ('edges', set(es)), ('edges', np.array(es)), ('edges', [list(e) for e in es]),
            ('edges', lambda: gen(es)), ('edges', dict.fromkeys(es)), ('edges', [tuple(np.int64(v) for v in e) for e in es])]
    if list(sub) == list(range(sub[0], sub[-1] + 1)):
        out.append(('queues', range(sub[0], sub[-1] + 1)))
    ts = {types[e] for e in es}
    if all((types[e] in ts) == (i in sub) for i, e in enumerate(edges)):
        t = sorted(ts)
        if len(t) == 1:
            out += [('edge_type', t[0]), ('edge_type', np.int64(t[0]))]
        out += [('edge_type', t), ('edge_type', tuple(t[::-1])), ('edge_type', ts), ('edge_type', np.array(t)), ('edge_type', lambda: gen(t)), ('edge_type', frozenset(ts))]
    return out


def state(net):
    return nsnap(net)


def activated(net, edges, types, want, what):
    for i, q in enumerate(net.edge2queue):
        if bool(q.active) != (i in want):
            raise Violation('%s on %s: queue %d is %sactive, requested are %s' % (what, types, i, '' if q.active else 'in', sorted(want)))
        if (q.next_event_description() == 1) != (i in want) or int(net.num_agents[i]) != (1 if i in want else 0):
            raise Violation('%s on %s: queue %d announces event %r and holds %d agents, requested are %s' % (
                what, types, i, q.next_event_description(), net.num_agents[i], sorted(want)))


def named(ctx):
    types = ctx.pick(GRAPHS)
    vo, eo = ctx.pick(((1, 1), (-1, -1)))
    edges = sorted(types)
    subs = [s for r in range(1, len(edges) + 1) for s in itertools.combinations(range(len(edges)), r)]
    sub = ctx.pick(subs)
    want = {i for i in sub if types[edges[i]] != 0}
    k = 0
    for name, val in forms(edges, types, sub):
        net, _ = build_net(types, vo, eo)
        v = val() if callable(val) else val
        what = 'initialize(%s=%r)' % (name, list(val()) if callable(val) else val)
        before = state(net)
        try:
            net.initialize(**{name: v})
        except qt.QueueingToolError:
            if want:
                raise Violation('%s on %s is refused' % (what, types))
            if state(net) != before:
                raise Violation('the refused %s on %s changed the network' % (what, types))
        else:
            if not want:
                raise Violation('%s on %s names terminal queues only and is accepted' % (what, types))
            activated(net, edges, types, want, what)
            net.simulate(n=1)
            if net.num_events != 1:
                raise Violation('%s on %s: no event can be simulated' % (what, types))
        k += 1
    ctx.step(k)
    ctx.state((str(types), sub, vo))
    return str(types), sub, vo


def number(ctx):
    types = ctx.pick(GRAPHS)
    edges = sorted(types)
    live = [i for i, e in enumerate(edges) if types[e] != 0]
    k = ctx.choose(len(edges) + 2) + 1
    how = ctx.choose(3)
    first = ((), live[:1], live[1:])[ctx.choose(3)]        # active already

    def fn():
        net, _ = build_net(types)
        if first:
            net.initialize(queues=list(first))
        if how == 0 and k == 1:
            net.initialize()
        elif how == 1:
            net.initialize(np.int64(k))
        else:
            net.initialize(nActive=k)
        act = tuple(i for i, q in enumerate(net.edge2queue) if q.active)
        activated(net, edges, types, set(act), 'initialize(nActive=%d)' % k)
        return tuple(i for i in act if i not in first)
    got, runs = rand.distribution(fn, cells=1)
    m = min(k, len(live))
    for act in got:
        if not m - len(first) <= len(act) <= m or (not first and len(act) != m) or not set(act) <= set(live):
            raise Violation('initialize(nActive=%d) on %s: active are %s' % (k, types, act))
    for i in live:
        if i in first:
            continue
        p = sum(w for act, w in got.items() if i in act)
        if p != Fraction(m, len(live)):
            raise Violation('initialize(nActive=%d) on %s: queue %d is activated with probability %s instead of %s' % (k, types, i, p, Fraction(m, len(live))))
    ctx.step(runs)
    ctx.state((str(types), k, how))
    return str(types), k, tuple(sorted(got))


REFUSED = [({'nActive': 0}, ValueError), ({'nActive': -1}, ValueError), ({'nActive': 1.5}, TypeError), ({'nActive': 2.0}, TypeError),
           ({'nActive': 0.5}, TypeError), ({'nActive': '1'}, TypeError), ({'nActive': np.float64(2)}, TypeError),
           ({'queues': []}, qt.QueueingToolError), ({'edges': []}, qt.QueueingToolError), ({'edge_type': []}, qt.QueueingToolError),
           ({'edge_type': 9}, qt.QueueingToolError), ({'edge_type': 0}, qt.QueueingToolError), ({'edge_type': (0, 9)}, qt.QueueingToolError),
           ({'queues': 'null'}, qt.QueueingToolError), ({'queues': ['null']}, qt.QueueingToolError), ({'edges': 'null'}, qt.QueueingToolError),
           ({'queues': 99}, IndexError), ({'queues': [0, 99]}, IndexError), ({'edges': (3, 3)}, KeyError), ({'edges': [(0, 1), (3, 3)]}, KeyError)]


def refused(ctx):
    """Documented errors; the network and its future are as if nothing had been asked."""
    types = GRAPHS[0]
    kw, err = ctx.pick(REFUSED)
    at = ctx.choose(5)

    def run(ask):
        net, edges = build_net(types)
        null = [i for i, e in enumerate(edges) if types[e] == 0][0]
        hist = []
        for step in range(6):
            if step == 1:
                net.initialize(queues=[0])
            if ask and step == at:
                real = {k: (null if k == 'queues' else edges[null]) if v == 'null' else [null] if v == ['null'] else v for k, v in kw.items()}
                before = state(net)
                try:
                    net.initialize(**real)
                except err:
                    pass
                except Exception as e:
                    if err in (IndexError, KeyError):       # not documented which
                        pass
                    else:
                        raise Violation('initialize(%s) raises %s instead of %s' % (real, type(e).__name__, err.__name__))
                else:
                    raise Violation('initialize(%s) is accepted on %s' % (real, types))
                if state(net) != before:
                    raise Violation('the refused initialize(%s) changed the network from %s to %s' % (real, before, state(net)))
            if step == 0:
                try:
                    net.simulate(n=1)
                except qt.QueueingToolError:
                    pass
                else:
                    raise Violation('a network that was never initialized simulates (initialize(%s) was refused)' % (kw,))
            else:
                rand.once(lambda: net.simulate(n=2))
            hist.append(state(net))
            ctx.step()
        return hist
    a, b = run(True), run(False)
    if a != b:
        raise Violation('refused initialize(%s) before step %d: the later history differs\n%s\n%s' % (kw, at, a, b))
    ctx.state((str(kw), at))
    return str(kw), at


def only_terminal(ctx):
    """A network of terminal queues cannot be initialized at all."""
    kw = ctx.pick(({}, {'nActive': 3}, {'queues': 0}, {'queues': [0, 1]}, {'edge_type': 0}, {'edges': (0, 1)}))
    net, edges = build_net({(0, 1): 0, (0, 2): 0})
    before = state(net)
    try:
        rand.once(lambda: net.initialize(**kw))
    except qt.QueueingToolError:
        pass
    else:
        raise Violation('initialize(%s) is accepted by a network that has terminal queues only' % (kw,))
    if state(net) != before:
        raise Violation('the refused initialize(%s) changed the network' % (kw,))
    ctx.step()
    ctx.state(str(kw))
    return str(kw)


def again(name, queues, exits, steps, start, **kw):
    """Initializing active queues again changes nothing, at any moment of any history."""
    def run(ctx):
        tab = nsim.NCached(nsim.NTimes(ctx))
        at = ctx.choose(steps)
        which = ctx.choose(4)
        routes = {}
        snaps = []
        for ask in (False, True):
            env = nsim.NEnv(ctx, queues, exits, draw=tab.stream(), **kw)
            n = [0]

            def pick(agent, edge, k):
                n[0] += 1
                if n[0] not in routes:
                    routes[n[0]] = ctx.choose(k)
                return routes[n[0]]
            env.draw_route = pick
            env.op('initialize', queues=start)
            rec = []
            for s in range(steps):
                if ask and s == at:
                    before = nsnap(env.net)
                    live = [i for i in range(env.nE) if env.net.edge2queue[i].active]
                    null = [i for i, t in enumerate(env.type_at) if t == 0]
                    if live:
                        req = [live, live[:1], live + null, live[::-1]][which]
                        env.net.initialize(queues=req)
                        if env.calls:
                            raise Violation('initialize(queues=%s) with %s active already asked for %s' % (req, live, env.calls))
                        env.calls = []
                        if nsnap(env.net) != before:
                            raise Violation('initialize(queues=%s) with %s active already changed the network\nfrom %s\nto   %s' % (req, live, before, nsnap(env.net)))
                o = env.sim()
                rec.append((o.post, env.named(o.calls)))
            snaps.append(rec)
        if snaps[0] != snaps[1]:
            i = [a == b for a, b in zip(*snaps)].index(False)
            raise Violation('initializing active queues again before step %d changed the history at step %d:\nwithout %s\nwith    %s' % (at, i, snaps[0][i], snaps[1][i]))
        for o, c in snaps[0]:
            ctx.state((o.events, o.next, o.agents))
        return at, which
    return Scenario(name, run)


def monitor(env, ds):
    """What initialize does to a running network: the named queues become active, nothing scheduled moves."""
    c11(env, ds)
    for d in ds:
        o = d.op
        if o.name != 'initialize':
            continue
        req = dict(o.args)
        names = {i for i in req['queues'] if env.type_at[i] != 0}
        # a queue that has had as many arrivals from outside as it may have stays inactive
        names -= {i for i in names if o.pre.queues[i].arrivals[1] >= env.spec_at[i].kw.get('active_cap', INF)}
        for e in range(env.nE):
            was, now = o.pre.queues[e].active, o.post.queues[e].active
            if now != (was or e in names):
                nfail(d, 'queue %d is %sactive after initialize(queues=%s)' % (e, '' if now else 'in', req['queues']))
            if d.after.line[e] != d.before.line[e] or d.after.serving[e] != d.before.serving[e]:
                nfail(d, 'initializing changed who is at queue %d' % e)
            for s, t in d.before.pending[e].items():
                if d.after.pending[e].get(s) != t:
                    nfail(d, 'initializing lost or moved the arrival of agent %s at queue %d, due %r' % (s, e, t))
            new = {s: t for s, t in d.after.pending[e].items() if s not in d.before.pending[e]}
            fresh = e in names and not was
            if bool(new) != fresh or len(new) > 1:
                nfail(d, 'initializing queue %d (%sactive before) scheduled %s' % (e, '' if was else 'in', new))
            for c in d.created:
                if c[1] == e and not c[2] >= o.pre.now:
                    nfail(d, 'the first arrival at queue %d was asked for time %r, it is %r' % (e, c[2], o.pre.now))


def many(ctx):
    """A larger network: as many distinct queues as asked for, whichever are drawn."""
    n, terminal, k = ctx.pick((12, 60, 130)), ctx.choose(2), ctx.choose(4)
    types = {(v, (v + 1) % n): 1 + v % 3 for v in range(n)}
    if terminal:
        types.update({(v, n): 0 for v in range(0, n, 2)})
    net, edges = build_net(types)
    live = [i for i, e in enumerate(edges) if types[e] != 0]
    count = (2, len(live) - 1, len(live), len(live) + 5)[k]
    u = ctx.pick((0.0, 0.5, rand.LAST))
    rand.once(lambda: net.initialize(nActive=count), u=u)
    act = [i for i, q in enumerate(net.edge2queue) if q.active]
    if len(act) != min(count, len(live)) or not set(act) <= set(live):
        raise Violation('initialize(nActive=%d) on a network of %d queues, %d of them terminal: %d are active, %d of those terminal' % (
            count, len(edges), len(edges) - len(live), len(act), len(set(act) - set(live))))
    ctx.step()
    ctx.state((n, terminal, k, u))
    return n, terminal, k, tuple(act)


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = [Scenario('named queues', named), Scenario('number of queues', number), Scenario('larger networks', many), Scenario('refused', refused), Scenario('terminal queues only', only_terminal)]
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        for b in ('BAS', 'RS'):
            qs, ex = top(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 0})
            s.append(again('again %s %s' % (nm, b), qs, ex, 7 + th, [0, 1], blocking=b))
        qs, ex = top(QS, LQ, s1=(1,), s2=(3, 6), g1=(1, 2), g2=(9, 4), k2={'qbuffer': 1}, k1={'active_cap': 3})
        menu = [('initialize', (('queues', q),)) for q in ([1], [0], [0, 1], [2, 1], [0, 1, 2])]
        s.append(nscen.scen('further queues %s' % nm, monitor, qs, bound=2 if th or nm == 'line' else 1, exits=ex, start=({'queues': [0]},), steps=7 + th, menu=menu))
        qs, ex = top(IQ, RQ, s1=(1,), s2=(3,), g1=(1, 2), g2=(9, 4), k2={'num_servers': 2, 'qbuffer': 3}, k1={'active_cap': 2})
        s.append(nscen.scen('further queues of other kinds %s' % nm, monitor, qs, bound=2, exits=ex, start=({'queues': [1]},), steps=6 + th, menu=menu[:4]))
    return s
