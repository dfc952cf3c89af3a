"""C13: routing follows the graph and the configured probabilities."""
from fractions import Fraction
import itertools

import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, graphs, rand, nsim, nscen
from mc.nsim import Q, INF, nfail
from mc.nscen import QS, LQ, IQ, RQ

ASSUMPTIONS = ['probabilities are multiples of 1/8 (1/3 for the default), a uniform number is the midpoint of one of N equal cells, 0 or the largest number below 1',
               'destinations of agents refused at a full queue are drawn anew at every attempt: the distribution is that of one attempt']


def dists(k, den=8):
    if k == 1:
        return [(den,)]
    return [(a,) + c for a in range(den + 1) for c in dists(k - 1, den - a)]


def star(k, loop, vo, eo, extra=False):
    """0 -> 1 and k out-edges of vertex 1, one of them possibly a loop."""
    outs = [(1, 1)] if loop else []
    outs += [(1, v) for v in range(2, 2 + k - len(outs))]
    edges = [(0, 1)] + outs
    n = max(v for e in edges for v in e) + 1
    if extra:
        edges += [(1, 0), (0, n - 1)]
    n = max(n, 2)
    types = {e: 1 if any(f[0] == e[1] for f in edges) else 0 for e in edges}
    order = range(n) if vo == 1 else range(n - 1, -1, -1)
    return n, edges, graphs.digraph(n, edges[::eo], types, order, pos=graphs.positions(n))


AGENTS = (qt.Agent, lambda aid: qt.InfoAgent(aid, net_size=8), qt.ResourceAgent)


def exact(name, k, loop, dens, extra=False):
    """The distribution of the destination of a plain agent, one attempt."""
    def run(ctx):
        vo, eo = ctx.pick(((1, 1), (-1, -1), (1, -1)))
        n, edges, g = star(k, loop, vo, eo, extra)
        net = qt.QueueNetwork(g, seed=1)
        se = sorted(edges)
        outs = [e for e in se if e[0] == 1]
        src = ctx.pick([e for e in se if e[1] == 1])
        make = ctx.pick(AGENTS)
        how = ctx.choose(4)         # default, dictionary, dictionary without the zeros, matrix
        blocked = ctx.pick((0, 1, 9))
        kk = len(outs)
        runs = 0
        for ws in (dists(kk, dens) if how else [None]):
            cells = dens * 2
            if how == 0:
                cells, want = 6 * kk, {e: Fraction(1, kk) for e in outs}
            else:
                want = {e: Fraction(w, dens) for e, w in zip(outs, ws)}
                if how == 3:
                    m = np.zeros((n, n))
                    for e in se:
                        m[e] = 1.0 / sum(f[0] == e[0] for f in se)
                    for e in outs:
                        m[e] = float(want[e])
                    net.set_transitions(m)
                else:
                    net.set_transitions({1: {e[1]: float(p) for e, p in want.items() if p or how == 1}})
            edge = net.edge2queue[se.index(src)].edge
            agent = make((src, 0))
            agent.blocked = blocked

            def fresh():
                a = make((src, 0))
                a.blocked = blocked
                return int(a.desired_destination(net, edge))
            got, r = rand.distribution(fresh, cells=cells)
            runs += r
            got = {se[i] if 0 <= i < len(se) else i: p for i, p in got.items()}
            if {e: p for e, p in got.items() if p} != {e: p for e, p in want.items() if p}:
                raise Violation('edges %s, probabilities %s: an agent on %s goes to %s' % (
                    edges, {e: str(p) for e, p in want.items()}, src, {e: str(p) for e, p in got.items()}))
            for u in (0.0, rand.LAST):
                d = se[rand.once(lambda: int(agent.desired_destination(net, edge)), u=u)]
                if not want.get(d):
                    raise Violation('edges %s, probabilities %s, uniform number %r: an agent on %s takes %s' % (
                        edges, {e: str(p) for e, p in want.items()}, u, src, d))
        ctx.step(runs)
        ctx.state((vo, eo, src, how))
        return vo, eo, src, how
    return Scenario(name, run)


def again(ctx):
    """Every attempt is drawn anew, with the probabilities of the vertex reached, whatever those elsewhere."""
    k = ctx.pick((2, 3))
    loop = ctx.choose(2) == 1
    edges = [(0, v) for v in range(1, 1 + k)]
    far = [(1, 1)] if loop else []
    far += [(1, v) for v in range(1 + k, 1 + 2 * k - len(far))]
    edges += far + ([(4 + 2 * k, 1)] if loop else [])
    n = max(v for e in edges for v in e) + 1
    types = {e: 1 if any(f[0] == e[1] for f in edges) else 0 for e in edges}
    net = qt.QueueNetwork(graphs.digraph(n, edges, types, pos=graphs.positions(n)), seed=1)
    se = sorted(edges)
    near = [e for e in se if e[0] == 0]
    outs = [e for e in se if e[0] == 1]
    w0 = ctx.pick(dists(k, 4))
    w1 = ctx.pick(dists(k, 4))
    net.set_transitions({0: {e[1]: w / 4.0 for e, w in zip(near, w0)}, 1: {e[1]: w / 4.0 for e, w in zip(outs, w1)}})
    src = ctx.pick([e for e in se if e[1] == 1])
    make = ctx.pick(AGENTS)
    first = ctx.pick((0, 1, 3))
    more = ctx.choose(2)
    edge = net.edge2queue[se.index(src)].edge

    def fn():
        a = make((src, 0))
        a.blocked = first
        x = int(a.desired_destination(net, edge))
        a.blocked += more
        y = int(a.desired_destination(net, edge))
        return x, y
    got, runs = rand.distribution(fn, cells=8)
    got = {(se[x], se[y]): p for (x, y), p in got.items() if p}
    want = {(e, f): Fraction(v * w, 16) for e, v in zip(outs, w1) for f, w in zip(outs, w1) if v * w}
    if got != want:
        raise Violation('edges %s, probabilities at 0 %s and at 1 %s (quarters): two attempts of an agent on %s, refused %d times before, lead to %s' % (
            se, w0, w1, src, first, {x: str(p) for x, p in got.items()}))
    ctx.step(runs)
    ctx.state((k, loop, w0, w1, src, first, more))
    return k, loop, w0, w1, src, first, more


def rounding(ctx):
    """Probabilities that sum to one only up to rounding never lead to an edge of probability zero."""
    k = ctx.pick((2, 3, 4))
    zero = ctx.choose(k)
    kind = ctx.choose(3)
    n, edges, g = star(k, False, 1, 1)
    net = qt.QueueNetwork(g, seed=1)
    outs = sorted(e for e in edges if e[0] == 1)
    live = [e for i, e in enumerate(outs) if i != zero]
    p = {e: (1.0 - 1e-9 if kind == 0 else 1.0 + 1e-9 if kind == 1 else 1.0) / len(live) for e in live}
    net.set_transitions({1: {e[1]: p.get(e, 0.0) for e in outs}})
    se = sorted(edges)
    agent = qt.Agent((0, 0))
    for u in (0.0, 5e-324, 1e-12, 0.25, 0.5, 1 - 1e-9, 1 - 1e-12, rand.LAST):
        d = se[rand.once(lambda: int(agent.desired_destination(net, net.edge2queue[se.index((0, 1))].edge)), u=u)]
        if d not in live:
            raise Violation('probabilities %s, uniform number %r: an agent takes %s' % ({e: p.get(e, 0.0) for e in outs}, u, d))
        ctx.step()
    ctx.state((k, zero, kind))
    return k, zero, kind


UGLY = ((0.1, 0.9), (1 / 3.0, 2 / 3.0), (1e-7, 1 - 1e-7), (0.5, 0.5), (0.123456789, 0.876543211),
        (0.1, 0.2, 0.7), (1 / 3.0, 1 / 3.0, 1 / 3.0), (0.3, 1e-7, 0.6999999), (1e-4, 0.4999, 0.5),
        (0.1, 0.2, 0.3, 0.4), (1 / 7.0, 2 / 7.0, 3 / 7.0, 1 / 7.0), (0.25, 1e-6, 0.749999 - 1e-7, 1e-7),
        (0.1,) * 10, (1 / 12.0,) * 12, (0.01,) * 9 + (0.91,))


def shares(ctx):
    """How much of [0, 1) leads to each edge, to twelve digits: between two sample points with
    different destinations the point of change is found by bisection."""
    ps = ctx.pick(UGLY)
    turn = ctx.choose(len(set(ps)))
    ps = ps[turn:] + ps[:turn]
    k = len(ps)
    loop = ctx.choose(2) == 1
    how = ctx.choose(2)
    n, edges, g = star(k, loop, 1, 1)
    net = qt.QueueNetwork(g, seed=1)
    se = sorted(edges)
    outs = [e for e in se if e[0] == 1]
    if how:
        m = np.zeros((n, n))
        for e in se:
            m[e] = 1.0 / sum(f[0] == e[0] for f in se)
        for e, p in zip(outs, ps):
            m[e] = p
        net.set_transitions(m)
    else:
        net.set_transitions({1: {e[1]: p for e, p in zip(outs, ps)}})
    src = ctx.pick([e for e in se if e[1] == 1])
    edge = net.edge2queue[se.index(src)].edge
    blocked = ctx.pick((0, 2))
    agent = ctx.pick(AGENTS[:1] if k > 5 else AGENTS)((src, 0))
    agent.blocked = blocked
    asked = []

    def to(u):
        d, used = rand.traced(lambda: int(agent.desired_destination(net, edge)), u)
        asked.append(used)
        ctx.step()
        return se[d] if 0 <= d < len(se) else d

    at = sorted(set([0.0, rand.LAST] + [(i + 0.5) / 256 for i in range(256)]
                    + [min(max(sum(ps[:i]) + x, 0.0), rand.LAST) for i in range(k + 1) for x in (-3e-8, 3e-8, -1e-10, 1e-10)]))
    there = [to(u) for u in at]
    share = dict.fromkeys(outs, 0.0)
    todo = list(zip(zip(at, there), list(zip(at, there))[1:]))
    while todo:
        (a, x), (b, y) = todo.pop()
        mid = (a + b) / 2
        if x == y or not a < mid < b:
            share[x] = share.get(x, 0.0) + (b - a)
        else:
            z = to(mid)
            todo += [((a, x), (mid, z)), ((mid, z), (b, y))]
    if any(used != 1 for used in asked):
        ctx.note('not decided here: a destination takes other than one uniform number')
    elif any(abs(share.get(e, 0.0) - p) > 1e-11 for e, p in zip(outs, ps)) or set(share) != set(outs):
        raise Violation('edges %s, probabilities %s: the uniform numbers that lead an agent on %s there make up %s' % (
            edges, dict(zip(outs, ps)), src, share))
    ctx.state((ps, loop, how, src))
    return ps, loop, how, src


def small(k, loop, den):
    """Very uneven probabilities."""
    def run(ctx):
        n, edges, g = star(k, loop, 1, 1)
        net = qt.QueueNetwork(g, seed=1)
        se = sorted(edges)
        outs = [e for e in se if e[0] == 1]
        src = ctx.pick([e for e in se if e[1] == 1])
        agent = ctx.pick(AGENTS)((src, 0))
        big = ctx.choose(k)
        tiny = ctx.choose(k)
        w = [0] * k
        w[big] += den - 1
        w[tiny] += 1
        if ctx.choose(2):
            m = np.zeros((n, n))
            for e in se:
                m[e] = 1.0 / sum(f[0] == e[0] for f in se)
            for e, x in zip(outs, w):
                m[e] = x / float(den)
            net.set_transitions(m)
        else:
            net.set_transitions({1: {e[1]: x / float(den) for e, x in zip(outs, w)}})
        edge = net.edge2queue[se.index(src)].edge
        got, runs = rand.distribution(lambda: int(agent.desired_destination(net, edge)), cells=den)
        got = {se[i]: p for i, p in got.items() if p}
        want = {e: Fraction(x, den) for e, x in zip(outs, w) if x}
        if got != want:
            raise Violation('edges %s, probabilities %s: an agent on %s goes to %s' % (edges, want, src, got))
        ctx.step(runs)
        ctx.state((src, big, tiny))
        return src, big, tiny
    return Scenario('uneven probabilities, %d out-edges%s' % (k, ', one of them a loop' if loop else ''), run)


def fine(k, loop, cells):
    """Few probabilities, very many uniform numbers."""
    def run(ctx):
        n, edges, g = star(k, loop, 1, 1)
        net = qt.QueueNetwork(g, seed=1)
        se = sorted(edges)
        outs = [e for e in se if e[0] == 1]
        w = ctx.pick([x for x in dists(k) if sorted(x) == list(x)])
        src = ctx.pick([e for e in se if e[1] == 1])
        agent = ctx.pick(AGENTS)((src, 0))
        net.set_transitions({1: {e[1]: x / 8.0 for e, x in zip(outs, w)}})
        edge = net.edge2queue[se.index(src)].edge
        got, runs = rand.distribution(lambda: int(agent.desired_destination(net, edge)), cells=cells)
        got = {se[i]: p for i, p in got.items() if p}
        want = {e: Fraction(x, 8) for e, x in zip(outs, w) if x}
        if got != want:
            raise Violation('edges %s, probabilities %s: an agent on %s goes to %s' % (edges, want, src, got))
        ctx.step(runs)
        ctx.state((src, w))
        return src, w
    return Scenario('%d out-edges%s, fine uniform numbers' % (k, ', one of them a loop' if loop else ''), run)


def c13(env, ds):
    """Agents move along the graph."""
    for d in ds:
        for m in d.moves:
            v = env.edge_list[m.src][1]
            if env.edge_list[m.dst][0] != v if 0 <= m.dst < env.nE else True:
                nfail(d, 'an agent on %s goes to queue %s, the out-edges of vertex %d are %s' % (env.edge_list[m.src], m.dst, v, env.outs[v]))
            a = env.agents[m.sid]
            if isinstance(a, qt.GreedyAgent):
                waiting = [len(d.before.line[e]) for e in env.outs[v]]
                best = env.outs[v][waiting.index(min(waiting))]
                if m.dst != best:
                    nfail(d, 'a greedy agent on %s goes to queue %s; waiting on the out-edges %s: %s' % (env.edge_list[m.src], m.dst, env.outs[v], waiting))
            got = [(s, e) for s, e, _ in d.arrived if s == m.sid]
            if not m.blocked and env.type_at[m.dst] != 0 and got != [(m.sid, m.dst)] and m.sid not in d.after.returned:
                nfail(d, 'an agent bound for queue %s arrived at %s' % (m.dst, got))


def simulated(name, queues, exits, probs, den, steps, agents=2, **kw):
    """Joint distribution of the routes of the first agents through a simulated network."""
    def run(ctx):
        ps = ctx.pick(probs)
        how = ctx.choose(2)
        trans = {}
        results = []

        class Once(object):
            """Plays the role of a context without decisions."""
            notes = []
            def choose(self, n, kind=0): return 0
            def pick(self, seq, kind=0): return seq[0]
            def step(self, n=1): ctx.step(n)
            def state(self, o): pass
            def note(self, *a): pass

        def fn():
            h = nsim.build.HOOK.handler
            env = nsim.NEnv(Once(), queues, exits, route='real', hook=False, **kw)
            env.unit = lambda: h('uniform', None, (), {})
            nsim.build.HOOK.handler = env.randomness
            try:
                if how:
                    m = np.zeros((env.net.nV,) * 2)
                    for v, d in ps.items():
                        for u, w in d.items():
                            m[v, u] = w / float(den)
                    for v in range(env.net.nV):
                        if v not in ps:
                            for e in env.outs.get(v, ()):
                                m[v, env.edge_list[e][1]] = 1.0 / len(env.outs[v])
                    env.net.set_transitions(m)
                else:
                    env.net.set_transitions({v: {u: w / float(den) for u, w in d.items()} for v, d in ps.items()})
                env.op('initialize', queues=[env.index[queues[0].edge]])
                for _ in range(steps):
                    env.sim()
            finally:
                nsim.build.HOOK.handler = h
            ds = nsim.ntrack(env)
            c13(env, ds)
            return tuple((m.sid, m.src, m.dst) for d in ds for m in d.moves if not m.blocked and m.sid < agents)
        edges = sorted([q.edge for q in queues] + list(exits))
        got, runs = rand.distribution(fn, cells=den)
        for hist, p in got.items():
            want = Fraction(1)
            for s, a, b in hist:
                v = edges[a][1]
                if v in ps:
                    want *= Fraction(ps[v].get(edges[b][1], 0), den)
                else:
                    want /= sum(e[0] == v for e in edges)
            if p != want:
                raise Violation('probabilities %s (times %d): the routes %s (agent, from, to; edges %s) have probability %s instead of %s' % (ps, den, hist, edges, p, want))
        ctx.state((str(ps), len(got)))
        return tuple(sorted(got))
    return Scenario(name, run)


GA = qt.GreedyAgent


def crowd(k):
    """A greedy agent before k queues."""
    def run(ctx):
        vo, eo = ctx.pick(((1, 1), (-1, -1)))
        i = ctx.choose(k)
        j = ctx.choose(k)
        level = ctx.pick((0, 1, 7))
        at = ctx.choose(k + 1) - 1          # a queue where everybody is being served, or none
        edges = [(0, 1)] + [(1, v) for v in range(2, 2 + k)] + [(v, 2 + k) for v in range(2, 2 + k)]
        n = 3 + k
        types = {e: 1 + x for x, e in enumerate(sorted(edges))}
        types.update({e: 0 for e in edges if e[1] == 2 + k})
        g = graphs.digraph(n, edges[::eo], types, range(n)[::vo])
        lines = {v: level + (0 if v in (2 + i, 2 + j) else 1 + (v * 7 + i) % 5) for v in range(2, 2 + k)}
        if at >= 0:
            lines[2 + at] = 0
        classes, args = {}, {}
        for e, t in types.items():
            if t:
                classes[t] = LQ if t % 2 else QS
                m = lines.get(e[1] if e[0] == 1 else None, -1)
                if e[0] == 1:
                    busy = 1 if e[1] != 2 + at else 25
                    args[t] = {'num_servers': busy, 'arrival_f': first_(m + busy), 'service_f': lambda t: t + 1000.0}
                    if t % 2:
                        args[t]['qbuffer'] = 50
                else:
                    args[t] = {'arrival_f': first_(1, 50.0), 'service_f': lambda t: t + 1.0, 'AgentFactory': GA}
        net = qt.QueueNetwork(g, q_classes=classes, q_args=args, seed=1, max_agents=10 ** 6)
        net.initialize(queues=[q.edge[2] for q in net.edge2queue if q.edge[3]])
        while net.current_time < 50:
            net.simulate(n=1)
            ctx.step()
        se = sorted(edges)
        have = {e[1]: net.edge2queue[x].number_queued() for x, e in enumerate(se) if e[0] == 1}
        if have != lines:
            raise Violation('harness: %s wait instead of %s' % (have, lines), key='harness')
        best = min(lines.values())
        want = min(v for v in lines if lines[v] == best)
        d = se[int(GA((0, 0)).desired_destination(net, net.edge2queue[se.index((0, 1))].edge))]
        if d != (1, want):
            raise Violation('a greedy agent takes %s; waiting at the %d ways: %s' % (d, k, [lines[v] for v in sorted(lines)]))
        before = [q.num_arrivals[0] for q in net.edge2queue]
        while net.current_time < 51.5:
            net.simulate(n=1)
            ctx.step()
        more = [se[x] for x, (q, b) in enumerate(zip(net.edge2queue, before)) if q.num_arrivals[0] != b and se[x] != (0, 1)]
        if more != [(1, want)]:
            raise Violation('a greedy agent in a simulation goes to %s; waiting at the %d ways: %s' % (more, k, [lines[v] for v in sorted(lines)]))
        ctx.state((i, j, level, at))
        return tuple(sorted(lines.items()))
    return Scenario('greedy agent before %d ways' % k, run)


class first_(object):
    """So many arrivals from a given time on."""

    def __init__(self, n, start=1.0):
        self.n, self.start, self.k = n, start, 0

    def __call__(self, t):
        self.k += 1
        return self.start + self.k * 2.0 ** -10 if self.k <= self.n else INF


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    s = []
    for k in (1, 2, 3, 4):
        for loop in (False, True):
            if k == 1 and loop:
                continue
            s.append(exact('%d out-edges%s' % (k, ', one of them a loop' if loop else ''), k, loop, 8 if k < 4 or e else 4))
    s.append(exact('other edges around', 3, True, 8 if e else 4, extra=True))
    s.append(Scenario('two attempts', again))
    s.append(Scenario('rounding', rounding))
    s.append(Scenario('shares of the unit interval', shares))
    for k in (9, 17, 33) if e else (9, 20):
        s.append(exact('%d out-edges' % k, k, False, 2))
    s.append(exact('70 out-edges', 70, False, 1))
    for k in (2, 3, 5, 10, 12) if e else (2, 3, 10):
        s.append(crowd(k))
    for k in (2, 3):
        for loop in (False, True):
            s.append(small(k, loop, 16384 if e else 2048))
    for k in (2, 3, 4):
        for loop in (False, True):
            s.append(fine(k, loop, 65536 if e else 16384))
    qs = [Q((0, 1), QS, (1,), (3,)), Q((1, 1), QS, (50,), (2,)), Q((1, 2), QS, (50,), (2,))]
    ps = [{1: {1: a, 2: b, 3: 8 - a - b}, 2: {1: 4, 3: 4}} for a, b in ((1, 3), (0, 8), (4, 0), (2, 6), (0, 0))]
    ps4 = [{1: {1: a, 2: b, 3: 4 - a - b}, 2: {1: 2, 3: 2}} for a, b in ((1, 2), (0, 4), (3, 0), (1, 3), (0, 0), (2, 2))]
    s.append(simulated('simulated routes', qs, [(1, 3), (2, 1), (2, 3)], ps4, 4, 11 if e else 9))
    s.append(simulated('simulated routes in eighths', qs, [(1, 3), (2, 1), (2, 3)], ps, 8, 8 if e else 7))
    lq = [Q((0, 1), LQ, (1,), (3,), {'qbuffer': 1}), Q((1, 2), IQ, (50,), (2,))]
    s.append(simulated('simulated routes of information agents', lq, [(1, 3), (2, 3), (2, 4)], [{1: {2: a, 3: 4 - a}, 2: {3: b, 4: 4 - b}} for a in (0, 1, 3) for b in (1, 4)], 4, 9))
    # greedy agents
    for nm, order in (('', None), (' (vertices inserted in another order)', (3, 1, 4, 2, 0))):
        g = [Q((0, 1), QS, (1,), (1,), {}, GA), Q((1, 2), QS, (2, 7), (4, 9), {}, GA), Q((1, 3), QS, (3, 8), (4, 9), {}, GA)]
        s.append(nscen.scen('greedy fork%s' % nm, c13, g, exits=[(2, 4), (3, 4)], start=nscen.first(3), steps=11 + 2 * e, route='real', order=order))
    g = [Q((0, 1), QS, (1,), (1,), {}, GA), Q((1, 1), LQ, (2, 9), (4,), {'qbuffer': 3}, GA), Q((1, 2), LQ, (3, 9), (6, 2), {'qbuffer': 3}, GA), Q((2, 1), QS, (9,), (3,), {'num_servers': 2}, GA)]
    s.append(nscen.scen('greedy loop', c13, g, exits=[(2, 3)], start=nscen.first(3), steps=11 + 2 * e, route='real'))
    g = [Q((0, 1), QS, (1,), (1, 2), {}, GA), Q((1, 2), QS, (2, 5), (8,), {}, GA), Q((1, 3), QS, (3,), (9, 4), {}, GA), Q((1, 4), QS, (3, 6), (7,), {}, GA)]
    s.append(nscen.scen('greedy three ways', c13, g, exits=[(2, 5), (3, 5), (4, 5)], start=nscen.first(4), steps=12 + 2 * e, route='real'))
    for b in ('BAS', 'RS'):
        for ties in (False, True):
            qs, ex = deep.city('finite')
            s.append(deep.network('greedy agents in a large network, %s%s' % (b, ', ties' if ties else ''), c13, words_=(2, 2 + e), ties=ties, blocking=b, route='real',
                                  top=([q._replace(agent=GA) for q in qs], ex)))
    s += deep.networks(c13, tier, route='real')
    # any network: moves follow the graph
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        qs, ex = top(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 1})
        for b in ('BAS', 'RS'):
            s.append(nscen.scen('%s %s' % (nm, b), c13, qs, exits=ex, start=nscen.first(2), steps=10 + e, blocking=b))
    return s
