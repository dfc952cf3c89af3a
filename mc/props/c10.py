"""C10: clear() and copy() of queues."""
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, qsim

ASSUMPTIONS = ['durations come from small alphabets', 'the newly built queue gets the same settings, including the current number of servers']


NEWS = ((0.25, 2.0, 1.0), (0.5, 1.0, 3.0))


def apply(ctx, env, op):
    if op == 'sim':
        return env.sim()
    if op[0] == 'collect':
        env.q.collect_data = op[1]
        return None
    if op[0] == 'give':
        return env.give(*op[1:])
    return env.op(*op)


def view(env):
    return env.record(), env.q.fetch_data().tolist()


def differ(a, b):
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            return 'step %d:\n   %s\n   %s' % (i, x, y)
    if len(a[0]) != len(b[0]):
        return 'different number of steps'
    if a[1] != b[1]:
        return 'data\n   %s\n   %s' % (a[1], b[1])
    return None


def ops(ctx, n, menu):
    out = []
    for _ in range(n):
        k = ctx.choose(1 + len(menu), DEV)
        out.append('sim' if k == 0 else menu[k - 1])
    return out


def source(times, alphabets, w=None, k=0):
    """Answers that can be read again: all of them, or a periodic environment."""
    if not w:
        return qsim.Cached(times, alphabets).stream
    r = deep.Reader(w, shift=k)
    return lambda pos=None: r.stream(alphabets, pos)


def settings(q):
    return [(n, getattr(q, n)) for n in ('num_servers', 'buffer', 'max_servers', 'active_cap', 'deactive_t', 'collect_data', 'edge') if hasattr(q, n)]


def clear_scen(name, cls, n1, n2, menu, gaps, services, bound, words=None, **kw):
    def run(ctx):
        times = qsim.Times(ctx)
        p = deep.words(ctx, words, len(gaps), len(services)) if words else None
        before = source(times, {'A': gaps, 'S': services}, p)
        env = qsim.QEnv(ctx, cls, draw=before(), collect_data=True, **kw)
        env.op('set_active')
        for o in ops(ctx, n1, menu):
            apply(ctx, env, o)
        had = settings(env.q)
        env.op('clear')
        if settings(env.q) != had:
            raise Violation('clear() changed the settings from %s to %s' % (had, settings(env.q)))
        s = qsim.snap(env.q)
        if s.now or s.arrivals != (0, 0) or s.departures or s.system or s.queued or s.active or s.blocked or s.kind or s.time != qsim.INF:
            raise Violation('not blank after clear(): %s' % (s,))
        if s.known is not None and any(r[0] != -1.0 for r in s.known):
            raise Violation('the queue still knows %s after clear()' % (s.known,))
        if len(env.q.fetch_data()):
            raise Violation('data left after clear()')
        ctx.state(s)
        after = source(times, {'A': gaps, 'S': services}, p, 1)
        env.restart(after())
        kw2 = dict(kw)
        fresh = qsim.QEnv(ctx, cls, draw=after(), collect_data=True, **kw2)
        fresh.q.num_servers = env.q.num_servers
        fresh.q.collect_data = env.q.collect_data
        if qsim.snap(fresh.q) != s:
            raise Violation('cleared queue and new queue:\n   %s\n   %s' % (s, qsim.snap(fresh.q)))
        for name_ in ('over_max', 'max_servers'):
            if getattr(fresh.q, name_, None) != getattr(env.q, name_, None):
                raise Violation('%s is %s after clear()' % (name_, getattr(env.q, name_)))
        suffix = [('set_active',)] + ops(ctx, n2, menu)
        for o in suffix:
            apply(ctx, env, o)
            apply(ctx, fresh, o)
        d = differ(view(env), view(fresh))
        if d:
            raise Violation('cleared and new queue differ at ' + d)
        return tuple(map(str, suffix)), qsim.snap(env.q)
    return Scenario(name, run, bound)


def copy_scen(name, cls, n1, n2, menu, gaps, services, bound, orders=(0, 1, 2), words=None, **kw):
    def run(ctx):
        stream = source(qsim.Times(ctx), {'A': gaps, 'S': services}, deep.words(ctx, words, len(gaps), len(services)) if words else None)
        pre = [('set_active',)] + ops(ctx, n1, menu)
        post = [ops(ctx, n2, menu), ops(ctx, n2, menu)]
        order = ctx.pick(orders)

        def build():
            s = stream()
            e = qsim.QEnv(ctx, cls, draw=s, collect_data=True, **kw)
            for o in pre:
                apply(ctx, e, o)
            return e, s
        env, st = build()
        q2 = env.q.copy()
        if type(q2) is not type(env.q) or q2 is env.q:
            raise Violation('the copy is not a queue of its own: %r' % (q2,))
        if qsim.snap(q2) != qsim.snap(env.q) or q2.fetch_data().tolist() != env.q.fetch_data().tolist() or q2.edge != env.q.edge:
            raise Violation('copy differs at once:\n  %s\n  %s' % (qsim.snap(env.q), qsim.snap(q2)))
        twin = env.twin(q2, stream(st.pos))
        env.ops = []
        both = [(env, post[0]), (twin, post[1])]
        if order == 0:
            seq = [(env, o) for o in post[0]] + [(twin, o) for o in post[1]]
        elif order == 1:
            seq = [(twin, o) for o in post[1]] + [(env, o) for o in post[0]]
        else:
            seq = [x for a, b in zip(post[0], post[1]) for x in ((env, a), (twin, b))]
        for e, o in seq:
            apply(ctx, e, o)
        for who, e, suffix in (('original', env, post[0]), ('copy', twin, post[1])):
            ref, _ = build()
            ref.ops = []
            for o in suffix:
                apply(ctx, ref, o)
            d = differ(view(e), view(ref))
            if d:
                raise Violation('the %s (first) differs from an undisturbed queue (second) at %s' % (who, d))
        ctx.state((qsim.snap(env.q), qsim.snap(q2)))
        return qsim.snap(env.q), qsim.snap(q2)
    return Scenario(name, run, bound)


class Shared(object):
    """One object behind the arrival times, the service times and the agents of a queue."""

    def __init__(self, word, cls):
        self.word, self.cls, self.n = word, cls, 0

    def draw(self):
        self.n += 1
        return self.word[self.n % len(self.word)] + self.n * 2.0 ** -12

    def arrival(self, t):
        return t + self.draw()

    def service(self, t):
        return t + 1.5 * self.draw()

    def agent(self, aid, *rest):
        self.n += 1
        a = self.cls(aid, *rest)
        a.env = self
        return a


def shared(cls, make, kw):
    def run(ctx):
        word = tuple(ctx.pick((0.5, 1.0, 3.0)) for _ in range(3))
        n1, n2 = ctx.pick((0, 1, 5, 12)), 60
        deact = ctx.choose(2)

        def build():
            e = Shared(word, make)
            q = cls(arrival_f=e.arrival, service_f=e.service, AgentFactory=e.agent, collect_data=True, **kw)
            q.set_active()
            q.simulate(n=n1)
            if deact:
                q.set_inactive()
            return q, e

        def future(q, k):
            out = []
            for i in range(n2):
                if i == k:
                    q.set_active()
                q.simulate(n=1)
                out.append(qsim.snap(q))
            return out, q.fetch_data().tolist()
        (a, e), (ref, _) = build(), build()
        n = e.n
        b = a.copy()
        c = b.copy()
        if e.n != n:
            raise Violation('copying asks the environment for answers')
        want = future(ref, 5)
        order = [a, b, c] if ctx.choose(2) else [c, b, a]
        for q in order:
            got = future(q, 5)
            ctx.step(n2)
            if got != want:
                raise Violation('word %s, copied after %d events: %s goes\n  %s\ninstead of\n  %s' % (
                    word, n1, ['the original', 'a copy', 'a copy of the copy'][[a, b, c].index(q)], str(got)[:600], str(want)[:600]))
        ctx.state(qsim.snap(a))
        return qsim.snap(a)
    return Scenario('%s with one object behind all its functions' % cls.__name__, run)


def colours(ctx):
    """What is put into the settings of one of original and copy does not show at the other."""
    cls, kw = ctx.pick(((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1}), (qt.InfoQueue, {'net_size': 2}), (qt.ResourceQueue, {'num_servers': 2}), (qt.NullQueue, {})))
    own = ctx.choose(2)
    who = ctx.choose(2)
    q = cls(colors={'edge_color': [0.25, 0.5, 0.75, 1.0]} if own else None, **kw)
    c = q.copy()
    if dict(c.colors) != dict(q.colors):
        raise Violation('%s: the colours of the copy are %s, those of the original %s' % (cls.__name__, c.colors, q.colors))
    changed, other = (q, c) if who else (c, q)
    before = {k: list(v) for k, v in other.colors.items()}
    for k in list(changed.colors):
        changed.colors[k] = [0.125, 0.125, 0.125, 0.5]
    changed.colors['more'] = [0.0, 0.0, 0.0, 1.0]
    if {k: list(v) for k, v in other.colors.items()} != before:
        raise Violation('%s: new colours of the %s show at the %s' % (cls.__name__, *(('original', 'copy') if who else ('copy', 'original'))))
    ctx.step(len(before))
    ctx.state((cls.__name__, own, who))
    return cls.__name__, own, who


def null_queue(ctx):
    """The exit queue keeps no data after clear()."""
    q = qt.NullQueue(edge=(1, 2, 3, 0), collect_data=True)
    q.data[(0, 0)] = [[1.0, 0, 0, 0, 0]]
    c = q.copy()
    q.clear()
    ctx.step()
    if len(q.fetch_data()):
        raise Violation('an exit queue keeps data after clear()')
    if len(c.fetch_data()) != 1:
        raise Violation('clearing an exit queue changed its copy')
    ctx.state(repr(q))
    return 0


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    menu = [('set_inactive',), ('set_num_servers', 1), ('set_num_servers', 3), ('delay_service',)]
    out = [Scenario('exit queue', null_queue), Scenario('colours', colours)]
    out += [shared(qt.QueueServer, qt.Agent, {'num_servers': 2}), shared(qt.LossQueue, qt.Agent, {'num_servers': 1, 'qbuffer': 1}),
            shared(qt.InfoQueue, qt.InfoAgent, {'num_servers': 2, 'qbuffer': 2, 'net_size': 2}), shared(qt.ResourceQueue, qt.ResourceAgent, {'num_servers': 3, 'qbuffer': 2})]
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1}), (qt.InfoQueue, {'net_size': 2, 'qbuffer': 1}), (qt.ResourceQueue, {})):
        nm = cls.__name__
        m = menu if cls is not qt.ResourceQueue else [menu[0], menu[3]]
        give = {'InfoQueue': [('give', 'half', NEWS), ('give', 0)], 'ResourceQueue': [('give', 'half', 'resource'), ('give', 0)]}.get(nm, [('give', 'half'), ('give', 'tie')])
        out.append(clear_scen(nm + ' clear, agents from elsewhere', cls, 4 + e, 3 + e, give, (1, 3), (4,), 2, num_servers=1, **kw))
        out.append(copy_scen(nm + ' copy, agents from elsewhere', cls, 3 + e, 3 + e, give, (1, 3), (4,), 2, num_servers=1, **kw))
        out.append(clear_scen(nm + ' clear', cls, 5 + e, 4 + e, m, (1, 3), (4,), 1 + e, num_servers=2, **kw))
        out.append(clear_scen(nm + ' clear cap', cls, 5 + e, 5 + e, m[:1], (1, 3), (4,), 1 + e, num_servers=2, active_cap=3, **kw))
        out.append(clear_scen(nm + ' clear deactivation', cls, 5 + e, 5 + e, m[:1], (1, 3), (4,), 1 + e, num_servers=2, deactive_t=4.0, **kw))
        out.append(copy_scen(nm + ' copy', cls, 5 + e, 3 + e, m, (1, 3), (4,), 1 + e, num_servers=2, **kw))
        switch = [('collect', False), ('collect', True)]
        out.append(clear_scen(nm + ' clear, collection switched', cls, 4 + e, 4, switch, (1,), (2,), 3 + e, num_servers=2, **kw))
        out.append(copy_scen(nm + ' copy, collection switched', cls, 4, 3 + e, switch, (1,), (2,), 3 + e, num_servers=2, **kw))
        out.append(copy_scen(nm + ' copy long', cls, 8, 5, m[:1], (1,), (3, 6), 1, orders=(2,), num_servers=2, **kw))
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 3}), (qt.InfoQueue, {'net_size': 2, 'qbuffer': 2}), (qt.ResourceQueue, {'qbuffer': 3})):
        nm = cls.__name__
        k = dict(kw, num_servers=12 if nm == 'ResourceQueue' else 2)
        for n1 in (40, 150):
            out.append(clear_scen('%s clear after %d events' % (nm, n1), cls, n1, 80, [], (0, 1, 2), (0, 1, 3, 6), 0, words=(1 + e, 2), **k))
            out.append(copy_scen('%s copy after %d events' % (nm, n1), cls, n1, 80, [], (0, 1, 2), (0, 1, 3, 6), 0, words=(1, 1 + e), **k))
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 280}), (qt.InfoQueue, {'net_size': 2, 'qbuffer': 280}), (qt.ResourceQueue, {'qbuffer': 280})):
        k = dict(kw, num_servers=2)
        out.append(clear_scen('%s clear after a crowd' % cls.__name__, cls, 400, 500, [], (1,), (2, 500), 0, words=(1, 1), **k))
        out.append(copy_scen('%s copy of a crowd' % cls.__name__, cls, 400, 200, [], (1,), (2, 500), 0, words=(1, 1), **k))
    for kw in ({}, {'qbuffer': 0}):
        out.append(clear_scen('InfoQueue %s clear, agents from elsewhere' % kw, qt.InfoQueue, 4 + e, 2 + e, [('give', 'half', NEWS), ('give', 0)], (1, 3), (4,), 2, num_servers=2, net_size=2, **kw))
    return out
