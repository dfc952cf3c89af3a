"""Controlled environment for single queues: recording agents, owned arrival and service times.

A run of a queue is a list of `Op` records.  Everything in a record comes from public seams: the
arrival, service and agent factories handed to the constructor, the notification hooks of agents,
and the public observers of the queue.
"""
import collections

import queueing_tool as qt
from mc.explore import FREE, DEV, Violation

INF = float('inf')

Snap = collections.namedtuple('Snap', 'time now kind arrivals departures system queued active full servers blocked over known')
Op = collections.namedtuple('Op', 'name args pre post calls ret')


def snap(q):
    return Snap(float(q.time), float(q.current_time), int(q.next_event_description()), tuple(q.num_arrivals),
                q.num_departures, q.num_system, q.number_queued(), bool(q.active), bool(q.at_capacity()),
                q.num_servers, getattr(q, 'num_blocked', None), getattr(q, 'over_max', None), known(q))


def known(q):
    """What an information queue holds about the network."""
    t = getattr(q, 'net_data', None)
    return None if t is None else tuple(tuple(float(x) for x in r) for r in t)


class Cur(object):
    env = None          # the environment that agents report to


def rec_class(base):
    """`base` with every notification reported to the current environment."""
    class Rec(base):
        sid = None

        def queue_action(self, queue, *args, **kwargs):
            Cur.env.calls.append(('act', self.sid, args[0] if args else None, queue.edge[2], queue.current_time))
            return base.queue_action(self, queue, *args, **kwargs)

        def add_loss(self, *args, **kwargs):
            Cur.env.calls.append(('loss', self.sid, args[0][2] if args and args[0] is not None else None))
            return base.add_loss(self, *args, **kwargs)
    Rec.__name__ = 'Rec' + base.__name__
    return Rec


_REC = {}


def rec(base):
    if base not in _REC:
        _REC[base] = rec_class(base)
    return _REC[base]


class Times(object):
    """Durations chosen by the explorer; tie-free unless `ties`.

    Answer number i adds 2**-(6+i): sums of distinct subsets differ, so no two events coincide."""

    def __init__(self, ctx, ties=False, kind=FREE):
        self.ctx, self.ties, self.kind, self.n = ctx, ties, kind, 0

    def draw(self, alphabet):
        d = self.ctx.pick(alphabet, self.kind)
        if not self.ties and d != INF:
            d = d + 2.0 ** -(6 + self.n)
            self.n += 1
            if self.n > 40:
                raise Violation('harness: too many answers', key='harness')
        return d


class Cached(object):
    """Durations fixed per (stream, position), so that two runs see the same environment."""

    def __init__(self, times, alphabets):
        self.times, self.alphabets, self.tab = times, alphabets, {}

    def stream(self, pos=None):
        return Stream(self, pos)


class Stream(object):
    def __init__(self, cached, pos=None):
        self.cached, self.pos = cached, collections.Counter(pos or {})

    def __call__(self, name):
        k = (name, self.pos[name])
        self.pos[name] += 1
        tab = self.cached.tab
        if k not in tab:
            tab[k] = self.cached.times.draw(self.cached.alphabets[name])
        return tab[k]


# Plain functions, so that copying a queue does not copy the harness.
def _arrival_f(t):
    return Cur.env.arrival_f(t)


def _service_f(t):
    return Cur.env.service_f(t)


def _factory(*args):
    return Cur.env.factory(*args)


class QEnv(object):
    """One queue under control."""

    def __init__(self, ctx, cls=None, agent=None, gaps=(1, 3), services=(2, 5), ties=False, draw=None, times=None, edge=None, **kw):
        self.ctx = ctx
        self.calls = []
        self.ops = []
        self.agents = {}
        self.kw = dict(kw)
        cls = cls or qt.QueueServer
        agent = agent or getattr(qt, {'ResourceQueue': 'ResourceAgent', 'InfoQueue': 'InfoAgent'}.get(cls.__name__, 'Agent'))
        self.agent_class = rec(agent)
        self.alphabets = {'A': gaps, 'S': services}
        if draw is None:
            times = times or Times(ctx, ties)
            draw = lambda name: times.draw(self.alphabets[name])
        self.draw = draw
        self.cap = kw.get('active_cap', INF)
        self.deact = kw.get('deactive_t', INF)
        Cur.env = self
        if edge is not None:
            kw['edge'] = edge
        self.edge = edge or (0, 0, 0, 1)
        self.q = cls(arrival_f=_arrival_f, service_f=_service_f, AgentFactory=_factory, **kw)
        self.first = snap(self.q)

    def twin(self, q, draw):
        """An environment for a copy of this queue."""
        e = object.__new__(QEnv)
        e.__dict__.update(self.__dict__)
        e.q, e.draw, e.calls, e.ops, e.agents = q, draw, [], [], dict(self.agents)
        return e

    def restart(self, draw):
        """Forgets the past (after the queue was cleared)."""
        self.calls, self.ops, self.agents, self.draw = [], [], {}, draw

    def record(self):
        """What an observer saw, agents named by their ids."""
        def name(c):
            if c[0] in ('act', 'loss', 'new'):
                a = self.agents.get(c[1])
                return (c[0], getattr(a, 'agent_id', None)) + tuple(c[2:])
            return c
        return [(o.name, o.args, o.post, tuple(name(c) for c in o.calls)) for o in self.ops]

    # seams
    def arrival_f(self, t):
        d = self.draw('A')
        self.calls.append(('A', t, t + d))
        return t + d

    def service_f(self, t):
        d = self.draw('S')
        self.calls.append(('S', t, t + d))
        return t + d

    def factory(self, aid, *rest):
        a = self.agent_class(aid, *rest)
        a.sid = len(self.agents)
        self.agents[a.sid] = a
        self.calls.append(('new', a.sid, aid))
        return a

    # operations
    def op(self, name, *args, **kw):
        Cur.env = self
        pre = snap(self.q)
        self.calls = []
        ret = getattr(self.q, name)(*args, **kw)
        post = snap(self.q)
        if ret is not None:
            ret = getattr(ret, 'sid', ret)
        o = Op(name, args + tuple(sorted(kw.items())), pre, post, self.calls, ret)
        self.ops.append(o)
        self.calls = []
        self.ctx.step()
        self.ctx.note(name, *(list(o.args) + ['->', fmt(o.calls), 'next', post.time, 'kind', post.kind, 'system', post.system, 'queued', post.queued]))
        return o

    def sim(self):
        return self.op('simulate', n=1)

    def give(self, when, news=None):
        """Hands over an agent from elsewhere, the way a network does: it arrives at once.

        `when` is 0 (now), 'half' (half way to the next event) or 'tie' (at the time of the next event)."""
        q = self.q
        if not hasattr(q, '_add_arrival'):      # the one non-public name used here: without it agents cannot be handed over
            return self.sim()
        now, nxt = float(q.current_time), float(q.time)
        if nxt == INF:
            t = now + (0.0 if when == 0 else 0.5)
        else:
            t = {0: now, 'half': (now + nxt) / 2, 'tie': nxt}[when]
        size = (len(q.net_data),) if isinstance(q, qt.InfoQueue) else ()
        a = self.agent_class((99, len(self.agents)), *size)
        a.sid = len(self.agents)
        self.agents[a.sid] = a
        Cur.env = self
        if news == 'resource':          # taken from another resource queue
            donor = qt.ResourceQueue(num_servers=1, service_f=lambda t: t, edge=(7, 7, 7, 1))
            a._time = now
            donor._add_arrival(a)
            donor.next_event()
            donor.next_event()
        elif news is not None:
            a.net_data[:] = news
        a._time = t
        pre = snap(q)
        self.calls = []
        q._add_arrival(a)
        q.next_event()
        o = Op('give', (when, a.sid, news), pre, snap(q), self.calls, None)
        self.ops.append(o)
        self.calls = []
        self.ctx.step()
        self.ctx.note('give', when, '->', fmt(o.calls), 'next', o.post.time, 'system', o.post.system)
        return o


def fmt(calls):
    return '[' + ' '.join('%s(%s)' % (c[0], ','.join(str(x) for x in c[1:])) for c in calls) + ']'


Delta = collections.namedtuple('Delta', 'op created arrived started departed lost bad pending line serving '
                                        'pending0 line0 serving0')


def track(ops, edge_index=0):
    """Derives, from the seams alone, who is scheduled, waiting and in service around every operation."""
    pending, line, serving = {}, [], {}
    out = []
    for o in ops:
        p0, l0, s0 = dict(pending), list(line), dict(serving)
        bad = None
        arrf = [c for c in o.calls if c[0] == 'A']
        serf = [c for c in o.calls if c[0] == 'S']
        news = [c for c in o.calls if c[0] == 'new']
        acts = [c for c in o.calls if c[0] == 'act']
        created = []
        if len(news) > len(arrf):
            bad = 'agent created without asking the arrival function'
        for a, c in zip(arrf, news):
            created.append((c[1], c[2], a[2]))
            pending[c[1]] = a[2]
        arrived = [c[1] for c in acts if c[2] == 0]
        begun = [c[1] for c in acts if c[2] == 1]
        departed = [c[1] for c in acts if c[2] == 2]
        lost = [c[1] for c in o.calls if c[0] == 'loss']
        started = []
        if o.name != 'delay_service':
            if len(serf) != len(begun):
                bad = bad or '%d service times drawn for %d services begun' % (len(serf), len(begun))
            started = [(b, s[1], s[2]) for b, s in zip(begun, serf)]
        elif begun:
            bad = bad or 'a delay began a service'
        for a in arrived:
            pending.pop(a, None)
            line.append(a)
        for a in lost:
            pending.pop(a, None)
        for a, t, r in started:
            if a in line:
                line.remove(a)
            else:
                bad = bad or 'service begun for agent %s who is not waiting' % a
            serving[a] = r
        for a in departed:
            if a not in serving:
                bad = bad or 'departure of agent %s who is not in service' % a
            serving.pop(a, None)
        if o.name == 'delay_service' and s0:
            # the next departure moves: to the time given, or by one further service drawn at its time
            nxt = min(s0, key=lambda k: s0[k])
            if o.args and o.args[0] is not None:
                serving[nxt] = o.args[0]
            elif serf:
                serving[nxt] = serf[-1][2]
        out.append(Delta(o, created, arrived, started, departed, lost, bad, dict(pending), list(line), dict(serving), p0, l0, s0))
    return out


def show(d):
    o = d.op
    return '%s%s calls=%s\n  before: scheduled=%s waiting=%s in service=%s %s\n  after:  scheduled=%s waiting=%s in service=%s %s' % (
        o.name, o.args, fmt(o.calls), d.pending0, d.line0, d.serving0, o.pre, d.pending, d.line, d.serving, o.post)


def fail(d, msg, key=None):
    raise Violation('%s\nat %s' % (msg, show(d)), key)
