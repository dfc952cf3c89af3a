"""Controlled environment for queue networks.

Every edge gets its own edge type, so that every arrival, service and agent factory knows its queue.
The record of a run is a list of NOp; everything in it comes from public seams: the functions and
factories handed to the network, the notification hooks of agents, and the public observers.
"""
import collections
import functools

import networkx as nx
import numpy as np

import queueing_tool as qt
from mc import build
from mc.explore import FREE, DEV, Violation
from mc.qsim import INF, Snap, Cur, fmt, known

NSnap = collections.namedtuple('NSnap', 'now time next events agents queues')
NOp = collections.namedtuple('NOp', 'name args pre post calls ret')
Q = collections.namedtuple('Q', 'edge cls gaps services kw agent')
Q.__new__.__defaults__ = (qt.QueueServer, None, (3,), {}, None)


def qsnap(q):
    return Snap(float(q.time), float(q.current_time), int(q.next_event_description()), tuple(q.num_arrivals),
                q.num_departures, q.num_system, q.number_queued(), bool(q.active), bool(q.at_capacity()),
                q.num_servers, getattr(q, 'num_blocked', None), getattr(q, 'over_max', None), known(q))


def nsnap(net):
    return NSnap(float(net.current_time), float(net.time), tuple(net.next_event_description()), net.num_events,
                 tuple(int(x) for x in net.num_agents), tuple(qsnap(q) for q in net.edge2queue))


class NTimes(object):
    """Tie-free durations: `scale` times the alphabet's number plus 2**(8-i) for answer i.

    Sums of distinct subsets differ by at least 2**-20, more than the delays that blocking adds."""

    def __init__(self, ctx, ties=False, kind=FREE, limit=28):
        self.ctx, self.ties, self.kind, self.limit, self.n = ctx, ties, kind, limit, 0

    def draw(self, alphabet):
        d = self.ctx.pick(alphabet, self.kind)
        if d == INF:
            return d
        if self.ties:
            return float(d)
        d = 1024.0 * d + 2.0 ** (8 - self.n)
        self.n += 1
        if self.n > self.limit:
            raise Violation('harness: too many answers', key='harness')
        return d


class NStream(object):
    """Answers per stream and position, so that two networks can see the same environment."""

    def __init__(self, cached, pos=None):
        self.cached, self.pos = cached, collections.Counter(pos or {})

    def __call__(self, name, alphabet):
        k = (name, self.pos[name])
        self.pos[name] += 1
        tab = self.cached.tab
        if k not in tab:
            tab[k] = self.cached.times.draw(alphabet)
        return tab[k]


class NCached(object):
    def __init__(self, times):
        self.times, self.tab = times, {}

    def stream(self, pos=None):
        return NStream(self, pos)


def _arr(k, t):
    return Cur.env.arrival_f(k, t)


def _ser(k, t):
    return Cur.env.service_f(k, t)


def _fac(k, *args):
    return Cur.env.factory(k, *args)


def rec_class(base):
    class Rec(base):
        sid = None

        def queue_action(self, queue, *args, **kwargs):
            Cur.env.calls.append(('act', self.sid, args[0] if args else None, queue.edge[2], float(queue.current_time)))
            r = base.queue_action(self, queue, *args, **kwargs)
            Cur.env.after_action(self, queue, args[0] if args else None)
            return r

        def add_loss(self, *args, **kwargs):
            Cur.env.calls.append(('loss', self.sid, args[0][2] if args and args[0] is not None else None))
            return base.add_loss(self, *args, **kwargs)

        def desired_destination(self, network, edge):
            env = Cur.env
            if env.route == 'real':
                d = base.desired_destination(self, network, edge)
            else:
                outs = env.outs[edge[1]]
                d = outs[env.pick_route(self, edge, len(outs))]
            env.calls.append(('dest', self.sid, edge[2], int(d)))
            return d
    Rec.__name__ = 'Rec' + base.__name__
    return Rec


_REC = {}


def rec(base):
    if base not in _REC:
        _REC[base] = rec_class(base)
    return _REC[base]


def default_agent(cls):
    return getattr(qt, {'ResourceQueue': 'ResourceAgent', 'InfoQueue': 'InfoAgent'}.get(cls.__name__, 'Agent'))


class NEnv(object):
    """A network under control.  `queues` is a list of Q; exits are edges (u, v) listed in `exits`."""

    def __init__(self, ctx, queues, exits=(), ties=False, times=None, draw=None, route='script', route_kind=FREE, order=None,
                 collect=False, build_kw=None, setter=None, hook=True, edge_order=None, pos=None, wrapper=False, **net_kw):
        self.ctx, self.route, self.route_kind = ctx, route, route_kind
        self.calls, self.ops, self.agents = [], [], {}
        self.after = None
        self.unit = None
        Cur.env = self
        g = qt.QueueNetworkDiGraph() if wrapper else nx.DiGraph()
        spec = {q.edge: q for q in queues}
        self.types = {q.edge: 1 + i for i, q in enumerate(queues)}
        edges = list(spec) + list(exits)
        verts = sorted({v for e in edges for v in e})
        for v in (order or verts):
            g.add_node(v, pos=pos(v) if pos else (float(v), float(v * v % 7)))
        q_cl, q_ar = {}, {}
        for e, t in self.types.items():
            q = spec[e]
            q_cl[t] = q.cls
            q_ar[t] = dict(q.kw, arrival_f=functools.partial(_arr, t), service_f=functools.partial(_ser, t),
                           AgentFactory=functools.partial(_fac, t))
            if collect:
                q_ar[t]['collect_data'] = True
            if q.cls is qt.InfoQueue:
                q_ar[t]['net_size'] = len(edges)
        q_ar[0] = {'collect_data': True} if collect else {}
        inserted = [edges[i] for i in edge_order] if edge_order else edges
        for e in inserted:
            g.add_edge(*e, edge_type=self.types.get(e, 0))
        self.spec = {self.types[e]: q for e, q in spec.items()}
        # the graph as it was described: independent of what the network makes of it
        self.edge_list = inserted if wrapper else sorted(edges)
        self.index = {e: i for i, e in enumerate(self.edge_list)}
        self.type_at = [self.types.get(e, 0) for e in self.edge_list]
        self.outs = {v: [self.index[e] for e in sorted(edges) if e[0] == v] for v in verts}
        self.spec_at = [self.spec.get(t) for t in self.type_at]
        self.edge_of = {t: self.index[e] for e, t in self.types.items()}
        if draw is None:
            tm = times or NTimes(ctx, ties)
            draw = lambda name, alphabet: tm.draw(alphabet)
        self.draw = draw
        if hook:
            build.HOOK.handler = self.randomness
        if wrapper:
            net_kw = dict(net_kw, adjust_graph=False)
        self.net = qt.QueueNetwork(g, q_classes=q_cl, q_args=q_ar, **net_kw)
        if setter:
            self.net.blocking = setter
        self.blocking = (setter or net_kw.get('blocking', 'BAS')).upper()
        if self.net.blocking != self.blocking:
            raise Violation('blocking is %r instead of %r' % (self.net.blocking, self.blocking))
        self.max_agents = net_kw.get('max_agents', 1000)
        self.nE = len(edges)
        self.info = any(q.cls is qt.InfoQueue for q in queues)
        self.check_layout()
        self.first = nsnap(self.net)

    def check_layout(self):
        for i, q in enumerate(self.net.edge2queue):
            if tuple(q.edge) != self.edge_list[i] + (i, self.type_at[i]):
                raise Violation('queue %d sits on %s, the edge is %s' % (i, q.edge, self.edge_list[i] + (i, self.type_at[i])), 'layout')

    def randomness(self, name, real, args, kwargs):
        if name == 'uniform' and len(args) >= 2:
            return args[0] + 0.5 * (args[1] - args[0])      # the tiny delays of blocking after service
        if self.unit is not None and name in ('uniform', 'random', 'random_sample', 'rand') and not args and not kwargs:
            return self.unit()
        return real(*args, **kwargs)

    def pick_route(self, agent, edge, n):
        if n == 1:
            return 0
        return self.draw_route(agent, edge, n)

    def draw_route(self, agent, edge, n):
        return self.ctx.choose(n, self.route_kind)

    def after_action(self, agent, queue, kind):
        if self.after is not None:
            self.after(agent, queue, kind)

    # seams
    def arrival_f(self, t, now):
        d = self.draw(('A', t), self.spec[t].gaps)
        self.calls.append(('A', self.edge_of[t], float(now), float(now + d)))
        return now + d

    def service_f(self, t, now):
        d = self.draw(('S', t), self.spec[t].services)
        self.calls.append(('S', self.edge_of[t], float(now), float(now + d)))
        return now + d

    def factory(self, t, aid, *rest):
        q = self.spec[t]
        a = rec(q.agent or default_agent(q.cls))(aid, *rest)
        a.sid = len(self.agents)
        self.agents[a.sid] = a
        self.calls.append(('new', a.sid, aid, self.edge_of[t]))
        return a

    def op(self, name, *args, **kw):
        Cur.env = self
        pre = self.ops[-1].post if self.ops else nsnap(self.net)
        self.calls = []
        ret = getattr(self.net, name)(*args, **kw)
        post = nsnap(self.net)
        o = NOp(name, args + tuple(sorted(kw.items())), pre, post, self.calls, None)
        self.ops.append(o)
        self.calls = []
        self.ctx.step()
        self.ctx.note(name, *(list(o.args) + ['->', fmt(o.calls), 'now', post.now, 'next', post.time, post.next, 'agents', post.agents]))
        return o

    def sim(self):
        return self.op('simulate', n=1)

    def servers(self, e, n):
        """Sets the number of servers of queue `e` between two events."""
        Cur.env = self
        pre = self.ops[-1].post if self.ops else nsnap(self.net)
        self.calls = []
        self.net.edge2queue[e].set_num_servers(n)
        self.ops.append(NOp('servers', (e, n), pre, nsnap(self.net), self.calls, None))
        self.calls = []
        self.ctx.step()
        self.ctx.note('set_num_servers of queue', e, n)

    def named(self, calls):
        out = []
        for c in calls:
            if c[0] in ('act', 'loss', 'new', 'dest'):
                a = self.agents.get(c[1])
                out.append((c[0], getattr(a, 'agent_id', None)) + tuple(c[2:]))
            else:
                out.append(c)
        return tuple(out)

    def record(self):
        return [(o.name, o.args, o.post, self.named(o.calls)) for o in self.ops]


# ---------------------------------------------------------------- tracker
Move = collections.namedtuple('Move', 'sid src dst blocked now')
NDelta = collections.namedtuple('NDelta', 'op kind edge moves arrived lost created started served_out bad before after')


class World(object):
    """Who is where, according to the seams alone."""

    def __init__(self, n):
        self.pending = [dict() for _ in range(n)]       # sid -> time (from outside)
        self.line = [list() for _ in range(n)]
        self.serving = [dict() for _ in range(n)]       # sid -> time, or ('~', t): just after t
        self.gone, self.lost, self.returned = set(), set(), set()

    def copy(self):
        w = World(0)
        w.pending = [dict(d) for d in self.pending]
        w.line = [list(x) for x in self.line]
        w.serving = [dict(d) for d in self.serving]
        w.gone, w.lost, w.returned = set(self.gone), set(self.lost), set(self.returned)
        return w

    def where(self, sid):
        out = []
        for k, name in ((self.pending, 'scheduled'), (self.line, 'waiting'), (self.serving, 'in service')):
            for e, d in enumerate(k):
                if sid in d:
                    out.append((name, e))
        for k, name in ((self.gone, 'left'), (self.lost, 'lost'), (self.returned, 'returned')):
            if sid in k:
                out.append((name, None))
        return out

    def system(self, e):
        return len(self.line[e]) + len(self.serving[e])

    def total(self):
        return sum(len(d) for d in self.pending) + sum(len(d) for d in self.line) + sum(len(d) for d in self.serving)

    def schedule(self):
        """(time, exact?, kind, edge, sid) of everything scheduled; time of a blocked agent is the departure it waits for."""
        out = []
        for e, d in enumerate(self.pending):
            out += [(t, True, 'Arrival', e, s) for s, t in d.items()]
        for e, d in enumerate(self.serving):
            out += [(t, True, 'Departure', e, s) if not isinstance(t, tuple) else (t[1], False, 'Departure', e, s) for s, t in d.items()]
        return out

    def show(self):
        return 'scheduled %s waiting %s in service %s left %s lost %s' % (
            self.pending, self.line, self.serving, sorted(self.gone), sorted(self.lost))

    def key(self):
        return (tuple(tuple(sorted(d)) for d in self.pending), tuple(map(tuple, self.line)), tuple(tuple(sorted(d)) for d in self.serving))


def base_time(t):
    return t[1] if isinstance(t, tuple) else t


def ntrack(env):
    """Reconstructs the world around every operation that is a single step (initialize, simulate(n=1))."""
    w = World(env.nE)
    exits = {i for i, t in enumerate(env.type_at) if t == 0}
    out = []
    for o in env.ops:
        before = w.copy()
        bad = None
        moves, arrived, lost, created, started, served_out = [], [], [], [], [], []
        pend_dest = None
        arrf = collections.defaultdict(list)
        serf = collections.defaultdict(list)
        kind = edge = None
        begun = []
        calls = o.calls
        for i, c in enumerate(calls):
            if c[0] == 'A':
                arrf[c[1]].append((c[2], c[3]))
            elif c[0] == 'S':
                serf[c[1]].append((c[2], c[3]))
            elif c[0] == 'new':
                if not arrf[c[3]]:
                    bad = bad or 'agent created without asking the arrival function'
                else:
                    t, r = arrf[c[3]].pop(0)
                    w.pending[c[3]][c[1]] = r
                    created.append((c[1], c[3], t, r, c[2]))
            elif c[0] == 'dest':
                if pend_dest is not None:
                    moves.append(Move(pend_dest[1], pend_dest[2], pend_dest[3], True, o.post.now))
                pend_dest = c
                kind, edge = 'Departure', c[2]
            elif c[0] == 'act':
                _, s, k, e, now = c
                if k == 2:
                    served_out.append((s, e, now))
                    if s not in w.serving[e]:
                        bad = bad or 'departure of agent %s who is not in service at queue %s' % (s, e)
                    w.serving[e].pop(s, None)
                    if pend_dest is None or pend_dest[1] != s:
                        bad = bad or 'agent %s departed without choosing a destination' % s
                        continue
                    moves.append(Move(s, e, pend_dest[3], False, now))
                    if pend_dest[3] in exits:
                        w.gone.add(s)
                    pend_dest = None
                elif k == 0:
                    arrived.append((s, e, now))
                    if s in w.pending[e]:
                        if kind is None:
                            kind, edge = 'Arrival', e
                        w.pending[e].pop(s)
                    w.line[e].append(s)
                elif k == 1:
                    begun.append((s, e, now))
            elif c[0] == 'loss':
                lost.append((c[1], c[2], o.post.now))
                if c[2] is not None:
                    if c[1] in w.pending[c[2]]:
                        if kind is None:
                            kind, edge = 'Arrival', c[2]
                        w.pending[c[2]].pop(c[1])
                w.lost.add(c[1])
        if pend_dest is not None:       # an attempt that did not succeed
            c = pend_dest
            moves.append(Move(c[1], c[2], c[3], True, o.post.now))
            if env.blocking == 'RS':
                if serf[c[2]]:
                    w.serving[c[2]][c[1]] = serf[c[2]].pop(0)[1]
                else:
                    bad = bad or 'repetitive service without a new service'
            else:
                t = min([base_time(x) for x in w.serving[c[3]].values()] or [INF])
                w.serving[c[2]][c[1]] = ('~', t)
        for s, e, now in begun:
            if not serf[e]:
                bad = bad or 'service begun at queue %s without a service time' % e
                continue
            t, r = serf[e].pop(0)
            started.append((s, e, t, r))
            if s in w.line[e]:
                w.line[e].remove(s)
            else:
                bad = bad or 'service begun at queue %s for agent %s who is not waiting there' % (e, s)
            w.serving[e][s] = r
        # agents that moved to a queue but never arrived there stay nowhere: found by the conservation monitor
        for m in moves:
            if not m.blocked and not w.where(m.sid) and isinstance(env.agents[m.sid], qt.ResourceAgent) \
                    and env.spec_at[m.dst] is not None and issubclass(env.spec_at[m.dst].cls, qt.ResourceQueue):
                w.returned.add(m.sid)
        out.append(NDelta(o, kind, edge, moves, arrived, lost, created, started, served_out, bad, before, w.copy()))
    return out


def nfail(d, msg, key=None):
    o = d.op
    raise Violation('%s\nat %s%s calls=%s\n  before: %s\n  after:  %s\n  network before %s\n  network after  %s' % (
        msg, o.name, o.args, fmt(o.calls), d.before.show(), d.after.show(), o.pre, o.post), key)
