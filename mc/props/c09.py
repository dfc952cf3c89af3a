"""C09: the information carried through a network is true and never gets staler."""
import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, nsim, nscen
from mc.nsim import Q, INF, nsnap
from mc.nscen import QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations and destinations come from small alphabets; every destination choice is explored',
               'the load of a queue is the number of agents in it divided by its number of servers']


def table(x):
    return [tuple(float(v) for v in r) for r in x.net_data]


UNKNOWN = (-1.0, -1.0, -1.0)


class Truth(object):
    """Everything the queues really were, sampled at every notification and after every operation."""

    def __init__(self, env):
        self.env, self.seen = env, [set() for _ in range(env.nE)]
        self.holders = {}
        self.at_action = {}
        self.settled = {}
        self.queues = list(env.net.edge2queue)

    def sample(self, now=None):
        for e, q in enumerate(self.queues):
            n = float(q.num_servers)
            if n:
                self.seen[e].add((float(q.current_time), n, q.num_system / n))

    def bad(self, msg):
        raise Violation(msg)

    def hold(self, name, x, now):
        """Judges the table of a queue or an agent against the truth and against what it held before."""
        t = table(x)
        old = self.holders.get(name)
        if len(t) != self.env.nE:
            self.bad('%s holds %d records, the network has %d queues' % (name, len(t), self.env.nE))
        for e, r in enumerate(t):
            if r == UNKNOWN:
                if old is not None and old[e] != UNKNOWN:
                    self.bad('%s forgot %s about queue %d' % (name, old[e], e))
                continue
            if r not in self.seen[e]:
                self.bad('%s holds %s (time, servers, load) about queue %d; it really was %s' % (name, r, e, sorted(self.seen[e])[-6:]))
            if r[0] > now:
                self.bad('at %r, %s holds a record of the future about queue %d: %s' % (now, name, e, r))
            if old is not None and r[0] < old[e][0]:
                self.bad('%s replaced %s about queue %d by the older %s' % (name, old[e], e, r))
        self.holders[name] = t
        return t

    def after(self, agent, queue, kind):
        now = float(queue.current_time)
        self.sample()
        prev = self.holders.get(('agent', agent.sid)) if isinstance(agent, qt.InfoAgent) else None
        qprev = self.holders.get(('queue', queue.edge[2])) if isinstance(queue, qt.InfoQueue) else None
        if isinstance(agent, qt.InfoAgent):
            t = self.hold(('agent', agent.sid), agent, now)
            b = [float(x) for x in agent.get_beliefs()]
            if b != [r[2] for r in t]:
                self.bad('the beliefs of agent %s are %s, its records %s' % (agent.sid, b, t))
            if isinstance(queue, qt.InfoQueue):
                qt_ = self.hold(('queue', queue.edge[2]), queue, now)
                if kind == 0:
                    for e in range(self.env.nE):
                        if prev is not None and qt_[e][0] < prev[e][0]:
                            self.bad('agent %s arrived at queue %d knowing %s about queue %d, the queue knows %s' % (agent.sid, queue.edge[2], prev[e], e, qt_[e]))
                if kind == 2:
                    me = queue.edge[2]
                    for e in range(self.env.nE):
                        if t[e][0] < qt_[e][0]:
                            self.bad('agent %s departed from queue %d knowing %s about queue %d, the queue knows %s' % (agent.sid, me, t[e], e, qt_[e]))
                    own = (now, float(queue.num_servers), queue.num_system / float(queue.num_servers))
                    if t[me] != own:
                        self.bad('agent %s departed from queue %d knowing %s about it, it is %s' % (agent.sid, me, t[me], own))

    def settle(self, now):
        self.sample()
        calls = self.env.ops[-1].calls if self.env.ops else []
        came = {c[3] for c in calls if c[0] == 'act' and c[2] == 0} | {c[2] for c in calls if c[0] == 'loss'}
        acted = {c[1] for c in calls if c[0] in ('act', 'loss')}
        for e, q in enumerate(self.queues):
            if isinstance(q, qt.InfoQueue):
                t = self.hold(('queue', e), q, now)
                if t != self.settled.get(('queue', e), t) and e not in came:
                    self.bad('queue %d learned something although nobody arrived there: %s -> %s' % (e, self.settled[('queue', e)], t))
                self.settled[('queue', e)] = t
        for s, a in self.env.agents.items():
            if isinstance(a, qt.InfoAgent):
                t = self.hold(('agent', s), a, now)
                if t != self.settled.get(('agent', s), t) and s not in acted:
                    self.bad('agent %d learned something although it was not served anywhere: %s -> %s' % (s, self.settled[('agent', s)], t))
                self.settled[('agent', s)] = t

    def key(self):
        return tuple(sorted((str(k), str(v)) for k, v in self.holders.items()))


def net(name, queues, exits, steps, menu=(), bound=0, start=None, **kw):
    def run(ctx):
        env = nsim.NEnv(ctx, queues, exits, **kw)
        tr = Truth(env)
        env.after = tr.after
        tr.settle(0.0)
        env.op('initialize', queues=start or list(range(len(queues))))
        tr.settle(float(env.net.current_time))
        for _ in range(steps):
            k = ctx.choose(1 + len(menu), DEV) if menu else 0
            if k == 0:
                env.sim()
            else:
                m = menu[k - 1]
                if m[0] == 'servers':
                    env.net.edge2queue[m[1]].set_num_servers(m[2])
                    env.ops.append(nsim.NOp('servers', m[1:], nsnap(env.net), nsnap(env.net), env.calls, None))
                    env.calls = []
                else:
                    env.op(m[0], **dict(m[1]))
            tr.settle(float(env.net.current_time))
            ctx.state(tr.key())
        return tr.key()
    return Scenario(name, run, bound)


def observed(env):
    tr = Truth(env)
    env.after = tr.after
    tr.settle(0.0)

    def settle(env):
        tr.settle(float(env.net.current_time))
        env.ctx.state(tr.key())
    return settle


class Info3(qt.InfoAgent):
    """An information agent made by a queue that does not know the size of the network."""

    def __init__(self, aid, *rest):
        qt.InfoAgent.__init__(self, aid, 3)


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = []
    for b in ('BAS', 'RS'):
        for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
            qs, ex = top(IQ, IQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,))
            s.append(net('%s %s' % (nm, b), qs, ex, 9 + th, blocking=b))
            qs, ex = top(IQ, IQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1, 'num_servers': 2}, k2={'qbuffer': 0})
            s.append(net('%s finite %s' % (nm, b), qs, ex, 10 + th, blocking=b))
            qs, ex = top(QS, IQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k2={'num_servers': 2})
            qs = [q if q.cls is IQ else q._replace(agent=Info3) for q in qs]
            s.append(net('%s through a plain queue %s' % (nm, b), qs, ex, 9 + th, blocking=b))
            qs, ex = top(IQ, IQ, s1=(1, 2), s2=(2,), g1=(1, 2), g2=(2,))
            s.append(net('%s ties %s' % (nm, b), qs, ex, 8 + th, blocking=b, ties=True))
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        qs, ex = top(IQ, IQ, s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(0,), k1={'active_cap': 3}, k2={'active_cap': 1})
        s.append(net('nothing takes time, %s' % nm, qs, ex, 8 + th, ties=True))
        qs, ex = top(IQ, IQ, s1=(0, 1), s2=(0, 1), g1=(0,), g2=(0,), k1={'active_cap': 3, 'num_servers': 2}, k2={'active_cap': 2, 'num_servers': 3})
        s.append(net('nothing takes time, %s, from the second' % nm, qs, ex, 8 + th, ties=True, start=[1]))
    qs, ex = nscen.merge(IQ, IQ, IQ, s1=(1, 4), s2=(2,), s3=(3,), g1=(2,), g2=(3,), g3=(5, 20), k3={'qbuffer': 1})
    s.append(net('merge', qs, ex, 11 + th))
    qs, ex = nscen.fork(IQ, IQ, LQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k2={'qbuffer': 1}, k3={'qbuffer': 0})
    s.append(net('fork', qs, ex, 9 + th))
    # agents overtake each other between two information queues
    qs = [Q((0, 1), IQ, (1, 2), (1,), {'active_cap': 4}), Q((1, 2), QS, (9,), (1, 6), {'num_servers': 3}), Q((2, 3), IQ, (9,), (1, 3), {'num_servers': 2})]
    s.append(net('overtaking', qs, [(3, 4)], 13 + th, start=[0]))
    qs, ex = nscen.cycle(IQ, IQ, s1=(1,), s2=(2, 5), g1=(1, 4), g2=(3,), k1={'num_servers': 2, 'active_cap': 3}, k2={'num_servers': 2})
    s.append(net('overtaking in a cycle', qs, ex, 10 + th, start=[0]))
    for n in (1, 2):
        qs = [Q((0, 1), IQ, (1, 3), (1,), {'num_servers': n, 'active_cap': 2}), Q((1, 0), IQ, (5,), (2, 4), {'num_servers': n})]
        s.append(net('nobody leaves, %d servers' % n, qs, [], 12 + th, start=[0]))
    qs, ex = nscen.loop(IQ, IQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'num_servers': 2}, k2={'num_servers': 2})
    s.append(net('servers change', qs, ex, 7 + th, bound=2, menu=[('servers', 1, 1), ('servers', 1, 3), ('servers', 0, 1)]))
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        qs, ex = top(IQ, IQ, s1=(1, 3), s2=(5,), g1=(1,), g2=(2, 9), k1={'num_servers': 3, 'qbuffer': 0}, k2={'num_servers': 3, 'qbuffer': 1})
        s.append(net('servers change at finite queues, %s' % nm, qs, ex, 8 + th, bound=1, menu=[('servers', 1, 1), ('servers', 0, 1), ('servers', 1, 4)]))
    s += deep.networks(None, tier, ('information',), after=observed, steps=120, menu=[('servers', 1, 1), ('servers', 2, 4), ('servers', 6, 2)])
    qs, ex = nscen.cycle(IQ, IQ, s1=(1, 3), s2=(2,), g1=(1,), g2=(3,))
    s.append(net('collecting data', qs, ex, 8 + th, collect=True))
    return s
