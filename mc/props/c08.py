"""C08: resources at resource queues are neither created nor destroyed."""
import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, nsim, nscen, qscen
from mc.nsim import Q, INF, nfail
from mc.nscen import QS, LQ, IQ, RQ, scen
from mc.qsim import fail

ASSUMPTIONS = ['durations and destinations come from small alphabets; every destination choice is explored',
               'an agent carrying a resource is refused at a full resource queue like any other agent moving inside the network (C14)']


def c08(env, ds):
    rq = {e for e in range(env.nE) if env.spec_at[e] is not None and issubclass(env.spec_at[e].cls, RQ)}
    servers = {e: env.first.queues[e].servers for e in rq}
    total = sum(servers.values())
    carrying = set()
    cap = {e: env.spec_at[e].kw.get('active_cap', INF) for e in rq}
    made = {e: 0 for e in rq}
    most = {e: 2 * n for e, n in servers.items()}
    over = {e: 0 for e in rq}
    for d in ds:
        o = d.op
        if d.bad:
            nfail(d, d.bad)
        for c in d.created:
            if c[1] in made:
                made[c[1]] += 1
        for s, e, now in d.served_out:
            if e in rq and isinstance(env.agents[s], qt.ResourceAgent) and s not in carrying and servers[e] > 0:
                servers[e] -= 1
                carrying.add(s)
        for m in d.moves:
            if m.blocked or m.dst not in rq:
                continue
            if m.sid in carrying:
                carrying.discard(m.sid)
                over[m.dst] += servers[m.dst] >= most[m.dst]
                servers[m.dst] += 1
                if m.sid in d.after.line[m.dst] or m.sid in d.after.serving[m.dst] or any(a[0] == m.sid for a in d.arrived):
                    nfail(d, 'agent %s brought a resource to queue %d and stayed' % (m.sid, m.dst))
                if m.sid in d.after.pending[m.dst] or o.post.agents[m.dst] != len(d.after.pending[m.dst]) + d.after.system(m.dst):
                    nfail(d, 'agent %s brought a resource to queue %d and is still counted there: %s' % (m.sid, m.dst, o.post.agents))
            elif not any(a[0] == m.sid and a[1] == m.dst for a in d.arrived):
                nfail(d, 'agent %s moved to queue %d without a resource and did not arrive there' % (m.sid, m.dst))
        for e in rq:
            if o.post.queues[e].over != over[e]:
                nfail(d, 'queue %d counts %s resources brought at its maximum, really %d' % (e, o.post.queues[e].over, over[e]))
            if o.post.queues[e].servers != servers[e]:
                nfail(d, 'queue %d has %d servers instead of %d; agents carrying a resource: %s' % (e, o.post.queues[e].servers, servers[e], sorted(carrying)))
            # an arrival from outside, let in or turned away, is followed by the next one
            if o.name == 'simulate' and d.kind == 'Arrival' and d.edge == e and o.pre.queues[e].active:
                if d.before.total() < env.max_agents and made[e] < cap[e] and not d.after.pending[e]:
                    nfail(d, 'arrivals from outside at queue %d have stopped' % e)
                full = o.pre.queues[e].system >= o.pre.queues[e].servers + env.spec_at[e].kw.get('qbuffer', 0)
                if bool(d.lost) != full:
                    nfail(d, 'an arrival from outside at queue %d, which is %sfull, was %s' % (e, '' if full else 'not ', 'turned away' if d.lost else 'let in'))
        if sum(o.post.queues[e].servers for e in rq) + len(carrying) != total:
            nfail(d, 'there are %d servers and %d agents carrying one, %d at first' % (sum(o.post.queues[e].servers for e in rq), len(carrying), total))


def single(env, ds):
    """A resource queue of its own: everyone who leaves takes a server, while there are any."""
    n = env.first.servers
    most, over = 2 * n, 0
    for d in ds:
        o = d.op
        if d.bad:
            fail(d, d.bad)
        if o.name == 'set_num_servers':
            n = o.args[0]
        if o.name == 'give' and o.args[2] == 'resource':
            over += n >= most
            n += 1
            if o.args[1] in d.arrived + d.lost:
                fail(d, 'an agent who brought a resource stayed')
        for s in d.departed:
            if n > 0:
                n -= 1
        if o.post.over != over:
            fail(d, 'the queue counts %s resources brought at its maximum, really %d' % (o.post.over, over))
        if o.post.servers != n:
            fail(d, 'the queue has %d servers instead of %d' % (o.post.servers, n))
        if (d.arrived or d.lost) and o.name == 'simulate':
            full = len(d.line0) + len(d.serving0) >= o.pre.servers + env.kw.get('qbuffer', 0)
            if bool(d.lost) != full:
                fail(d, 'an arrival at a queue that is %sfull was %s' % ('' if full else 'not ', 'turned away' if d.lost else 'let in'))
            if o.pre.active and o.post.active and not d.pending:
                fail(d, 'arrivals have stopped')


def scenarios(tier):
    e = 2 if tier == 'thorough' else 0
    s = []
    for n, b in ((1, 0), (1, 2), (2, 0), (2, 1), (3, 2)):
        s.append(qscen.scen('one queue, %d servers, buffer %d' % (n, b), single, cls=RQ, steps=9 + e, num_servers=n, qbuffer=b))
        s.append(qscen.scen('one queue, %d servers, buffer %d, capped' % (n, b), single, cls=RQ, steps=9 + e, num_servers=n, qbuffer=b, active_cap=3))
    s.append(qscen.scen('one queue, servers change', single, bound=2, cls=RQ, steps=7 + e, num_servers=2, qbuffer=2, gaps=(1, 2), menu=[('set_num_servers', k) for k in (1, 3, 5)]))
    bring = [('give', 0, 'resource'), ('give', 'half', 'resource'), ('give', 'tie', 'resource'), ('give', 'half')]
    for n, b in ((1, 0), (1, 1), (2, 1)):
        s.append(qscen.scen('one queue, %d servers, buffer %d, resources brought' % (n, b), single, bound=2 + e // 2, cls=RQ, steps=7, num_servers=n, qbuffer=b, gaps=(1, 4), services=(2, 7), menu=bring))
    s.append(qscen.scen('one queue, many resources brought', single, bound=5, cls=RQ, steps=8 + e // 2, num_servers=1, qbuffer=1, gaps=(3,), services=(4,), menu=bring[1:2]))
    s.append(qscen.scen('one queue, ties', single, cls=RQ, steps=9 + e, num_servers=2, qbuffer=1, ties=True, gaps=(1, 2), services=(1, 2)))
    for b in ('BAS', 'RS'):
        for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
            for n, buf in ((2, 2), (3, 0), (1, 1)):
                k = {'num_servers': n, 'qbuffer': buf}
                qs, ex = top(RQ, RQ, s1=(1, 3), s2=(3, 5), g1=(2,), g2=(4,), k1=k, k2=k)
                s.append(scen('%s %s %d servers buffer %d' % (nm, b, n, buf), c08, qs, exits=ex, start=nscen.first(2), steps=8 + e, blocking=b))
        qs, ex = nscen.loop(RQ, QS, s1=(1, 3), s2=(3,), g1=(2,), g2=(9,), k1={'num_servers': 2, 'qbuffer': 2}, a2=qt.ResourceAgent)
        s.append(scen('through a plain queue %s' % b, c08, qs, exits=ex, start=nscen.first(2), steps=9 + e, blocking=b))
        qs, ex = nscen.cycle(RQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(2, 9), k1={'num_servers': 2, 'qbuffer': 1}, k2={'num_servers': 2, 'qbuffer': 1})
        s.append(scen('with plain agents %s' % b, c08, qs, exits=ex, start=nscen.first(2), steps=9 + e, blocking=b))
        qs, ex = nscen.merge(RQ, RQ, RQ, s1=(1, 4), s2=(2,), s3=(3,), g1=(2,), g2=(3,), g3=(5, 20), k1={'num_servers': 2}, k2={'num_servers': 2, 'qbuffer': 1}, k3={'num_servers': 2, 'qbuffer': 1})
        s.append(scen('merge %s' % b, c08, qs, exits=ex, start=nscen.first(3), steps=10 + e, blocking=b))
    s += deep.networks(c08, tier, ('resource',))
    for n, b in ((1, 0), (2, 1), (4, 3)):
        nm = 'one queue, long history, %d servers' % n
        s.append(deep.queue(nm, single, RQ, (2, 2 + e // 2), 150, num_servers=n, qbuffer=b, edge=(2, 3, 5, 2)))
        s.append(deep.queue(nm + ', resources brought', single, RQ, (1, 1), 60, bring, num_servers=n, qbuffer=b, edge=(2, 3, 5, 2)))
    qs, ex = nscen.fork(RQ, RQ, RQ, s1=(1,), s2=(4, 2), s3=(5,), g1=(1,), g2=(9,), g3=(9,), k1={'num_servers': 4, 'qbuffer': 1, 'active_cap': 4}, k2={'num_servers': 1, 'qbuffer': 1}, k3={'num_servers': 2})
    s.append(scen('fork', c08, qs, exits=ex, start=nscen.first(3), steps=11 + e))
    qs, ex = nscen.cycle(RQ, RQ, s1=(1, 2), s2=(2,), g1=(1, 2), g2=(2,), k1={'num_servers': 3, 'qbuffer': 1}, k2={'num_servers': 3, 'qbuffer': 1})
    s.append(scen('ties', c08, qs, exits=ex, start=nscen.first(2), steps=8 + e // 2, ties=True))
    return s
