"""Monitors over the record of one network, one per property. Each judges only its own property."""
from mc.nsim import INF, nfail, base_time
from mc.explore import Violation

EPS = 2.0 ** -20


def due(world):
    """The earliest scheduled time and the events that may be next."""
    sch = world.schedule()
    sch = [x for x in sch if x[0] < INF]
    if not sch:
        return None, []
    exact = [x for x in sch if x[1]]
    t = min(x[0] for x in sch)
    first = [x for x in exact if x[0] == t]
    if first:
        return t, first
    # agents blocked until `t`, whose departure has happened, follow at once; what is due within that time may come first
    return t, [x for x in sch if not x[1] and x[0] == t] + [x for x in sch if t < x[0] <= t + EPS]


def c11(env, ds):
    last = 0.0
    for d in ds:
        o = d.op
        t, nxt = due(d.before)
        if o.name == 'simulate':
            if o.pre.now < last:
                nfail(d, 'clock ran backwards')
            if t is None:
                if o.calls or o.post != o.pre:
                    nfail(d, 'nothing was scheduled, yet something happened')
                continue
            what = {(x[2], x[3]) for x in nxt}
            if d.kind is None:
                nfail(d, 'no event took place, due: %s' % (nxt,))
            if (d.kind, d.edge) not in what:
                nfail(d, 'the event was %s at edge %s, due: %s' % (d.kind, d.edge, nxt))
            if o.pre.next != (d.kind, d.edge):
                nfail(d, 'announced %s, then came %s' % (o.pre.next, (d.kind, d.edge)))
            if nxt[0][1]:
                if o.post.now != t:
                    nfail(d, 'event due at %r took place at %r' % (t, o.post.now))
            elif not t <= o.post.now <= t + EPS:
                nfail(d, 'retry expected just after %r took place at %r' % (t, o.post.now))
            if o.pre.time != o.post.now:
                nfail(d, 'announced time %r, event at %r' % (o.pre.time, o.post.now))
            if o.post.now < o.pre.now:
                nfail(d, 'clock ran backwards')
            if o.post.events != o.pre.events + 1:
                nfail(d, 'one event processed, counter went from %s to %s' % (o.pre.events, o.post.events))
            who = [m.sid for m in d.moves] if d.kind == 'Departure' else [a[0] for a in d.arrived] + [a[0] for a in d.lost]
            if who and who[0] not in [x[4] for x in nxt]:
                nfail(d, 'the event concerned agent %s, due: %s' % (who[0], nxt))
        t2, nxt2 = due(d.after)
        if t2 is None:
            if o.post.next != ('Nothing', None) or o.post.time != INF:
                nfail(d, 'nothing is scheduled, announced %s at %r' % (o.post.next, o.post.time))
        else:
            if o.post.next not in {(x[2], x[3]) for x in nxt2}:
                nfail(d, 'announced %s, due %s' % (o.post.next, nxt2))
            if nxt2[0][1] and o.post.time != t2:
                nfail(d, 'announced time %r, due %r' % (o.post.time, t2))
        last = o.post.now


def c12(env, ds):
    exits = {i for i, t in enumerate(env.type_at) if t == 0}
    known = set()
    events = 0
    for d in ds:
        o = d.op
        w = d.after
        if d.bad:
            nfail(d, d.bad)
        for c in d.created:
            known.add(c[0])
        for s in known:
            at = w.where(s)
            if len(at) != 1:
                nfail(d, 'agent %s is at %s' % (s, at or 'no place'))
        for m in d.moves:
            if m.blocked:
                continue
            if m.dst in exits:
                continue
            got = [a for a in d.arrived if a[0] == m.sid]
            if m.sid in w.returned and not got:
                continue
            if [(a[1], a[2]) for a in got] != [(m.dst, m.now)]:
                nfail(d, 'agent %s left for queue %s at %r, arrivals: %s' % (m.sid, m.dst, m.now, got))
        movers = {m.sid for m in d.moves if not m.blocked}
        for s, e, now in d.arrived:
            if s not in movers and s not in d.before.pending[e]:
                nfail(d, 'agent %s arrived out of nowhere' % s)
            if now != o.post.now:
                nfail(d, 'arrival at %r in an event at %r' % (now, o.post.now))
        for s, e, now in d.lost:
            if e is None or s not in d.before.pending[e]:
                nfail(d, 'agent %s turned away although it did not come from outside' % s)
        for e in range(env.nE):
            n = len(w.pending[e]) + w.system(e)
            if o.post.agents[e] != n:
                nfail(d, 'queue %d has %d agents, the network counts %d' % (e, n, o.post.agents[e]))
            if e not in exits and (o.post.queues[e].system != w.system(e) or o.post.queues[e].queued != len(w.line[e])):
                nfail(d, 'queue %d counts %d (%d waiting), really %d (%d waiting)' % (
                    e, o.post.queues[e].system, o.post.queues[e].queued, w.system(e), len(w.line[e])))
        if o.name == 'simulate' and d.kind is not None:
            events += 1
        if o.post.events != events:
            nfail(d, '%d events took place, the network counts %d' % (events, o.post.events))


def c14(env, ds):
    blocked_agent, blocked_queue = {}, {}
    caps = {}
    for d in ds:
        o = d.op
        for m in d.moves:
            q = o.pre.queues[m.dst]
            cap = None
            if q.blocked is not None and env.spec_at[m.dst] is not None:
                cap = q.servers + env.spec_at[m.dst].kw.get('qbuffer', 0)
            full = cap is not None and d.before.system(m.dst) >= cap
            must = full and m.src != m.dst
            if m.blocked and not must:
                nfail(d, 'agent %s was refused at queue %s, which has room (%s in it, room for %s)' % (m.sid, m.dst, d.before.system(m.dst), cap))
            if must and not m.blocked:
                nfail(d, 'agent %s left for queue %s, which is full' % (m.sid, m.dst))
            if m.blocked:
                blocked_agent[m.sid] = blocked_agent.get(m.sid, 0) + 1
                blocked_queue[m.dst] = blocked_queue.get(m.dst, 0) + 1
                if m.sid not in d.after.serving[m.src]:
                    nfail(d, 'blocked agent %s is no longer at queue %s' % (m.sid, m.src))
                if d.arrived or d.lost or d.served_out:
                    nfail(d, 'a refused move had side effects')
                s0, s1 = [c for c in o.calls if c[0] == 'S'], d.after.serving[m.src][m.sid]
                if env.blocking == 'RS':
                    if len(s0) != 1 or s0[0][1] != m.src or s0[0][2] != o.post.now:
                        nfail(d, 'repetitive service: expected one more service at queue %s from %r on' % (m.src, o.post.now))
                elif s0:
                    nfail(d, 'blocking after service must not serve again')
                # every other event is where it was
                for e in range(env.nE):
                    a, b = dict(d.before.serving[e]), dict(d.after.serving[e])
                    a.pop(m.sid, None), b.pop(m.sid, None)
                    if a != b:
                        nfail(d, 'a refused move changed other services')
            else:
                for a in d.lost:
                    nfail(d, 'an agent was lost in a move')
        if not d.moves:
            for s, e, now in d.lost:
                blocked_queue[e] = blocked_queue.get(e, 0) + 1
                blocked_agent[s] = blocked_agent.get(s, 0) + 1
        for e in range(env.nE):
            q = o.post.queues[e]
            if q.blocked is not None and env.spec_at[e] is not None:
                if q.blocked != blocked_queue.get(e, 0):
                    nfail(d, 'queue %d counts %d refused, really %d' % (e, q.blocked, blocked_queue.get(e, 0)))
                cap = q.servers + env.spec_at[e].kw.get('qbuffer', 0)
                if d.after.system(e) > cap and d.after.system(e) > d.before.system(e):
                    nfail(d, 'queue %d holds %d agents, room for %d' % (e, d.after.system(e), cap))
        # a blocked agent tries again as soon as the departure it waits for has taken place
        for e in range(env.nE):
            for s, t in d.after.serving[e].items():
                if isinstance(t, tuple) and t[1] < INF and o.post.time > t[1] + 1e-6:
                    nfail(d, 'agent %s at queue %d waits for a departure at %r, but the next event is only at %r' % (s, e, t[1], o.post.time))
        # nobody inside ever vanishes
        for e in range(env.nE):
            for s in list(d.before.line[e]) + list(d.before.serving[e]):
                if not d.after.where(s):
                    nfail(d, 'agent %s vanished' % s)
    for s, n in blocked_agent.items():
        a = env.agents[s]
        if type(a).add_loss is not None and a.blocked != n and not env.info:
            raise Violation('agent %s counts %d refusals, really %d' % (s, a.blocked, n))


def c15(env, ds):
    active = [False] * env.nE
    for d in ds:
        o = d.op
        if d.after.total() > env.max_agents:
            nfail(d, '%d agents in the network, at most %s allowed' % (d.after.total(), env.max_agents))
        if sum(o.post.agents) > env.max_agents:
            nfail(d, 'the network counts %d agents, at most %s allowed' % (sum(o.post.agents), env.max_agents))
        for s, e, now in d.arrived + d.lost:
            if s in d.before.pending[e] and o.pre.queues[e].active:
                room = d.before.total() < env.max_agents
                if room and not d.after.pending[e]:
                    nfail(d, 'queue %d stopped producing arrivals although the network has room' % e)
