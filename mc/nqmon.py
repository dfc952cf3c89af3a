"""What single queues promise, judged at every queue of a network: one monitor per property."""
from mc import deep, nscen
from mc.nmon import EPS
from mc.nsim import INF, nfail, base_time
from mc.nscen import QS, LQ, IQ, RQ


def served(env):
    return [e for e in range(env.nE) if env.spec_at[e] is not None]


def c01(env, ds):
    for d in ds:
        o = d.op
        if d.bad:
            nfail(d, d.bad)
        for e in served(env):
            b, a, q = d.before, d.after, o.post.queues[e]
            came = [s for s, f, _ in d.arrived if f == e]
            began = [(s, t) for s, f, t, _ in d.started if f == e]
            line = b.line[e] + came
            if [s for s, _ in began] != line[:len(began)]:
                nfail(d, 'queue %d is not first come first served: %s began service, waiting in order of arrival: %s' % (e, began, line))
            if began and len(a.serving[e]) > q.servers:
                nfail(d, 'queue %d is over-committed: %d in service with %s servers' % (e, len(a.serving[e]), q.servers))
            for s, t in began:
                if t != o.post.now:
                    nfail(d, 'service of agent %s at queue %d drawn for %r instead of the present %r' % (s, e, t, o.post.now))
            if a.line[e] and len(a.serving[e]) < q.servers:
                nfail(d, 'idle server at queue %d: %d waiting, %d in service, %s servers' % (e, len(a.line[e]), len(a.serving[e]), q.servers))
            for s, t in a.serving[e].items():
                if not isinstance(t, tuple) and t < o.post.now and o.name == 'simulate':
                    nfail(d, 'agent %s should have departed from queue %d at %r' % (s, e, t))
        for s, e, now in d.served_out:
            t = d.before.serving[e].get(s)
            if t is not None and not isinstance(t, tuple) and (t != now or now != o.post.now):
                nfail(d, 'agent %s departed from queue %d at %r instead of %r' % (s, e, now, t))


def c02(env, ds):
    arrived, departed, created = [[0] * env.nE for _ in range(3)]
    stage = {}          # (agent, queue) -> next step due
    ids = set()
    for d in ds:
        o = d.op
        for s, e, t, r, aid in d.created:
            if aid != (e, created[e]):
                nfail(d, 'agent number %d of queue %d got id %s' % (created[e], e, aid))
            if aid in ids:
                nfail(d, 'duplicate id %s' % (aid,))
            ids.add(aid)
            created[e] += 1
        for c in o.calls:
            if c[0] != 'act':
                continue
            _, s, kind, e, now = c
            if stage.get((s, e), 0) != kind:
                nfail(d, 'agent %s notified of step %s at queue %d when step %s was due' % (s, kind, e, stage.get((s, e), 0)))
            stage[s, e] = (kind + 1) % 3
            arrived[e] += kind == 0
            departed[e] += kind == 2
        inside = [[0, 0] for _ in range(env.nE)]
        for (s, e), k in stage.items():
            if k:
                inside[e][k == 2] += 1
        for e in served(env):
            q = o.post.queues[e]
            want = (arrived[e], created[e], departed[e], sum(inside[e]), inside[e][0])
            got = (q.arrivals[0], q.arrivals[1], q.departures, q.system, q.queued)
            if want != got:
                nfail(d, 'queue %d: counters (arrivals, external, departures, system, waiting) are %s, really %s' % (e, got, want))


def c03(env, ds):
    created = [0] * env.nE
    cap = [env.spec_at[e].kw.get('active_cap', INF) if env.spec_at[e] is not None else 0 for e in range(env.nE)]
    off = [env.spec_at[e].kw.get('deactive_t', INF) if env.spec_at[e] is not None else 0 for e in range(env.nE)]
    asked, done = [False] * env.nE, [False] * env.nE
    for d in ds:
        o = d.op
        if o.name == 'initialize':
            for e in dict(x for x in o.args if isinstance(x, tuple))['queues']:
                asked[e] = env.spec_at[e] is not None
        for e in served(env):
            calls = [c for c in o.calls if c[0] == 'A' and c[1] == e]
            new = [c for c in d.created if c[1] == e]
            if len(calls) > 1:
                nfail(d, 'the arrival function of queue %d was asked %d times' % (e, len(calls)))
            for c in calls:
                if c[2] != o.post.now:
                    nfail(d, 'the arrival function of queue %d was called with %r instead of the present %r' % (e, c[2], o.post.now))
                if c[3] >= off[e]:
                    done[e] = True
                    if new:
                        nfail(d, 'external arrival scheduled at queue %d at or after its deactivation time' % e)
                elif not new:
                    nfail(d, 'queue %d drew an arrival time and scheduled no agent' % e)
            outside = [s for s, f, _ in d.arrived + d.lost if f == e and s in d.before.pending[e]]
            # an agent from another queue that comes just when an arrival is due may bring about the next one
            due = outside or (any(f == e for _, f, _ in d.arrived) and o.post.now in d.before.pending[e].values())
            if new and not (o.name == 'initialize' or (due and o.pre.queues[e].active)):
                nfail(d, 'external arrival scheduled at queue %d although nothing asked for it' % e)
            for s, t in d.before.pending[e].items():
                if s in outside:
                    if o.post.now != t:
                        nfail(d, 'agent %s arrived at queue %d at %r instead of %r' % (s, e, o.post.now, t))
                    if t >= off[e]:
                        nfail(d, 'external arrival at %r at queue %d, deactivation time %r' % (t, e, off[e]))
                elif d.after.pending[e].get(s) != t:
                    nfail(d, 'the scheduled arrival of agent %s at queue %d changed' % (s, e))
            created[e] += len(new)
            if created[e] > cap[e]:
                nfail(d, '%d external arrivals at queue %d exceed its cap %s' % (created[e], e, cap[e]))
            done[e] = done[e] or created[e] >= cap[e]
            active, n = o.post.queues[e].active, len(d.after.pending[e])
            late = sum(t > o.post.now for t in d.after.pending[e].values())
            if late > 1 or n - late > 1:
                nfail(d, '%d external arrivals scheduled at queue %d' % (n, e))
            if done[e]:
                if active:
                    nfail(d, 'queue %d is still active' % e)
            elif active != asked[e]:
                nfail(d, 'queue %d: active is %s, requested %s' % (e, active, asked[e]))
            elif active and n != 1 and late != 1:
                nfail(d, '%d external arrivals scheduled at queue %d, which is active' % (n, e))


def c04(env, ds):
    clock = [0.0] * env.nE
    for d in ds:
        o = d.op
        touched = {c[1] if c[0] in 'AS' else c[3] for c in o.calls if c[0] in ('A', 'S', 'act')} | {c[2] for c in o.calls if c[0] == 'loss'} | {m.dst for m in d.moves if not m.blocked}
        for e in served(env):
            p, q = o.pre.queues[e], o.post.queues[e]
            if q.now < p.now:
                nfail(d, 'the clock of queue %d ran backwards from %r to %r' % (e, p.now, q.now))
            if q.now > o.post.now:
                nfail(d, 'the clock of queue %d shows %r at %r' % (e, q.now, o.post.now))
            took = any(f == e for _, f, _ in d.arrived + d.lost + d.served_out)
            if took and q.now != o.post.now:
                nfail(d, 'queue %d had an event at %r, its clock shows %r' % (e, o.post.now, q.now))
            if e not in touched and o.name == 'simulate' and (p.now, p.time, p.kind) != (q.now, q.time, q.kind) and not any(e == m.src for m in d.moves):
                nfail(d, 'queue %d had no event, its clock and announcement went from %s to %s' % (e, (p.now, p.time, p.kind), (q.now, q.time, q.kind)))
            # announced
            out = [(t, 1) for t in d.after.pending[e].values()] + [(t, 2) for t in d.after.serving[e].values()]
            out = [(base_time(t), isinstance(t, tuple), k) for t, k in out if base_time(t) < INF]
            if not out:
                if not any(isinstance(t, tuple) for t in d.after.serving[e].values()) and (q.time != INF or q.kind != 0):
                    nfail(d, 'queue %d has nothing scheduled and announces kind %d at %r' % (e, q.kind, q.time))
                continue
            t = min(out)[0]
            first = [x for x in out if x[0] == t]
            if any(not x[1] for x in first):
                if q.time != t or q.kind not in {x[2] for x in first if not x[1]}:
                    nfail(d, 'queue %d announces kind %d at %r, scheduled %s' % (e, q.kind, q.time, out))
            elif not t <= q.time <= t + EPS or q.kind not in {x[2] for x in out if x[0] <= t + EPS}:
                nfail(d, 'queue %d announces kind %d at %r, scheduled %s' % (e, q.kind, q.time, out))


def c06(env, ds):
    told = [0] * env.nE
    for d in ds:
        o = d.op
        for e in served(env):
            if not issubclass(env.spec_at[e].cls, LQ):
                continue
            b, a, p, q = d.before, d.after, o.pre.queues[e], o.post.queues[e]
            room = env.spec_at[e].kw.get('qbuffer', INF if env.spec_at[e].cls is IQ else 0)
            for s, f, _ in d.arrived:
                if f == e and s in b.pending[e] and b.system(e) >= p.servers + room:
                    nfail(d, 'agent %s was admitted to queue %d, which is full' % (s, e))
            lost = [s for s, f, _ in d.lost if f == e]
            for s in lost:
                if b.system(e) < p.servers + room:
                    nfail(d, 'agent %s was turned away at queue %d, which has room' % (s, e))
                if (q.arrivals[0], q.departures, q.system, q.queued) != (p.arrivals[0], p.departures, p.system, p.queued) or a.line[e] != b.line[e] or a.serving[e] != b.serving[e]:
                    nfail(d, 'a turned-away agent disturbed queue %d' % e)
            told[e] += len(lost) + sum(m.blocked and m.dst == e for m in d.moves)
            if q.blocked != told[e]:
                nfail(d, 'queue %d counts %s agents refused, really %d' % (e, q.blocked, told[e]))
            if q.full != (a.system(e) >= q.servers + room):
                nfail(d, 'at_capacity() of queue %d is %s with %d agents, %s servers and room for %s' % (e, q.full, a.system(e), q.servers, room))


def scenarios(monitor, tier, caps=False, resources=True, long=True):
    """Small networks with every answer, and the large network."""
    th = 1 if tier == 'thorough' else 0
    s = []
    first = nscen.first(2)
    more = {'active_cap': 3} if caps else {}
    late = {'deactive_t': 5000.0} if caps else {}
    for b in ('BAS', 'RS'):
        for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
            qs, ex = top(QS, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1=dict({'num_servers': 2}, **more), k2=dict({'qbuffer': 1}, **late))
            s.append(nscen.scen('network, %s %s' % (nm, b), monitor, qs, exits=ex, start=first, steps=8 + 2 * th, blocking=b))
            qs, ex = top(LQ, IQ, s1=(1, 3), s2=(3,), g1=(1, 2), g2=(4,), k1=dict({'qbuffer': 1}, **late), k2=dict({'qbuffer': 0}, **more))
            s.append(nscen.scen('network, %s with information %s' % (nm, b), monitor, [q._replace(agent=TwoEdges) if q.cls is LQ else q for q in qs], exits=ex, start=first, steps=7 + 2 * th, blocking=b))
        qs, ex = nscen.merge(QS, LQ, LQ, s1=(1, 2), s2=(2,), s3=(3, 6), g1=(2,), g2=(3,), g3=(5,), k2={'qbuffer': 1}, k3={'qbuffer': 0})
        s.append(nscen.scen('network, merge %s' % b, monitor, qs, exits=ex, start=nscen.first(3), steps=10 + 2 * th, blocking=b))
        if resources:
            qs, ex = nscen.cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'num_servers': 2, 'qbuffer': 2}, k2={'num_servers': 2, 'qbuffer': 2})
            s.append(nscen.scen('network, resources %s' % b, monitor, qs, exits=ex, start=first, steps=8 + th, blocking=b))
    for nm, top in (('line', nscen.line), ('loop', nscen.loop), ('cycle', nscen.cycle)):
        qs, ex = top(QS, LQ, s1=(1, 2), s2=(1,), g1=(1, 2), g2=(2,), k2={'num_servers': 2, 'qbuffer': 1})
        s.append(nscen.scen('network, ties %s' % nm, monitor, qs, exits=ex, start=first, steps=7 + th, ties=True))
    if long:
        s += deep.networks(monitor, tier, ('plain', 'finite', 'information') + (('resource',) if resources else ()), menu=deep.MENU)
    return s


class TwoEdges(nscen.qt.InfoAgent):
    """An information agent made by a queue that does not know the size of the network."""

    def __init__(self, aid, *rest):
        nscen.qt.InfoAgent.__init__(self, aid, 3)
