"""Monitors over the record of one queue, one per property. Each judges only its own property."""
from mc.qsim import INF, fail, track
from mc.explore import Violation


def c01(env, deltas):
    """First come first served, earliest start, work conserving, never over-committed."""
    order = {}          # arrival rank
    n = 0
    for d in deltas:
        o = d.op
        if d.bad:
            fail(d, d.bad)
        for a in d.arrived:
            order[a] = n
            n += 1
        started = [s[0] for s in d.started]
        if started:
            waiting = sorted(d.line0 + d.arrived, key=lambda a: order[a])
            if sorted(started, key=lambda a: order[a]) != waiting[:len(started)]:
                fail(d, 'not first come first served: %s began service, waiting in order of arrival: %s' % (started, waiting))
            if len(started) > 1 and started != waiting[:len(started)]:
                fail(d, 'services begun out of order')
            if len(d.serving) > o.post.servers:
                fail(d, 'over-committed: %d in service with %s servers' % (len(d.serving), o.post.servers))
            for a, t, r in d.started:
                if t != o.post.now:
                    fail(d, 'service of agent %s drawn for time %r instead of the present %r' % (a, t, o.post.now))
        if d.line and len(d.serving) < o.post.servers:
            fail(d, 'idle server: %d waiting, %d in service, %s servers' % (len(d.line), len(d.serving), o.post.servers))
        for a in d.departed:
            if a in d.serving0 and o.post.now != d.serving0[a]:
                fail(d, 'agent %s departed at %r instead of %r' % (a, o.post.now, d.serving0[a]))
        if o.name == 'simulate':
            for a, t in d.serving.items():
                if t < o.post.now:
                    fail(d, 'agent %s should have departed at %r' % (a, t))


def c02(env, deltas):
    arrived = departed = created = 0
    stage = {}
    ids = set()
    idx = env.edge[2]
    for d in deltas:
        o = d.op
        for a, aid, t in d.created:
            if aid != (idx, created):
                fail(d, 'agent number %d got id %s' % (created, aid))
            if aid in ids:
                fail(d, 'duplicate id %s' % (aid,))
            ids.add(aid)
            created += 1
        for c in o.calls:
            if c[0] != 'act':
                continue
            _, a, kind, e, now = c
            if e != idx:
                fail(d, 'notification names another queue')
            if stage.get(a, 0) != kind:
                fail(d, 'agent %s notified of step %s when step %s was due' % (a, kind, stage.get(a, 0)))
            stage[a] = kind + 1
            if kind == 0:
                arrived += 1
            elif kind == 2:
                departed += 1
        if o.name == 'give' or (o.name == 'simulate' and o.pre.kind == 1 and o.args == (('n', 1),)):
            told = d.arrived + d.lost
            if len(told) != 1 or (o.name == 'give' and told != [o.args[1]]):
                fail(d, 'one agent came, told of an arrival or a refusal: %s' % (told,))
        inservice = sum(1 for v in stage.values() if v == 2)
        waiting = sum(1 for v in stage.values() if v == 1)
        p = o.post
        want = (arrived, created, departed, inservice + waiting, waiting)
        got = (p.arrivals[0], p.arrivals[1], p.departures, p.system, p.queued)
        if want != got:
            fail(d, 'counters (arrivals, external, departures, system, waiting) are %s, really %s' % (got, want))
        if p.system != p.arrivals[0] - p.departures:
            fail(d, 'in system is not arrivals minus departures')


def c03(env, deltas):
    created = 0
    exhausted = False
    requested = False       # what the user asked for last
    for d in deltas:
        o = d.op
        arrf = [c for c in o.calls if c[0] == 'A']
        if len(arrf) > 1:
            fail(d, 'arrival function asked %d times in one step' % len(arrf))
        for c in arrf:
            if c[1] != o.post.now:
                fail(d, 'arrival function called with %r instead of the present %r' % (c[1], o.post.now))
            if c[2] >= env.deact:
                exhausted = True
                if d.created:
                    fail(d, 'external arrival scheduled at or after the deactivation time')
            elif not d.created:
                fail(d, 'an arrival time was drawn and no agent scheduled')
        if o.name == 'set_inactive':
            requested = False
            if o.post.active:
                fail(d, 'still active')
            if d.created or d.pending != d.pending0:
                fail(d, 'deactivation changed the schedule')
        may = (o.name == 'set_active' and not o.pre.active) or \
              (o.name == 'simulate' and o.pre.active and (d.arrived or d.lost))
        if d.created and not may:
            fail(d, 'external arrival scheduled although the queue was inactive or nothing asked for it')
        if o.name == 'set_active':
            requested = True
            for a, t in d.pending0.items():
                if d.pending.get(a) != t:
                    fail(d, 'activation changed a scheduled arrival')
            if d.pending0 and (d.created or arrf):
                fail(d, 'activation duplicated the scheduled arrival',
                     'reactivated-while-arrival-due-now' if set(d.pending0.values()) == {o.pre.now} else None)
        created += len(d.created)
        if created > env.cap:
            fail(d, '%d external arrivals exceed the cap %s' % (created, env.cap))
        for a in d.arrived + d.lost:
            if a in d.pending0 and o.post.now >= env.deact:
                fail(d, 'external arrival at %r, deactivation time %r' % (o.post.now, env.deact))
            if a in d.pending0 and o.post.now != d.pending0[a]:
                fail(d, 'agent %s arrived at %r instead of %r' % (a, o.post.now, d.pending0[a]))
        if created >= env.cap:
            exhausted = True
        if exhausted:
            if created >= env.cap and o.post.active:
                fail(d, 'still active with the cap reached')
            if o.name == 'simulate' and o.post.active and not o.pre.active:
                fail(d, 'became active by itself')
            if arrf and arrf[0][2] >= env.deact and o.post.active:
                fail(d, 'still active after the deactivation time')
        else:
            if o.post.active != requested:
                fail(d, 'active is %s, requested %s' % (o.post.active, requested))
            if o.post.active and len(d.pending) != 1:
                fail(d, '%d external arrivals scheduled at an active queue' % len(d.pending))
        if len(d.pending) > 1:
            fail(d, 'more than one external arrival scheduled')


def c04(env, deltas):
    for d in deltas:
        o = d.op
        p, q = o.pre, o.post
        sched = list(d.pending0.values()) + list(d.serving0.values())
        t0 = min(sched) if sched else INF
        if q.now < p.now:
            fail(d, 'clock ran backwards')
        if o.name == 'simulate' and o.args == (('n', 1),):
            if t0 == INF:
                if p != q or o.calls:
                    fail(d, 'simulating with nothing scheduled changed something')
            else:
                if q.now != t0:
                    fail(d, 'event processed at %r, the earliest scheduled was %r' % (q.now, t0))
                who = d.arrived + d.lost if p.kind == 1 else d.departed
                other = d.departed if p.kind == 1 else d.arrived + d.lost
                if len(who) != 1 or other:
                    fail(d, 'announced kind %d is not the event that took place' % p.kind)
                src = d.pending0 if p.kind == 1 else d.serving0
                if src.get(who[0]) != t0:
                    fail(d, 'the event of agent %s was not due' % who[0])
        elif o.name != 'simulate':
            if q.now != p.now:
                fail(d, 'the clock moved without an event')
        sched = list(d.pending.values()) + list(d.serving.values())
        t1 = min(sched) if sched else INF
        if q.time != t1:
            fail(d, 'announced next event at %r, scheduled %r' % (q.time, t1))
        kinds = set()
        if t1 == INF:
            kinds = {0}
        else:
            if t1 in d.pending.values():
                kinds.add(1)
            if t1 in d.serving.values():
                kinds.add(2)
        if q.kind not in kinds:
            fail(d, 'announced kind %d, scheduled %s' % (q.kind, kinds))


def c06(env, deltas):
    buf = env.kw.get('qbuffer', INF if type(env.q).__name__ == 'InfoQueue' else 0)
    blocked = 0
    for d in deltas:
        o = d.op
        cap = o.post.servers + buf
        n0 = len(d.line0) + len(d.serving0)
        if o.name == 'give' or (o.name == 'simulate' and o.pre.kind == 1 and o.args == (('n', 1),)):
            told = d.arrived + d.lost
            if len(told) != 1 or (o.name == 'give' and told != [o.args[1]]):
                fail(d, 'one agent came, told of an arrival or a refusal: %s' % (told,))
        for a in d.arrived + d.lost:
            room = n0 < o.pre.servers + buf
            if room and a in d.lost:
                fail(d, 'agent %s turned away with room' % a)
            if not room and a in d.arrived:
                fail(d, 'agent %s admitted to a full queue' % a)
        for a in d.lost:
            blocked += 1
            if d.lost.count(a) != 1:
                fail(d, 'agent %s told more than once' % a)
            if a in d.line or a in d.serving:
                fail(d, 'turned-away agent is in the queue')
            if o.post.arrivals[0] != o.pre.arrivals[0] or o.post.departures != o.pre.departures or o.post.system != o.pre.system \
                    or o.post.queued != o.pre.queued:
                fail(d, 'a turned-away agent changed the counters')
            if d.line != d.line0 or d.serving != d.serving0:
                fail(d, 'a turned-away agent disturbed the others')
            if o.pre.active and not o.post.active and not (sum(1 for a in env.agents.values() if a.agent_id[0] == env.edge[2]) >= env.cap or env.deact < INF):
                fail(d, 'a turned-away agent stopped the external arrivals')
            if o.post.active and not d.pending:
                fail(d, 'no external arrival scheduled after a blocked one')
            ag = env.agents[a]
            told = ag.stats[env.edge[2], 2] if hasattr(ag, 'stats') else ag.blocked
            if told != 1:
                fail(d, 'agent counts %s losses' % told)
        if o.post.blocked != blocked:
            fail(d, 'num_blocked is %s, really %d' % (o.post.blocked, blocked))
        full = len(d.line) + len(d.serving) >= cap
        if o.post.full != full:
            fail(d, 'at_capacity() is %s, really %s' % (o.post.full, full))
        if o.name == 'simulate' and o.post.kind and o.pre.kind == 1 and o.post == o.pre and not o.calls:
            fail(d, 'an arrival vanished')


def c28(env, deltas):
    for d in deltas:
        o = d.op
        if o.name != 'delay_service':
            for a in d.departed:
                if a in d.serving0 and o.post.now != d.serving0[a]:
                    fail(d, 'agent %s departed at %r instead of %r' % (a, o.post.now, d.serving0[a]))
            if o.name == 'simulate' and not (d.arrived or d.lost or d.departed) and any(t < INF for t in d.serving0.values()):
                fail(d, 'a scheduled departure vanished')
            continue
        serf = [c for c in o.calls if c[0] == 'S']
        explicit = bool(o.args) and o.args[0] is not None
        if [c for c in o.calls if c[0] != 'S']:
            fail(d, 'a delay caused other activity')
        if not d.serving0:
            if o.calls or o.pre != o.post:
                fail(d, 'a delay with no agent in service had an effect')
            continue
        if explicit and serf:
            fail(d, 'service time drawn although a time was given')
        if not explicit:
            if len(serf) != 1:
                fail(d, '%d service times drawn for a delay' % len(serf))
            if serf[0][1] != min(d.serving0.values()):
                fail(d, 'further service drawn at %r instead of the departure time %r' % (serf[0][1], min(d.serving0.values())))
        p, q = o.pre, o.post
        if p._replace(time=0, kind=0) != q._replace(time=0, kind=0):
            fail(d, 'a delay changed the state of the queue')
    c04ish(env, deltas)


def c04ish(env, deltas):
    """Announced next event after a delay, and departures in the order of the re-timed schedule."""
    seen = False
    for d in deltas:
        o = d.op
        seen = seen or o.name == 'delay_service'
        if not seen:
            continue
        sched = list(d.pending.values()) + list(d.serving.values())
        t1 = min(sched) if sched else INF
        if o.post.time != t1:
            fail(d, 'announced next event at %r, scheduled %r' % (o.post.time, t1))
