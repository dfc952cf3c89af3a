"""C05: stop rules of simulate()."""
import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, qsim
from mc.qsim import INF

ASSUMPTIONS = ['durations come from small alphabets with positive inter-arrival times', 'reference: the same queue stepped one event at a time']


def expected(ref, rule, size, most=12):
    """Steps the reference until the rule says stop; returns the number of events."""
    s0 = qsim.snap(ref.q)
    n = 0

    def more():
        s = qsim.snap(ref.q)
        if s.time == INF:
            return False
        if rule == 'n':
            return n < size
        if rule == 't':
            return s.now < s0.now + size
        if rule == 'nD':
            return s.departures - s0.departures < size
        return s.arrivals[1] - s0.arrivals[1] < size
    while more():
        if n > most:
            return None         # a rule that is never satisfied while arrivals go on
        ref.sim()
        n += 1
    return n


def scen(name, cls=qt.QueueServer, calls=3, rules=(), gaps=(1, 3), services=(2, 5), activate=True, warm=(0,), between=(), bound=0, words=None, most=12, also=None, **kw):
    def run(ctx):
        if words:
            r = deep.Reader(deep.words(ctx, words, len(gaps), len(services)))
            stream = lambda: r.stream({'A': gaps, 'S': services})
        else:
            stream = qsim.Cached(qsim.Times(ctx), {'A': gaps, 'S': services}).stream
        ref = qsim.QEnv(ctx, cls, draw=stream(), **kw)
        env = qsim.QEnv(ctx, cls, draw=stream(), **kw)
        w = ctx.pick(warm)
        for e in (ref, env):
            if activate:
                e.op('set_active')
            for _ in range(w):
                e.sim()
        hist = []
        for i in range(calls):
            rule, size = ctx.pick(rules)
            s0 = qsim.snap(env.q)
            if size == 'edge':       # exactly to the next event
                size = s0.time - s0.now
                if size == INF or size <= 0:
                    size = 1.0
            n = expected(ref, rule, size, most)
            if n is None:
                return 'pruned', tuple(hist)
            env.op('simulate', **dict(also if also and rule != 'n' else {}, **{rule: size}))
            a = [c for o in env.record() for c in o[3]]
            b = [c for o in ref.record() for c in o[3]]
            sa, sb = qsim.snap(env.q), qsim.snap(ref.q)
            if sa != sb or a != b:
                raise Violation('simulate(%s=%s) from %s\n ended at %s\n  stepping by single events %d times gives %s\n calls %s\n  reference %s' % (
                    rule, size, s0, sa, n, sb, qsim.fmt(a), qsim.fmt(b)))
            ctx.state(sa)
            hist.append((rule, size, n))
            if between:
                k = ctx.choose(1 + len(between), DEV)
                if k:
                    deep.act(ref, between[k - 1])
                    deep.act(env, between[k - 1])
        return tuple(hist)
    return Scenario(name, run, bound)


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    rules = [('n', 1), ('n', 3), ('t', 2.5), ('t', 2.0 ** -40), ('t', 'edge'), ('nA', 2), ('nD', 1), ('nD', 2)]
    more = [('n', 0), ('n', 2), ('n', 5), ('t', 0.5), ('t', 6.0), ('nA', 1), ('nA', 3), ('nD', 3)]
    out = []
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 0}), (qt.InfoQueue, {'qbuffer': 1}), (qt.ResourceQueue, {})):
        nm = cls.__name__
        no_d = cls is qt.ResourceQueue      # its servers leave with the agents: departures end
        def pick(rs):
            return [r for r in rs if not (no_d and r[0] == 'nD')]
        out.append(scen(nm + ' pairs', cls, 2, pick(rules + (more if e else [])), num_servers=2, warm=(0, 3), gaps=(1, 3) if e else (2,), services=(1, 6), **kw))
        out.append(scen(nm + ' triples', cls, 3, pick([('n', 2), ('t', 3.0), ('nA', 1), ('nD', 1), ('t', 'edge')]), num_servers=1, gaps=(2,), services=(1, 5), **kw))
        out.append(scen(nm + ' draining', cls, 2, [('n', 6), ('n', 12), ('t', 50.0), ('nA', 4), ('nD', 5), ('nD', 2)], num_servers=1, warm=(0, 4), gaps=(1, 3) if e else (2,), services=(1, 6), active_cap=3, **kw))
        out.append(scen(nm + ' long pauses', cls, 2, pick([('t', 2.5), ('t', 0.5), ('n', 1), ('n', 3)]), num_servers=1, warm=(0, 2), gaps=(1, 60), services=(2,), **kw))
        out.append(scen(nm + ' deactivated', cls, 2, [('n', 3), ('t', 50.0), ('nA', 2), ('nD', 2)], num_servers=1, warm=(0, 1, 3), gaps=(1, 3), services=(2, 6), deactive_t=5.0, **kw))
        out.append(scen(nm + ' nothing asked', cls, 2, [('n', 0), ('t', 0.0), ('nA', 0), ('nD', 0)] + pick([('n', 2), ('nD', 1)]), num_servers=1, warm=(0, 3), gaps=(1, 3), services=(2,), **kw))
        out.append(scen(nm + ' a number of events besides', cls, 2, pick([('t', 0.0), ('t', 2.5), ('nA', 0), ('nA', 2), ('nD', 0), ('nD', 2)]), num_servers=1, warm=(0, 2), gaps=(1, 3), services=(2,), also={'n': 4}, **kw))
        out.append(scen(nm + ' never active', cls, 2, [('n', 2), ('t', 5.0), ('nA', 1), ('nD', 1)], num_servers=1, activate=False, **kw))
        out.append(scen(nm + ' switched off', cls, 3, pick([('n', 2), ('t', 3.5), ('nA', 2), ('nD', 2)]), num_servers=1, gaps=(1,), services=(1, 5) if e else (2,), between=[('set_inactive',), ('set_active',)], bound=2, **kw))
        handed = [('n', 3), ('t', 2.5), ('nA', 1), ('nA', 3), ('nD', 1), ('nD', 3)]
        out.append(scen(nm + ' agents handed over', cls, 3, pick(handed), num_servers=1, gaps=(2,), services=(1, 5) if e else (3,), between=[('give', 0), ('give', 'half')], bound=2, **kw))
        out.append(scen(nm + ' only agents handed over', cls, 3, handed, num_servers=2, activate=False, gaps=(2,), services=(1, 5), between=[('give', 0), ('give', 'half')], bound=2, **kw))
        for cap in (1, 2):
            out.append(scen(nm + ' last arrival ahead, active_cap=%d' % cap, cls, 3, [('t', 0.25), ('t', 2.0), ('t', 'edge'), ('n', 1), ('nA', 1), ('nD', 1)], num_servers=1, gaps=(3, 60), services=(1,), active_cap=cap, **kw))
        out.append(scen(nm + ' switched off, arrival ahead', cls, 3, pick([('t', 0.25), ('t', 2.0), ('n', 1)]), num_servers=1, gaps=(3, 60), services=(1,), between=[('set_inactive',), ('set_active',)], bound=2, **kw))
        big = pick([('n', 70), ('t', 40.0), ('nA', 33), ('nD', 33), ('nD', 130), ('nA', 130)])
        far = pick([('n', 12001), ('t', 6100.0), ('nA', 5003), ('nD', 5003)])
        out.append(scen(nm + ' far ahead', cls, 1, far, num_servers=30000 if no_d else 2, warm=(0, 1), gaps=(1,), services=(2,), words=(1, 1), most=13000, **kw))
        out.append(scen(nm + ' long histories', cls, 2, big, num_servers=12 if no_d else 2, warm=(0, 100), gaps=(0, 1, 2), services=(0, 1, 3, 6), words=(1, 1 + e), most=600, **kw))
    if e:
        out.append(scen('long', calls=3, rules=rules + more, num_servers=2, gaps=(1,), services=(1, 5)))
    return out
