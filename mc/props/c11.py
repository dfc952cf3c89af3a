"""C11: the network processes the earliest event and tells the truth about it."""
import queueing_tool as qt
from mc import deep
from mc.explore import Scenario, Violation
from mc.nmon import c11
from mc.nscen import scen, line, loop, cycle, merge, fork, first, QS, LQ, IQ, RQ
from mc import nsim
from mc.nsim import INF, nsnap

ASSUMPTIONS = ['durations come from small alphabets; queues are only changed through the network between events',
               'waiting times of blocked agents end within 2**-20 after the departure they wait for']


def split(name, queues, exits, steps, ties=False, **kw):
    """simulate(n=..) and simulate(t=..) do what as many single events do."""
    def run(ctx):
        tab = nsim.NCached(nsim.NTimes(ctx, ties))
        routes = {}

        def make():
            env = nsim.NEnv(ctx, queues, exits, draw=tab.stream(), **kw)
            count = [0]

            def pick(agent, edge, k):
                count[0] += 1
                if count[0] not in routes:
                    routes[count[0]] = ctx.choose(k)
                return routes[count[0]]
            env.draw_route = pick
            env.op('initialize', queues=list(range(len(queues))))
            return env
        a, b = make(), make()
        left = steps
        while left > 0:
            k = ctx.choose(7)
            start = b.net.current_time
            if k < 3:
                n = (2, 0, left)[k]
                b.op('simulate', n=n)
                for _ in range(n):
                    a.sim()
                left -= max(n, 1)
            else:
                # up to an event, beyond it, not at all, or half way to it
                t = (a.net.time - start, a.net.time - start + 512.0, 0.0, (a.net.time - start) / 2)[k - 3]
                if t == INF:
                    t = 5000.0
                b.op('simulate', t=t)
                n = 0
                while a.net.current_time < start + t and a.net.time < INF:
                    a.sim()
                    n += 1
                left -= max(n, 1)
            x, y = nsnap(a.net), nsnap(b.net)
            ca, cb = [sum((e.named(o.calls) for o in e.ops), ()) for e in (a, b)]
            if x != y or ca != cb:
                raise Violation('%s and single events differ:\n   %s\n   %s\n   %s\n   %s' % (b.ops[-1].args, y, x, cb, ca))
            ctx.state(x)
        return nsnap(a.net).events
    return Scenario(name, run)


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    for blocking in ('BAS', 'RS'):
        for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
            qs, ex = top(s1=(2, 5), s2=(3,), g1=(2,), g2=(4,))
            out.append(scen('%s %s' % (nm, blocking), c11, qs, exits=ex, start=first(2), steps=10 + 2 * e, blocking=blocking))
            qs, ex = top(QS, LQ, s1=(1,), s2=(3, 6), g1=(1, 2), g2=(9,), k2={'qbuffer': 0})
            out.append(scen('%s finite %s' % (nm, blocking), c11, qs, exits=ex, start=first(2), steps=9 + 2 * e, blocking=blocking))
            qs, ex = top(QS, LQ, s1=(1,), s2=(3, 6), g1=(1,), g2=(2, 4), k2={'qbuffer': 1}, k1={'active_cap': 2})
            out.append(scen('%s draining %s' % (nm, blocking), c11, qs, exits=ex, start=first(1), steps=12 + 2 * e, blocking=blocking))
        qs, ex = line(s1=(1,), s2=(1, 9), g1=(2, 4), g2=(2, 9), k1={'active_cap': 3}, k2={'active_cap': 1, 'num_servers': 2})
        out.append(scen('returning times %s' % blocking, c11, qs, exits=ex, start=first(2), steps=13, blocking=blocking))
        qs, ex = merge(QS, QS, LQ, s1=(1, 2), s2=(2,), s3=(3, 6), g1=(2,), g2=(3,), g3=(20,), k1={'active_cap': 3}, k2={'active_cap': 2}, k3={'qbuffer': 0})
        out.append(scen('merge %s' % blocking, c11, qs, exits=ex, start=first(2), steps=13 + e, blocking=blocking))
        qs, ex = fork(QS, LQ, LQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k1={'active_cap': 4}, k2={'qbuffer': 0}, k3={'qbuffer': 0})
        out.append(scen('fork %s' % blocking, c11, qs, exits=ex, start=first(2), steps=9 + e, blocking=blocking))
        for nm, top in (('loop', loop), ('cycle', cycle)):
            qs, ex = top(QS, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(4,), k2={'qbuffer': 0}, k1={'active_cap': 2})
            out.append(split('several events at once %s %s' % (nm, blocking), qs, ex, 4 + e, blocking=blocking))
    # ties: whole durations, several queues due at once
    for nm, top in (('line', line), ('cycle', cycle), ('loop', loop)):
        qs, ex = top(s1=(1, 2), s2=(1,), g1=(1, 2), g2=(2,), k2={'num_servers': 2})
        out.append(scen('ties %s' % nm, c11, qs, exits=ex, start=first(2), steps=8 + e, ties=True))
        for n2 in (1, 2):
            g, s = ((1, 2, 4), (1, 2, 3)) if nm == 'line' else ((1, 2), (1, 2))
            qs, ex = top(s1=(1, 2), s2=s, g1=g, g2=(5,), k1={'active_cap': 3}, k2={'num_servers': n2})
            out.append(scen('ties %s, one queue active, %d servers' % (nm, n2), c11, qs, exits=ex, start=first(1), steps=(9 if nm == 'line' else 7) + e, ties=True))
        qs, ex = top(QS, LQ, s1=(1, 2), s2=(1, 2), g1=(1, 2), g2=(3,), k1={'active_cap': 3, 'num_servers': 2}, k2={'qbuffer': 0, 'active_cap': 2})
        out.append(scen('ties %s, finite' % nm, c11, qs, exits=ex, start=first(2), steps=(8 if nm == 'line' else 7) + e, ties=True))
    for nm, top in (('line', line), ('cycle', cycle), ('loop', loop)):
        qs, ex = top(s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(1,), k2={'num_servers': 2})
        out.append(scen('nothing takes time, %s' % nm, c11, qs, exits=ex, start=first(2), steps=7 + e, ties=True))
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(0, 1), g1=(0,), g2=(0, 1), k1={'active_cap': 3}, k2={'qbuffer': 0, 'active_cap': 2})
        out.append(scen('nothing takes time, %s, finite' % nm, c11, qs, exits=ex, start=first(2), steps=8 + e, ties=True))
    # activated again on the way
    for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
        qs, ex = top(QS, LQ, s1=(1,), s2=(2,), g1=(1, 5), g2=(2, 7), k1={'active_cap': 2}, k2={'qbuffer': 0, 'active_cap': 2})
        again = [('initialize', (('queues', (0,)),)), ('initialize', (('queues', (1,)),))]
        out.append(scen('activated again, %s' % nm, c11, qs, 2, exits=ex, start=first(2), steps=9 + e, menu=again))
        out.append(scen('activated again with ties, %s' % nm, c11, qs, 1 + e, exits=ex, start=first(2), steps=8, ties=True, menu=again))
    # some services never end
    for blocking in ('BAS', 'RS'):
        for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
            for n2 in (1, 2):
                qs, ex = top(QS, LQ, s1=(1,) if nm == 'loop' else (1, 3), s2=(2, INF), g1=(1, 2), g2=(4,), k1={'active_cap': 4}, k2={'qbuffer': 1, 'num_servers': n2, 'active_cap': 1})
                for act in (1, 2):
                    out.append(scen('services without end, %s %s, %d servers, %d active' % (nm, blocking, n2, act), c11, qs, exits=ex, start=first(act), steps=(10 if nm == 'line' else 8) + e, blocking=blocking))
    out += deep.networks(c11, tier, menu=deep.MENU)
    return out
