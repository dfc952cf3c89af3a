"""C12: agents in a network are conserved and counted."""
from mc import deep
from mc.nmon import c12
from mc.nsim import INF
from mc.nscen import scen, line, loop, cycle, merge, fork, first, QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations and destinations come from small alphabets; every destination choice is explored']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    for blocking in ('BAS', 'RS'):
        for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
            qs, ex = top(s1=(2, 5), s2=(3,), g1=(2,), g2=(4,), k2={'num_servers': 2})
            out.append(scen('%s %s' % (nm, blocking), c12, qs, exits=ex, start=first(2), steps=9 + 2 * e, blocking=blocking))
            qs, ex = top(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 1})
            out.append(scen('%s finite %s' % (nm, blocking), c12, qs, exits=ex, start=first(2), steps=10 + 2 * e, blocking=blocking))
            qs, ex = top(s1=(1, 2), s2=(2,), g1=(1, 2), g2=(2,))
            out.append(scen('%s ties %s' % (nm, blocking), c12, qs, exits=ex, start=first(2), steps=8 + e, ties=True, blocking=blocking))
        qs, ex = merge(QS, QS, LQ, s1=(1, 4), s2=(2,), s3=(3,), g1=(2,), g2=(3,), g3=(5, 20), k3={'qbuffer': 0})
        out.append(scen('merge %s' % blocking, c12, qs, exits=ex, start=first(3), steps=10 + 2 * e, blocking=blocking))
        qs, ex = fork(QS, LQ, IQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k2={'qbuffer': 0}, k3={'qbuffer': 1})
        out.append(scen('fork %s' % blocking, c12, qs, exits=ex, start=first(2), steps=9 + 2 * e, blocking=blocking))
    for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
        for n2 in (1, 2):
            g, s = ((1, 2, 4), (1, 2, 3)) if nm == 'line' else ((1, 2), (1, 2))
            qs, ex = top(s1=(1, 2), s2=s, g1=g, g2=(5,), k1={'active_cap': 3}, k2={'num_servers': n2})
            out.append(scen('ties %s, one queue active, %d servers' % (nm, n2), c12, qs, exits=ex, start=first(1), steps=(9 if nm == 'line' else 7) + e, ties=True))
        qs, ex = top(QS, LQ, s1=(1, 2), s2=(1, 2), g1=(1, 2), g2=(3,), k1={'active_cap': 3, 'num_servers': 2}, k2={'qbuffer': 0, 'active_cap': 2})
        out.append(scen('ties %s, finite' % nm, c12, qs, exits=ex, start=first(2), steps=8 + e, ties=True))
    qs, ex = loop(QS, LQ, s1=(1,), s2=(3,), g1=(1,), g2=(2,), k1={'active_cap': 3}, k2={'qbuffer': 0, 'active_cap': 2})
    out.append(scen('capped', c12, qs, exits=ex, start=first(2), steps=12 + e))
    qs, ex = cycle(IQ, IQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,))
    out.append(scen('information queues', c12, qs, exits=ex, start=first(2), steps=9 + e))
    qs, ex = cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,), k1={'num_servers': 3, 'qbuffer': 3}, k2={'num_servers': 3, 'qbuffer': 3})
    out.append(scen('resource queues', c12, qs, exits=ex, start=first(2), steps=8 + e))
    for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
        for n2 in (1, 3):
            qs, ex = top(RQ, RQ, s1=(1, 3), s2=(2, 3), g1=(2,), g2=(1, 4), k1={'num_servers': 2, 'qbuffer': 2, 'active_cap': 3}, k2={'num_servers': n2, 'qbuffer': 1, 'active_cap': n2})
            out.append(scen('resource queues with caps, %s, %d servers' % (nm, n2), c12, qs, exits=ex, start=first(2), steps=10 + e))
    qs, ex = cycle(s1=(1, 3), s2=(3,), g1=(2,), g2=(4,))
    out.append(scen('few agents', c12, qs, exits=ex, start=first(2), steps=10 + e, max_agents=3))
    for nm, top in (('line', line), ('cycle', cycle), ('loop', loop)):
        qs, ex = top(s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(1,), k2={'num_servers': 2})
        out.append(scen('nothing takes time, %s' % nm, c12, qs, exits=ex, start=first(2), steps=7 + e, ties=True))
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(0, 1), g1=(0,), g2=(0, 1), k1={'active_cap': 3}, k2={'qbuffer': 0, 'active_cap': 2})
        out.append(scen('nothing takes time, %s, finite' % nm, c12, qs, exits=ex, start=first(2), steps=8 + e, ties=True))
    # some services never end
    for blocking in ('BAS', 'RS'):
        for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
            for n2 in (1, 2):
                qs, ex = top(QS, LQ, s1=(1,) if nm == 'loop' else (1, 3), s2=(2, INF), g1=(1, 2), g2=(4,), k1={'active_cap': 4}, k2={'qbuffer': 1, 'num_servers': n2, 'active_cap': 1})
                for act in (1, 2):
                    out.append(scen('services without end, %s %s, %d servers, %d active' % (nm, blocking, n2, act), c12, qs, exits=ex, start=first(act), steps=(10 if nm == 'line' else 8) + e, blocking=blocking))
    out += deep.networks(c12, tier, menu=deep.MENU)
    return out
