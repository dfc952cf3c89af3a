"""C15: max_agents."""
from mc import deep
from mc.nmon import c15
from mc.nscen import scen, line, loop, cycle, merge, fork, first, QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations and destinations come from small alphabets; maxima 1 to 4']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    re0 = ('initialize', {'queues': [0]})
    re1 = ('initialize', {'queues': [1]})
    both = ('initialize', {'queues': [0, 1]})
    for mx in (1, 2, 3, 4):
        for nm, top in (('line', line), ('loop', loop), ('cycle', cycle)):
            qs, ex = top(s1=(1, 4), s2=(3,), g1=(1, 3), g2=(2,))
            out.append(scen('%s max=%d' % (nm, mx), c15, qs, exits=ex, start=first(2), steps=8 + e, max_agents=mx))
        qs, ex = line(QS, LQ, s1=(1, 4), s2=(3,), g1=(1,), g2=(2, 4), k2={'qbuffer': 0})
        out.append(scen('finite max=%d' % mx, c15, qs, exits=ex, start=first(2), steps=9 + e, max_agents=mx))
        qs, ex = merge(s1=(1, 5), s2=(1,), s3=(2,), g1=(1,), g2=(1, 3), g3=(2,))
        out.append(scen('merge max=%d' % mx, c15, qs, exits=ex, start=first(3), steps=8 + e, max_agents=mx))
        qs, ex = line(s1=(2,), s2=(3,), g1=(1, 2), g2=(2,))
        out.append(scen('initialised again max=%d' % mx, c15, qs, 2 + e, exits=ex, start=first(1), steps=9 + e, max_agents=mx, menu=[re0, re1, both]))
        for nm, top in (('line', line), ('cycle', cycle)):
            qs, ex = top(s1=(1, 2), s2=(2,), g1=(1, 2), g2=(2,))
            out.append(scen('%s ties max=%d' % (nm, mx), c15, qs, exits=ex, start=first(2), steps=8 + e, max_agents=mx, ties=True))
            qs, ex = top(s1=(1, 2, 3), s2=(9,), g1=(2,), g2=(1, 2, 4))
            out.append(scen('%s second queue due with an agent from the first max=%d' % (nm, mx), c15, qs, exits=ex, start=first(2), steps=8 + e, max_agents=mx, ties=True))
        qs, ex = cycle(RQ, RQ, s1=(1,), s2=(3,), g1=(1, 2), g2=(4,), k1={'num_servers': 3, 'qbuffer': 3}, k2={'num_servers': 3, 'qbuffer': 3})
        out.append(scen('resources max=%d' % mx, c15, qs, exits=ex, start=first(2), steps=8 + e, max_agents=mx))
    for mx in (1, 2, 3):
        for nm, top in (('line', line), ('loop', loop), ('merge', merge)):
            for flip in (False, True):
                qs, ex = top(s1=(0, 2), s2=(0, 1), g1=(0, 1), g2=(1,))
                out.append(scen('%s max=%d, nothing takes time%s' % (nm, mx, ', flipped' if flip else ''), c15, qs, exits=ex, start=first(len(qs)), steps=7 + e, max_agents=mx, ties=True, flip=flip))
    for m in (3, 12, 40):
        out += deep.networks(c15, tier, ('plain', 'finite', 'resource'), menu=deep.MENU, name='max=%d ' % m, max_agents=m)
    return out
