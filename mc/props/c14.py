"""C14: blocking inside a network."""
from mc import deep
from mc.explore import FREE, DEV
from mc.nmon import c14
from mc.nscen import scen, line, loop, cycle, merge, fork, first, QS, LQ, IQ, RQ

ASSUMPTIONS = ['durations and destinations come from small alphabets; every destination choice of every attempt is explored',
               'no circle of queues that all wait for each other (blocking after service then makes no progress, as documented)']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    for blocking in ('BAS', 'RS'):
        for buf in (0, 1):
            for nm, top in (('line', line), ('loop', loop)):
                qs, ex = top(QS, LQ, s1=(1, 2), s2=(3, 5), g1=(1,), g2=(9,), k2={'qbuffer': buf})
                out.append(scen('%s buffer=%d %s' % (nm, buf, blocking), c14, qs, exits=ex, start=first(1), steps=(10 if nm == 'line' else 8) + e, blocking=blocking))
                qs, ex = top(LQ, LQ, s1=(1,), s2=(3, 5), g1=(1,), g2=(2, 4), k1={'qbuffer': 1}, k2={'qbuffer': buf})
                out.append(scen('%s outside arrivals buffer=%d %s' % (nm, buf, blocking), c14, qs, exits=ex, start=first(2), steps=9 + e, blocking=blocking))
                qs, ex = top(QS, LQ, s1=(1, 2), s2=(1, 2), g1=(1,), g2=(1, 2), k2={'qbuffer': buf})
                out.append(scen('%s ties buffer=%d %s' % (nm, buf, blocking), c14, qs, exits=ex, start=first(2), steps=8 + e, ties=True, blocking=blocking))
        qs, ex = line(QS, LQ, s1=(1, 2), s2=(4,), g1=(1,), g2=(3, 9), k1={'num_servers': 2}, k2={'qbuffer': 0, 'num_servers': 2})
        out.append(scen('two servers %s' % blocking, c14, qs, exits=ex, start=first(2), steps=10 + 2 * e, blocking=blocking))
        qs, ex = merge(LQ, QS, LQ, s1=(1, 2), s2=(2,), s3=(4, 7), g1=(1,), g2=(3,), g3=(9,), k3={'qbuffer': 0}, k1={'qbuffer': 1})
        out.append(scen('merge %s' % blocking, c14, qs, exits=ex, start=first(2), steps=11 + 2 * e, blocking=blocking))
        qs, ex = fork(QS, LQ, LQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k2={'qbuffer': 0}, k3={'qbuffer': 0})
        out.append(scen('fork %s' % blocking, c14, qs, exits=ex, start=first(1), steps=10 + e, blocking=blocking))
        qs, ex = fork(QS, IQ, LQ, s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k2={'qbuffer': 0}, k3={'qbuffer': 1})
        out.append(scen('fork information %s' % blocking, c14, qs, exits=ex, start=first(1), steps=10 + e, blocking=blocking))
        qs, ex = cycle(QS, LQ, s1=(1, 2), s2=(3,), g1=(1,), g2=(4,), k2={'qbuffer': 1})
        out.append(scen('cycle %s' % blocking, c14, qs, exits=ex, start=first(1), steps=9 + e, blocking=blocking))
        qs, ex = line(LQ, LQ, s1=(1,), s2=(4,), g1=(1,), g2=(9,), k1={'qbuffer': 0, 'active_cap': 4}, k2={'qbuffer': 0})
        qs = qs + [type(qs[0])((2, 3), LQ, (9,), (6, 8), {'qbuffer': 0})]
        out.append(scen('three in line %s' % blocking, c14, qs, exits=[(3, 4)], start=first(1), steps=13 + e, blocking=blocking))
        for buf in (0, 1):
            for nm, top in (('line', line), ('cycle', cycle)):
                qs, ex = top(QS, LQ, s1=(1, 2), s2=(3, 6), g1=(1,), g2=(9,), k1={'num_servers': 2, 'active_cap': 5}, k2={'qbuffer': buf, 'num_servers': 3 - buf})
                out.append(scen('%s fewer servers buffer=%d %s' % (nm, buf, blocking), c14, qs, (2 if nm == 'line' else 1) + e, exits=ex, start=first(1), steps=10 + e, blocking=blocking,
                                menu=[('servers', 1, 1), ('servers', 1, 2)] if buf == 0 else [('servers', 1, 1)], route_kind=FREE if nm == 'line' else DEV))
    for b, then in (('rs', None), ('bas', None), ('Rs', 'bas'), ('BAS', 'RS'), ('BAS', 'rs'), ('RS', 'BAS'), ('rs', 'Bas'), ('RS', 'rs')):
        qs, ex = line(QS, LQ, s1=(1, 2), s2=(3, 5), g1=(1,), g2=(9,), k2={'qbuffer': 0})
        out.append(scen('line, blocking=%s%s' % (b, ', then %s' % then if then else ''), c14, qs, exits=ex, start=first(1), steps=8, blocking=b, setter=then))
    for nm, top in (('line', line), ('cycle', cycle), ('loop', loop)):
        qs, ex = top(s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(1,), k2={'num_servers': 2})
        out.append(scen('nothing takes time, %s' % nm, c14, qs, exits=ex, start=first(2), steps=7 + e, ties=True))
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(0, 1), g1=(0,), g2=(0, 1), k1={'active_cap': 3}, k2={'qbuffer': 0, 'active_cap': 2})
        out.append(scen('nothing takes time, %s, finite' % nm, c14, qs, exits=ex, start=first(2), steps=8 + e, ties=True))
    for b in ('BAS', 'RS'):
        # the same agents refused hundreds of times
        for nm, top in (('line', line), ('cycle', cycle), ('loop', loop)):
            qs, ex = top(QS, LQ, s1=(1, 2), s2=(9000, 400) if b == 'RS' else (1, 2), g1=(1, 3), g2=(20000,), k1={'num_servers': 2 if b == 'RS' else 60, 'active_cap': 20 if b == 'RS' else 120}, k2={'qbuffer': 0, 'active_cap': 1})
            out.append(deep.network('blocked hundreds of times, %s %s' % (nm, b), c14, top=(qs, ex), words_=(1, 2), steps=900, start=[0], blocking=b))
    out += deep.networks(c14, tier, menu=deep.MENU)
    return out
