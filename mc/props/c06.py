"""C06: finite capacity."""
import queueing_tool as qt
from mc import deep, nqmon
from mc.qmon import c06
from mc.qscen import scen, NPINF, GIVEN, ACTIVITY, DELAYS, SERVERS

ASSUMPTIONS = ['durations come from small alphabets, ties included; agents from elsewhere are handed over the way a network does it']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    for cls in (qt.LossQueue, qt.InfoQueue, qt.ResourceQueue):
        for srv in (1, 2, 3):
            for buf in (0, 1, 2, NPINF):
                out.append(scen('%s servers=%d buffer=%s' % (cls.__name__, srv, buf), c06, cls=cls, num_servers=srv, qbuffer=buf, steps=7 + 3 * e,
                                gaps=(1, 3), services=(4, 9)))
    menu = ACTIVITY + DELAYS + SERVERS
    for cls in (qt.LossQueue, qt.InfoQueue):
        out.append(scen('%s operations' % cls.__name__, c06, 2 + e, cls=cls, qbuffer=1, num_servers=2, steps=8 + e, gaps=(1,), services=(4, 9), menu=menu))
        out.append(scen('%s cap' % cls.__name__, c06, 2 + e, cls=cls, qbuffer=0, num_servers=1, steps=8 + e, gaps=(1,), services=(3, 9), menu=ACTIVITY, active_cap=4))
        out.append(scen('%s ties' % cls.__name__, c06, cls=cls, qbuffer=1, num_servers=1, steps=7 + e, gaps=(0, 1), services=(0, 1, 2), ties=True))
        out.append(scen('%s collecting' % cls.__name__, c06, cls=cls, qbuffer=1, num_servers=1, steps=9, gaps=(1, 2), services=(3, 9), collect=True))
    out.append(scen('infinite servers', c06, cls=qt.LossQueue, num_servers=NPINF, qbuffer=0, steps=7, gaps=(1, 3), services=(4, 9)))
    # large buffers, filled to the brim
    for cls in (qt.LossQueue, qt.InfoQueue, qt.ResourceQueue):
        for srv, buf in ((1, 70), (3, NPINF), (70, 2)):
            out.append(scen('%s long run servers=%d buffer=%s' % (cls.__name__, srv, buf), c06, cls=cls, num_servers=srv, qbuffer=buf, steps=150,
                            gaps=(1,), services=(1000,), ties=True))
            out.append(scen('%s long busy run servers=%d buffer=%s' % (cls.__name__, srv, buf), c06, cls=cls, num_servers=srv, qbuffer=buf, steps=200,
                            gaps=(0.25,), services=(1.5,), ties=True))
        for srv, buf in ((1, 3), (1, 4), (1, 6), (2, 5), (4, 1), (5, 0)):
            out.append(scen('%s filled servers=%d buffer=%s' % (cls.__name__, srv, buf), c06, cls=cls, num_servers=srv, qbuffer=buf, steps=12 + e,
                            gaps=(1,), services=(40,) if e == 0 else (9, 40)))
        for srv, buf in ((1, 0), (1, 1), (2, 0)):
            out.append(scen('%s agents from elsewhere servers=%d buffer=%s' % (cls.__name__, srv, buf), c06, 2 + e, cls=cls, num_servers=srv, qbuffer=buf, steps=7,
                            gaps=(1, 4), services=(2, 7), edge=(2, 3, 5, 2), menu=GIVEN, **({'net_size': 6} if cls is qt.InfoQueue else {})))
    out += deep.queues(c06, tier, (qt.LossQueue, qt.InfoQueue, qt.ResourceQueue), menu=menu, given=GIVEN)
    out += nqmon.scenarios(nqmon.c06, tier)
    return out
