"""C02: conservation, counters, notifications, ids."""
import queueing_tool as qt
from mc import deep, nqmon
from mc.qmon import c02
from mc.qscen import scen, NPINF, GIVEN, ACTIVITY, DELAYS, SERVERS

ASSUMPTIONS = ['durations come from small alphabets, ties included', 'agents from elsewhere are handed over the way a network does it; whole networks are covered by C12']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1}), (qt.LossQueue, {'qbuffer': 0}), (qt.InfoQueue, {'qbuffer': 1}),
                    (qt.InfoQueue, {}), (qt.ResourceQueue, {'qbuffer': 1}), (qt.ResourceQueue, {})):
        for srv in (1, 2):
            n = '%s %s servers=%d' % (cls.__name__, kw, srv)
            out.append(scen(n, c02, cls=cls, num_servers=srv, steps=8 + 2 * e, gaps=(1, 4), services=(2, 7), edge=(2, 3, 5, 2), net_size=6, **kw)
                       if cls is qt.InfoQueue else
                       scen(n, c02, cls=cls, num_servers=srv, steps=8 + 2 * e, gaps=(1, 4), services=(2, 7), edge=(2, 3, 5, 2), **kw))
    out.append(scen('ties', c02, num_servers=2, steps=7 + e, gaps=(0, 1), services=(0, 1, 2), ties=True))
    out.append(scen('ties loss', c02, cls=qt.LossQueue, qbuffer=1, num_servers=1, steps=7 + e, gaps=(0, 1), services=(0, 1, 2), ties=True))
    out.append(scen('infinite servers', c02, num_servers=NPINF, steps=8 + e, gaps=(1, 3), services=(2, 7)))
    menu = ACTIVITY + DELAYS + SERVERS
    out.append(scen('operations', c02, 2 + e, num_servers=2, steps=8, gaps=(1,), services=(2, 5), menu=menu))
    out.append(scen('operations loss', c02, 2 + e, cls=qt.LossQueue, qbuffer=1, num_servers=2, steps=8, gaps=(1,), services=(2, 5), menu=menu))
    out.append(scen('operations cap', c02, 2 + e, num_servers=1, steps=9, gaps=(1,), services=(2, 5), menu=ACTIVITY, active_cap=3))
    out.append(scen('operations, everybody turned away while one is served', c02, 2 + e, cls=qt.LossQueue, qbuffer=0, num_servers=1, steps=11 + e, gaps=(1,), services=(3, 5), menu=ACTIVITY))
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 0}), (qt.LossQueue, {'qbuffer': 1}), (qt.InfoQueue, {'qbuffer': 0, 'net_size': 6}), (qt.ResourceQueue, {'qbuffer': 1})):
        for on in (True, False):
            out.append(scen('%s %s agents from elsewhere%s' % (cls.__name__, kw, '' if on else ', inactive'), c02, (3 if cls is qt.LossQueue else 2) + e, cls=cls, num_servers=1, steps=(6 if e == 0 and cls is qt.LossQueue else 7), gaps=(1, 4), services=(2, 7),
                            edge=(2, 3, 5, 2), menu=GIVEN if on else GIVEN[:2], activate=on, **kw))
    out += deep.queues(c02, tier, menu=SERVERS + DELAYS + ACTIVITY, given=GIVEN)
    out += nqmon.scenarios(nqmon.c02, tier, resources=False)
    return out
