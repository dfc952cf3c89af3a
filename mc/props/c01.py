"""C01: service discipline."""
import queueing_tool as qt
from mc import deep, nqmon
from mc.qmon import c01
from mc.qscen import scen, close, NPINF, GIVEN, ACTIVITY, DELAYS

ASSUMPTIONS = ['durations come from small alphabets; in tie-free scenarios all event times are distinct, in tie scenarios they may coincide',
               'single queues, and every queue of small and large networks']


def scenarios(tier):
    big = tier == 'thorough'
    e = 1 if big else 0
    out = []
    sizes = [('set_num_servers', n) for n in (1, 2, 3, 5, NPINF)]
    for srv in (1, 2, 3, NPINF):
        out.append(scen('servers=%s' % srv, c01, num_servers=srv, steps=8 + 3 * e, gaps=(1, 4), services=(3, 7)))
        out.append(scen('ties servers=%s' % srv, c01, num_servers=srv, steps=(7 if srv in (1, 2) else 6) + e, gaps=(0, 1), services=(0, 1, 2), ties=True))
    for srv in (1, 2, NPINF):
        out.append(scen('resize servers=%s' % srv, c01, 2 + e, num_servers=srv, steps=8 + e, gaps=(1,), services=(4, 9), menu=sizes))
    out.append(scen('grow shrink grow', c01, 3 + e, num_servers=3, steps=9 + e, gaps=(1,), services=(20,), menu=sizes[:4]))
    out.append(scen('resize ties', c01, 2 + e, num_servers=2, steps=6 + e, gaps=(0, 1), services=(1, 2), ties=True, menu=sizes[:3]))
    out.append(scen('loss resize', c01, 2 + e, cls=qt.LossQueue, qbuffer=2, num_servers=2, steps=9 + e, gaps=(1,), services=(3, 8), menu=sizes[:3] + sizes[4:]))
    out.append(scen('loss', c01, cls=qt.LossQueue, qbuffer=1, num_servers=1, steps=9 + 2 * e, gaps=(1, 2), services=(2, 5)))
    out.append(scen('info', c01, cls=qt.InfoQueue, num_servers=2, steps=7 + e, gaps=(1, 2), services=(3, 7)))
    out.append(scen('resource queue, plain agents', c01, cls=qt.ResourceQueue, agent=qt.Agent, num_servers=3, qbuffer=2, steps=8 + e, gaps=(1, 2), services=(3, 7)))
    out.append(scen('resource queue', c01, cls=qt.ResourceQueue, num_servers=3, steps=8 + e, gaps=(1, 2), services=(3, 7)))
    for srv in (1, 3):
        out.append(scen('resource queue resize servers=%d' % srv, c01, 2 + e, cls=qt.ResourceQueue, num_servers=srv, qbuffer=3, steps=8 + e, gaps=(1,), services=(3, 9), menu=sizes[:4]))
        out.append(scen('resource queue resize, plain agents, servers=%d' % srv, c01, 2 + e, cls=qt.ResourceQueue, agent=qt.Agent, num_servers=srv, qbuffer=3, steps=8 + e, gaps=(1,), services=(3, 9), menu=sizes[:4]))
    out.append(scen('activity and delays', c01, 2, num_servers=2, steps=8 + e, gaps=(1, 3), services=(4,), menu=ACTIVITY + DELAYS))
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1})):
        out.append(scen('%s agents from elsewhere' % cls.__name__, c01, 3, cls=cls, num_servers=2, steps=7, gaps=(1, 4), services=(2, 7), menu=GIVEN, **kw))
    out += close(c01, e)
    out += deep.queues(c01, tier, menu=sizes + DELAYS + ACTIVITY, given=GIVEN)
    out += nqmon.scenarios(nqmon.c01, tier)
    return out
