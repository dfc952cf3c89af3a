"""C04: clock, next-event time and kind."""
import queueing_tool as qt
from mc import deep, nqmon
from mc.qmon import c04
from mc.qscen import scen, close, NPINF, ACTIVITY, DELAYS, SERVERS

ASSUMPTIONS = ['durations come from small alphabets, ties included; which of two simultaneous events goes first is left open']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    menu = ACTIVITY + DELAYS + SERVERS
    classes = [(qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1}), (qt.InfoQueue, {'net_size': 1, 'qbuffer': 1}), (qt.ResourceQueue, {})]
    for cls, kw in classes:
        nm = cls.__name__
        for srv in (1, 2):
            out.append(scen('%s servers=%d' % (nm, srv), c04, cls=cls, steps=9 + 2 * e, gaps=(1, 4), services=(2, 7), num_servers=srv, **kw))
        out.append(scen('%s ties' % nm, c04, cls=cls, steps=6 + e, gaps=(0, 1), services=(0, 1, 2), ties=True, num_servers=2, **kw))
        out.append(scen('%s operations' % nm, c04, 2 + e, cls=cls, steps=8, gaps=(1,), services=(2, 5), num_servers=2, menu=menu if cls is not qt.ResourceQueue else menu[:2], **kw))
        out.append(scen('%s draining' % nm, c04, 2 + e, cls=cls, steps=10, gaps=(1,), services=(2, 5), num_servers=2, active_cap=3, menu=menu[:4] if cls is not qt.ResourceQueue else menu[:2], **kw))
        out.append(scen('%s deactivation' % nm, c04, 2 + e, cls=cls, steps=9, gaps=(1, 2), services=(2, 5), num_servers=2, deactive_t=3.5, menu=menu[:2], **kw))
        out.append(scen('%s start idle' % nm, c04, 2, cls=cls, steps=7, gaps=(1, 2), services=(2,), num_servers=2, activate=False, menu=ACTIVITY, **kw))
    out += close(c04, e)
    out += deep.queues(c04, tier, menu=menu)
    out += nqmon.scenarios(nqmon.c04, tier)
    return out
