"""C28: delay_service."""
import queueing_tool as qt
from mc.qsim import INF
from mc import deep
from mc.qmon import c28
from mc.qscen import scen, NPINF, ACTIVITY, SERVERS

ASSUMPTIONS = ['durations come from small alphabets; delays to a given time are tried before, between and after the other scheduled departures']


def at(x):
    return lambda env: env.q.current_time + x


def never(env):
    """Never, once; a second agent that never departs would leave open which of them is next."""
    if getattr(env, 'halted', False):
        return env.q.current_time + 5.0 + 2.0 ** -45
    env.halted = True
    return INF


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    menu = [('delay_service',)] + [('delay_service', at(x + 2.0 ** -45)) for x in (0.25, 3.0, 30.0)] + [('delay_service', never)]
    out = []
    for cls, kw in ((qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 1}), (qt.InfoQueue, {}), (qt.ResourceQueue, {})):
        for srv in (1, 2, 3):
            out.append(scen('%s servers=%d' % (cls.__name__, srv), c28, 2 + e, cls=cls, num_servers=srv, steps=8 + e, gaps=(1,), services=(2, 5), menu=menu, **kw))
    far = [('delay_service', at(x)) for x in (2.0 + 2.0 ** -45, 9.0 + 2.0 ** -45, 40.0 + 2.0 ** -45)]
    for cls in (qt.QueueServer, qt.LossQueue):
        out.append(scen('%s four servers' % cls.__name__, c28, 2 + e, cls=cls, num_servers=4, steps=9, gaps=(1,), services=(5, 6), active_cap=4, menu=far))
    out.append(scen('with activity', c28, 2 + e, num_servers=2, steps=8, gaps=(1,), services=(3, 4), menu=menu[:2] + ACTIVITY + SERVERS))
    out.append(scen('idle', c28, 2, num_servers=2, steps=4, gaps=(1,), services=(3, 4), menu=menu, activate=False))
    for cls in (qt.QueueServer, qt.LossQueue):
        for cap in (1, 2):
            out.append(scen('%s halted, %d agents' % (cls.__name__, cap), c28, 3 + e, num_servers=1, cls=cls, steps=8, gaps=(1,), services=(2, 5), active_cap=cap, menu=menu))
    out += deep.queues(c28, tier, menu=menu + ACTIVITY + SERVERS)
    return out
