"""C03: external arrivals, activation, cap, deactivation time."""
import queueing_tool as qt
from mc import deep, nqmon
from mc.qmon import c03
from mc.qscen import scen, NPINF, ACTIVITY, GIVEN

ASSUMPTIONS = ['durations come from small alphabets; external arrivals next to internal ones are covered by C12 and C14']


def scenarios(tier):
    e = 1 if tier == 'thorough' else 0
    out = []
    classes = [(qt.QueueServer, {}), (qt.LossQueue, {'qbuffer': 0}), (qt.InfoQueue, {'net_size': 2}), (qt.ResourceQueue, {'num_servers': 2})]
    for cls, kw in classes:
        kw = dict({'num_servers': 1}, **kw)
        nm = cls.__name__
        out.append(scen(nm + ' toggle', c03, 3 + e, cls=cls, steps=9 + e, gaps=(1, 4), services=(3,), menu=ACTIVITY, **kw))
        for cap in (0, 1, 2, 3):
            out.append(scen('%s cap=%d' % (nm, cap), c03, 3 + e, cls=cls, steps=8 + e, gaps=(1, 4), services=(3,), menu=ACTIVITY, active_cap=cap, **kw))
        for dt in (0, 1, 2.5, 4, 9):
            out.append(scen('%s deactivate at %s' % (nm, dt), c03, 2 + e, cls=cls, steps=8, gaps=(1, 4), services=(3,), menu=ACTIVITY, deactive_t=dt, **kw))
        out.append(scen('%s deactivation tie' % nm, c03, 2, cls=cls, steps=7, gaps=(0, 1, 2), services=(3,), ties=True, menu=ACTIVITY, deactive_t=2, **kw))
        out.append(scen('%s cap and time' % nm, c03, 2, cls=cls, steps=8, gaps=(1, 4), services=(3,), menu=ACTIVITY, deactive_t=5.5, active_cap=3, **kw))
        if cls is not qt.ResourceQueue:
            gk = dict(kw, edge=(2, 3, 5, 2), net_size=6) if cls is qt.InfoQueue else dict(kw, edge=(2, 3, 5, 2))
            for cap in (1, 2, 3):
                out.append(scen('%s cap=%d, agents from elsewhere' % (nm, cap), c03, 2 + e, cls=cls, steps=8 + e, gaps=(1, 4), services=(3,), menu=GIVEN[:2], active_cap=cap, **gk))
            out.append(scen('%s agents from elsewhere' % nm, c03, 3, cls=cls, steps=6 + e, gaps=(1, 4), services=(3,), menu=GIVEN[:2] + ACTIVITY, active_cap=3, **gk))
            out.append(scen('%s deactivated, agents from elsewhere' % nm, c03, 3, cls=cls, steps=6 + e, gaps=(1, 4), services=(3,), menu=GIVEN[:2] + ACTIVITY, deactive_t=4.5, **gk))
            out.append(scen('%s inactive, agents from elsewhere' % nm, c03, 3, cls=cls, steps=5 + e, gaps=(1, 4), services=(3,), menu=GIVEN[:2] + ACTIVITY, activate=False, active_cap=1, **gk))
        out.append(scen('%s long run' % nm, c03, 1, cls=cls, steps=120, gaps=(1,), services=(2.5,), ties=True, active_cap=55, **kw))
        out.append(scen('%s never active' % nm, c03, 2, cls=cls, steps=5, gaps=(1, 4), services=(3,), menu=ACTIVITY[1:] , activate=False, **kw))
    for k in ({}, {'active_cap': 70}, {'deactive_t': 150.0}):
        out += deep.queues(c03, tier, menu=ACTIVITY, given=GIVEN[:2] if not k else (), name=str(k), **k)
    out += nqmon.scenarios(nqmon.c03, tier, caps=True)
    return out
