"""Scenario builder for single queues: a run of operations chosen by the explorer, then monitors."""
import zlib

import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import qsim
from mc.qsim import INF

NPINF = np.infty


def run_queue(ctx, monitors, cls=None, steps=8, menu=(), activate=True, gaps=(1, 3), services=(2, 5), ties=False,
              agent=None, collect=False, menu_kind=DEV, start=(), **kw):
    """`menu` lists (operation, args...) tuples tried, as deviations, instead of processing one event."""
    env = qsim.QEnv(ctx, cls, agent=agent, gaps=gaps, services=services, ties=ties, collect_data=collect, **kw)
    if activate:
        env.op('set_active')
    for name, args in start:
        env.op(name, *args)
    for _ in range(steps):
        k = ctx.choose(1 + len(menu), menu_kind) if menu else 0
        if k == 0:
            env.sim()
        else:
            m = menu[k - 1]
            args = tuple(a(env) if callable(a) else a for a in m[1:])
            (env.give(*args) if m[0] == 'give' else env.op(m[0], *args))
    ds = qsim.track(env.ops)
    for mon in monitors:
        mon(env, ds)
    for d in ds:
        ctx.state((tuple(d.line), tuple(sorted(d.serving.items())), tuple(sorted(d.pending.items())), d.op.post))
    return env, ds


def mixed(name, bit):
    """Which of the variants a scenario belongs to, fixed by its name."""
    return zlib.crc32(name.encode()) >> (7 * bit) & 1 == 1


def scen(name, monitor, bound=0, **kw):
    """Half of the scenarios, and all with a menu, run with data collection on, which must not matter."""
    kw.setdefault('collect', bool(kw.get('menu')) or mixed(name, 1))

    def run(ctx):
        env, ds = run_queue(ctx, [monitor], **kw)
        return tuple((tuple(d.arrived), tuple(s[0] for s in d.started), tuple(d.departed), tuple(d.lost)) for d in ds)
    return Scenario(name, run, bound)


SERVERS = [('set_num_servers', 1), ('set_num_servers', 2), ('set_num_servers', 3)]
ACTIVITY = [('set_active',), ('set_inactive',)]
GIVEN = [('give', 0), ('give', 'half'), ('give', 'tie')]
DELAYS = [('delay_service',), ('delay_service', lambda env: env.q.current_time + 6.0 + 2.0 ** -45)]


def close(monitor, e, cap=3):
    """Events that follow each other by next to nothing."""
    d = 2.0 ** -40
    out = []
    for nm, cls, kw in (('server', qt.QueueServer, {}), ('loss', qt.LossQueue, {'qbuffer': 0}), ('resource', qt.ResourceQueue, {'qbuffer': 2})):
        for srv in (1, 2):
            out.append(scen('%s, %d servers, times nearly equal' % (nm, srv), monitor, cls=cls, num_servers=srv, steps=7 + e, ties=True, gaps=(1, 1 + d), services=(1, 1 + d, 2 - d), **kw))
        out.append(scen('%s, times nearly equal, activity' % nm, monitor, 2 + e, cls=cls, num_servers=2, steps=6 + e, ties=True, gaps=(1, 1 + d), services=(1, 1 + d, 1 - d), menu=ACTIVITY, **kw))
        out.append(scen('%s, moments that last' % nm, monitor, 1 + e, cls=cls, num_servers=2, steps=7 + e, ties=True, gaps=(d, 0), services=(1, d, 0), menu=ACTIVITY, **kw))
        out.append(scen('%s, services without end' % nm, monitor, 2 + e, cls=cls, num_servers=2, steps=8 + e, gaps=(1, 3), services=(2, INF), menu=ACTIVITY + SERVERS[1:], **kw))
    return out
