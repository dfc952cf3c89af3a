"""C07: collected data rows tell each visit truthfully."""
import collections

import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import deep, nsim, nscen, qsim, qscen
from mc.nsim import Q, INF, nfail
from mc.nscen import QS, LQ, IQ, RQ
from mc.qsim import fail

ASSUMPTIONS = ['durations come from small alphabets',
               'times of an event that happened while collection was off stay zero in a row begun before']


def rows_of(q):
    a = q.fetch_data()
    rows = [tuple(float(x) for x in r) for r in a]
    a[...] = -7         # it belongs to the caller
    return rows


class Book(object):
    """The rows a queue ought to have."""

    def __init__(self, index, on):
        self.index, self.on, self.rows, self.open = index, on, [], {}

    def arrive(self, sid, t, waiting, total):
        self.open.pop(sid, None)
        if self.on:
            self.open[sid] = r = [t, 0.0, 0.0, float(waiting), float(total), float(self.index)]
            self.rows.append(r)

    def start(self, sid, t):
        if self.on and sid in self.open:
            self.open[sid][1] = t

    def depart(self, sid, t):
        r = self.open.pop(sid, None)
        if self.on and r is not None:
            r[2] = t

    def single(self, t, waiting, total, times=0.0):
        if self.on:
            self.rows.append([t, times, times, float(waiting), float(total), float(self.index)])

    def forget(self):
        self.rows, self.open = [], {}

    def judge(self, got, bad):
        if [r[0] for r in got] != sorted(r[0] for r in got):
            bad('the rows of queue %d are not in order of arrival: %s' % (self.index, got))
        want = sorted(tuple(r) for r in self.rows)
        if sorted(got) != want:
            x = collections.Counter(got)
            x.subtract(collections.Counter(want))
            bad('queue %d: rows that should not be there %s, rows that are missing %s' % (
                self.index, [k for k, n in x.items() if n > 0], [k for k, n in x.items() if n < 0]))


# ---------------------------------------------------------------- one queue
def flip(env, on):
    def set_collect():
        env.q.collect_data = on
    env.q_set = set_collect
    o = qsim.snap(env.q)
    set_collect()
    p = qsim.snap(env.q)
    if o != p:
        raise Violation('turning collection %s changed the queue' % on)
    env.ops.append(qsim.Op('collect', (on,), o, p, [], None))


def one(name, cls, bound=2, steps=8, toggles=True, menu=(), edge=(2, 5, 3, 1), first=True, words=None, gaps=(1, 3), services=(2, 5), **kw):
    """One queue; collection is turned on and off, data are cleared and read in between."""
    def run(ctx):
        kw['draw'] = deep.Pattern(deep.words(ctx, words, len(gaps), len(services))).queue({'A': gaps, 'S': services}) if words else None
        env = qsim.QEnv(ctx, cls, edge=edge, collect_data=first, gaps=gaps, services=services, **kw)
        env.op('set_active')
        got = [rows_of(env.q)]
        acts = (['flip', 'clear'] if toggles else []) + list(menu)
        on = first
        for _ in range(steps):
            k = ctx.choose(1 + len(acts), DEV) if acts else 0
            if k == 0:
                env.sim()
            elif acts[k - 1] == 'flip':
                on = not on
                flip(env, on)
            elif acts[k - 1] == 'clear':
                env.q.data = {}
                env.ops.append(qsim.Op('forget', (), qsim.snap(env.q), qsim.snap(env.q), [], None))
            else:
                m = acts[k - 1]
                env.op(m[0], *m[1:])
            a, s0 = rows_of(env.q), qsim.snap(env.q)
            if rows_of(env.q) != a or qsim.snap(env.q) != s0:
                raise Violation('reading the data changes them or the queue')
            h = env.q.fetch_data(return_header=True)
            if [tuple(map(float, r)) for r in h[0]] != a or h[1] != 'arrival,service,departure,num_queued,num_total,q_id':
                raise Violation('the data with a header are different')
            got.append(a)
        book = Book(edge[2], first)
        for d, g in zip(qsim.track(env.ops), got):
            o = d.op
            if d.bad:
                fail(d, d.bad)
            if o.name == 'collect':
                book.on = o.args[0]
            elif o.name == 'forget':
                book.forget()
            # inside one event: departure, then service from the line; or the arrival, then its service
            now = o.post.now
            for a in d.departed:
                book.depart(a, now)
            for a in d.lost:
                book.single(now, len(d.line0), len(d.line0) + len(d.serving0))
            for a in d.arrived:
                book.arrive(a, now, len(d.line), len(d.line) + len(d.serving))
            for a, t, r in d.started:
                book.start(a, t)
            book.judge(g, lambda m: fail(d, m))
            ctx.state((tuple(map(tuple, book.rows)), o.post))
        return tuple(map(tuple, book.rows))
    return Scenario(name, run, bound)


# ---------------------------------------------------------------- networks
def walk(env, ds, got, start):
    books = [Book(e, start) for e in range(env.nE)]
    for d, g in zip(ds, got):
        o = d.op
        if d.bad:
            nfail(d, d.bad)
        args = dict(a for a in o.args if isinstance(a, tuple))
        if o.name in ('start_collecting_data', 'stop_collecting_data'):
            for e in args.get('queues', range(env.nE)):
                books[e].on = o.name.startswith('start')
        elif o.name == 'clear_data':
            for e in args.get('queues', range(env.nE)):
                books[e].forget()
        now = o.post.now
        for s, e, t in d.served_out:
            books[e].depart(s, now)
        for s, e, t, r in d.started:
            if s not in [a[0] for a in d.arrived]:
                books[e].start(s, t)
        for s, e, t in d.lost:
            books[e].single(now, len(d.before.line[e]), d.before.system(e))
        for s, e, t in d.arrived:
            books[e].arrive(s, now, len(d.after.line[e]), d.after.system(e))
        for s, e, t, r in d.started:
            if s in [a[0] for a in d.arrived]:
                books[e].start(s, t)
        for m in d.moves:
            if m.blocked:
                continue
            if env.type_at[m.dst] == 0:
                books[m.dst].single(now, 0, 0)
            elif m.sid in d.after.returned and m.sid not in d.before.returned:
                books[m.dst].single(now, len(d.after.line[m.dst]), d.after.system(m.dst), now)
        for b, r in zip(books, g):
            b.judge(r, lambda m: nfail(d, m))
    return books


def reads(env):
    """Reads all data at once and after every step."""
    env.got = []

    def read(env):
        env.got.append([rows_of(q) for q in env.net.edge2queue])
    return read


def net(name, queues, exits, steps, bound=0, toggles=(), start=True, init=None, **kw):
    def run(ctx):
        env = nsim.NEnv(ctx, queues, exits, collect=start, **kw)
        env.op('initialize', queues=init or list(range(len(queues))))
        got = [[rows_of(q) for q in env.net.edge2queue]]
        for _ in range(steps):
            k = ctx.choose(1 + len(toggles), DEV) if toggles else 0
            if k == 0:
                env.sim()
            else:
                o = env.op(toggles[k - 1][0], **dict(toggles[k - 1][1]))
                if o.pre != o.post or o.calls:
                    raise Violation('%s changed the network' % (toggles[k - 1],))
            got.append([rows_of(q) for q in env.net.edge2queue])
        ds = nsim.ntrack(env)
        books = walk(env, ds, got, start)
        for d, g in zip(ds, got):
            ctx.state((d.after.key(), str(g)))
        return tuple(tuple(map(tuple, b.rows)) for b in books)
    return Scenario(name, run, bound)


def harmless(name, queues, exits, steps, ties=False, **kw):
    """Collecting, reading, clearing and switching never change the history."""
    def run(ctx):
        tab = nsim.NCached(nsim.NTimes(ctx, ties))
        routes = {}
        recs = []
        for mode in (0, 1, 2):
            env = nsim.NEnv(ctx, queues, exits, draw=tab.stream(), collect=mode == 1, **kw)
            n = [0]

            def pick(agent, edge, k):
                n[0] += 1
                if n[0] not in routes:
                    routes[n[0]] = ctx.choose(k)
                return routes[n[0]]
            env.draw_route = pick
            env.op('initialize', queues=list(range(len(queues))))
            rec = []
            for i in range(steps):
                if mode == 1:
                    env.net.get_queue_data()
                    env.net.get_agent_data()
                    [q.fetch_data() for q in env.net.edge2queue]
                elif mode == 2:
                    [env.net.start_collecting_data, env.net.clear_data, env.net.get_agent_data, env.net.stop_collecting_data][i % 4]()
                o = env.sim()
                rec.append((o.post, env.named(o.calls)))
                ctx.state((o.post.events, o.post.next, o.post.agents))
            recs.append(rec)
            if mode and rec != recs[0]:
                i = [a == b for a, b in zip(rec, recs[0])].index(False)
                raise Violation('%s changed the history at step %d:\nwithout %s\nwith    %s' % (
                    'collecting and reading data' if mode == 1 else 'switching collection and clearing data', i, recs[0][i], rec[i]))
        return len(recs[0])
    return Scenario(name, run)


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = []
    for nm, cls, kw in (('server', QS, {}), ('two servers', QS, {'num_servers': 2}), ('loss', LQ, {'qbuffer': 1}), ('loss without buffer', LQ, {'num_servers': 2}),
                        ('info', IQ, {'net_size': 4, 'qbuffer': 1}), ('resource', RQ, {'num_servers': 3, 'qbuffer': 3})):
        s.append(one('one queue, always on: %s' % nm, cls, bound=0, steps=8 + 2 * th, toggles=False, **kw))
        s.append(one('one queue, switched: %s' % nm, cls, bound=2, steps=5 + 2 * th, **kw))
    s.append(one('one queue, switched on later', QS, bound=2 + th, steps=7, first=False, gaps=(1,)))
    s.append(one('one queue, servers change', LQ, bound=2, steps=7 + th, toggles=False, gaps=(1,), qbuffer=2, num_servers=2,
                 menu=[('set_num_servers', 1), ('set_num_servers', 3)]))
    s.append(one('one queue, delayed services', QS, bound=2, steps=7 + th, toggles=False, gaps=(1, 3), menu=[('delay_service',)]))
    s.append(one('one queue, ties', QS, bound=1, steps=8, ties=True, services=(1, 2), gaps=(1, 2), num_servers=2))
    s.append(one('one queue, nothing takes time', QS, bound=1, steps=7 + th, ties=True, services=(0, 1), gaps=(0, 1), num_servers=1))
    s.append(one('one queue, nothing takes time, loss', LQ, bound=1, steps=7 + th, ties=True, services=(0, 1), gaps=(0, 1), num_servers=1, qbuffer=1))
    for nm, top in (('loop', nscen.loop), ('cycle', nscen.cycle), ('line', nscen.line)):
        qs, ex = top(QS, LQ, s1=(0, 1), s2=(0, 1), g1=(0, 1), g2=(1,), k1={'active_cap': 3}, k2={'qbuffer': 1, 'active_cap': 2})
        s.append(net('nothing takes time, %s' % nm, qs, ex, 8 + th, ties=True))
    on, off, forget = 'start_collecting_data', 'stop_collecting_data', 'clear_data'
    for b in ('BAS', 'RS'):
        for nm, top in (('loop', nscen.loop), ('cycle', nscen.cycle), ('line', nscen.line)):
            qs, ex = top(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 1})
            s.append(net('%s %s' % (nm, b), qs, ex, 9 + th, blocking=b))
        qs, ex = nscen.loop(QS, QS, s1=(1,), s2=(1,), g1=(1,), g2=(4,), k1={'active_cap': 1}, k2={'active_cap': 1})
        s.append(net('switched loop %s' % b, qs, ex, 9, bound=2 + th, toggles=[(off, (('queues', (1,)),)), (on, ()), (off, ()), (forget, (('queues', (1,)),))], blocking=b))
    qs, ex = nscen.cycle(QS, LQ, s1=(1,), s2=(2,), g1=(2,), g2=(9,), k1={'active_cap': 2}, k2={'qbuffer': 1})
    s.append(net('switched cycle', qs, ex, 8 + th, bound=2 + th, toggles=[(off, (('queues', (0,)),)), (on, (('queues', (0,)),)), (forget, ()), (off, ())]))
    s.append(net('switched on later', qs, ex, 8 + th, bound=2, start=False, toggles=[(on, ()), (on, (('queues', (1,)),)), (off, ())]))
    qs, ex = nscen.cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,), k1={'num_servers': 3, 'qbuffer': 3}, k2={'num_servers': 3, 'qbuffer': 3})
    s.append(net('resource queues', qs, ex, 9 + th))
    qs, ex = nscen.cycle(IQ, IQ, s1=(1, 3), s2=(3,), g1=(2,), g2=(4,), k1={'qbuffer': 1})
    s.append(net('information queues', qs, ex, 8 + th))
    qs, ex = nscen.loop(LQ, IQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3, 9), k1={'qbuffer': 1}, k2={'qbuffer': 1})
    for nm, cls, kw in (('server', QS, {'num_servers': 2}), ('loss', LQ, {'qbuffer': 3, 'num_servers': 2}), ('info', IQ, {'net_size': 4, 'qbuffer': 2}), ('resource', RQ, {'num_servers': 9, 'qbuffer': 3})):
        k = dict(kw, gaps=(0, 1, 2), services=(0, 1, 3, 6))
        s.append(one('long history: %s' % nm, cls, bound=0, steps=200, toggles=False, words=(2, 2 + th), **k))
        s.append(one('a crowd: %s' % nm, cls, bound=0, steps=500, toggles=False, words=(1, 1), **dict(k, gaps=(1,), services=(3, 300), **({} if cls is QS else {'qbuffer': 260}))))
        s.append(one('long history, switched: %s' % nm, cls, bound=1, steps=60 + 30 * th, words=(1, 1), **dict(k, gaps=(0, 1), services=(1, 3))))
    s += deep.networks(lambda env, ds: walk(env, ds, env.got, True), tier, after=reads, collect=True, steps=150)
    s.append(harmless('reading is harmless', qs, ex, 9 + th))
    qs, ex = nscen.cycle(RQ, LQ, s1=(1, 3), s2=(3,), g1=(1, 2), g2=(3, 9), k1={'num_servers': 2, 'qbuffer': 1}, k2={'qbuffer': 1})
    for nm, top in (('line', nscen.line), ('cycle', nscen.cycle), ('loop', nscen.loop)):
        qs2, ex2 = top(IQ, IQ, s1=(1, 2), s2=(1,), g1=(1, 2), g2=(2,), k2={'num_servers': 2})
        s.append(harmless('reading is harmless with information and ties, %s' % nm, qs2, ex2, 7 + th, ties=True))
    qs2, ex2 = nscen.cycle(LQ, RQ, s1=(1, 2), s2=(1,), g1=(1, 2), g2=(2,), k1={'qbuffer': 1}, k2={'num_servers': 2, 'qbuffer': 1})
    s.append(harmless('reading is harmless with ties', qs2, ex2, 7 + th, ties=True))
    s.append(harmless('reading is harmless with resources', qs, ex, 7 + 2 * th))
    return s
