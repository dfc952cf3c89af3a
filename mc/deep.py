"""Long histories: queues and networks driven for hundreds of events by periodic environments.

A periodic environment is given by a word of gaps and a word of services: answer number i of stream t is letter
i + t of its word, read cyclically.  A scenario explores every word of a given length over its alphabets and,
where it has a menu, one operation of the menu at every point of every such history.  Destinations follow from
the identity of the agent and the number of its moves.  Unless ties are wanted, every answer gets a small distinct
fraction so that events do not coincide.
"""
import collections

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import nscen, nsim, qsim
from mc.nsim import Q
from mc.nscen import QS, LQ, IQ, RQ


def words(ctx, lengths, gaps, services):
    """Every word of gaps and of services; letters are indices."""
    la, ls = lengths
    return {'A': tuple(ctx.choose(gaps) for _ in range(la)), 'S': tuple(ctx.choose(services) for _ in range(ls))}


class Pattern(object):
    def __init__(self, w, ties=False, pos=None, shift=0):
        self.w, self.ties, self.shift, self.pos = w, ties, shift, collections.Counter(pos or {})

    def letter(self, key):
        """Index of the letter, and a number that distinguishes this answer from all others."""
        i = self.pos[key]
        self.pos[key] += 1
        kind, t = key if isinstance(key, tuple) else (key, 0)
        word = self.w[kind]
        return word[(i + t + self.shift) % len(word)], ((i * 64 + t) * 2 + (kind == 'S') + 1) * 2654435761 % 2 ** 32

    def number(self, key):
        i = self.pos[key]
        self.pos[key] += 1
        return i + self.shift

    def net(self, name, alphabet):
        k, x = self.letter(name)
        d = alphabet[k % len(alphabet)]
        return float(d) if self.ties else 1024.0 * d + (x >> 8) * 2.0 ** -14

    def route(self, agent, k):
        return (self.number(('route', agent.agent_id)) + sum(agent.agent_id)) % k

    def unit(self):
        """Uniform numbers, evenly spread."""
        return (self.number('U') * 39 % 64 + 0.5) / 64

    def queue(self, alphabets):
        def draw(name):
            k, x = self.letter(name)
            d = alphabets[name][k]
            return float(d) if self.ties else d + (x >> 16) * 2.0 ** -16
        return draw


class Reader(object):
    """The same environment read again: what comes next depends on the stream and the position in it."""

    def __init__(self, w, ties=False, shift=0):
        self.w, self.ties, self.shift = w, ties, shift

    def stream(self, alphabets, pos=None):
        """For one queue."""
        x = Pattern(self.w, self.ties, pos, self.shift)
        f = x.queue(alphabets)
        f.pos = x.pos
        return f

    def reader(self, pos=None):
        """For a network, uniform numbers included."""
        x = Pattern(self.w, self.ties, pos, self.shift)

        def read(name, alphabet):
            return x.unit() if name == 'U' else x.net(name, alphabet)
        read.pos = x.pos
        return read


def act(env, m):
    """One entry of a menu: an operation, or a sequence of operations with numbers of events between them."""
    if m[0] == 'seq':
        for x in m[1:]:
            if isinstance(x, int):
                for _ in range(x):
                    env.sim()
            else:
                act(env, x)
        return
    args = tuple(a(env) if callable(a) else a for a in m[1:])
    (env.give(*args) if m[0] == 'give' else env.op(m[0], *args))


def breaks(menu):
    """Two operations with some events between them."""
    out = []
    for m in menu:
        if m == ('set_inactive',):
            out += [('seq', m, k, ('set_active',)) for k in (1, 4, 12)] + [('seq', m, 12, ('set_active',), 5, m, 12, ('set_active',))]
        if m == ('set_num_servers', 1):
            out += [('seq', m, k, ('set_num_servers', 3)) for k in (2, 9)] + [('seq', ('set_num_servers', 20), 9, m)]
        if m == ('delay_service',):
            out += [('seq', m, 2, m)]
        if m == ('give', 'half'):
            out += [('seq', m, m, m), ('seq', m, 1, m, 1, m)]
    return out


def queue(name, monitor, cls=None, words_=(2, 2), steps=150, menu=(), gaps=(0, 1, 2), services=(0, 1, 3, 6), ties=False, bound=1, every=1, **kw):
    """One queue."""
    def run(ctx):
        p = Pattern(words(ctx, words_, len(gaps), len(services)), ties)
        env = qsim.QEnv(ctx, cls, draw=p.queue({'A': gaps, 'S': services}), **kw)
        env.op('set_active')
        for i in range(steps):
            k = ctx.choose(1 + len(menu), DEV) if menu and i % every == 0 else 0
            if k == 0:
                env.sim()
            else:
                act(env, menu[k - 1])
        ds = qsim.track(env.ops)
        monitor(env, ds)
        d = ds[-1]
        ctx.state((tuple(d.line), tuple(sorted(d.serving.items())), d.op.post))
        return d.op.post
    return Scenario(name, run, bound if menu else 0)


def city(kind='plain', cap=None):
    """Eight vertices, fifteen edges, two exits: roundabout, short cuts, loops, queues of several sizes."""
    ring = [(v, (v + 1) % 6) for v in range(6)]
    cuts = [(0, 3), (2, 5), (4, 1), (1, 1), (3, 3), (5, 2), (2, 0)]
    exits = [(3, 6), (5, 7)]
    qs = []
    for i, e in enumerate(sorted(ring + cuts)):
        n = 1 + i % 3
        kw = {'num_servers': n}
        agent = None
        if kind == 'plain':
            cls = QS if i % 2 else LQ
        elif kind == 'finite':
            cls = LQ
        elif kind == 'information':
            cls, agent = (IQ, qt.InfoAgent) if i % 4 else (LQ, None)
            if cls is LQ:
                agent = Info
        else:
            cls, agent = (RQ, None) if i % 3 else (QS, qt.ResourceAgent)
        if cls is LQ or cls is IQ or cls is RQ:
            kw['qbuffer'] = (i * 2) % 5
        if i % 5 == 4:
            kw['active_cap'] = 9
        elif e == (3, 3):
            kw['active_cap'] = 4        # a loop that soon stops
        qs.append(Q(e, cls, (1, 5), (0, 1, 3), kw, agent))
    return qs, exits


class Info(qt.InfoAgent):
    """An information agent made by a queue that does not know the size of the network."""
    size = 15

    def __init__(self, aid, *rest):
        qt.InfoAgent.__init__(self, aid, self.size)


def crowded(kind):
    """The city with so much to do that long lines form everywhere."""
    qs, exits = city(kind)
    out = []
    for q in qs:
        kw = dict(q.kw)
        if 'qbuffer' in kw:
            kw['qbuffer'] += 80
        out.append(q._replace(kw=kw, gaps=(1,), services=(6, 90)))
    return out, exits


def wide(kind):
    """A ring with short cuts, almost three hundred queues."""
    n = 40 if kind == 'information' else 140
    pattern, _ = city(kind)
    edges = sorted([(v, (v + 1) % n) for v in range(n)] + [(v, (v + 9) % n) for v in range(n)])
    exits = [(v, n + v // 40) for v in range(5, n, 40)]
    made = type('Wide', (Info,), {'size': len(edges) + len(exits)})
    qs = []
    for i, e in enumerate(edges):
        q = pattern[i % len(pattern)]
        qs.append(q._replace(edge=e, agent=made if q.agent is Info else q.agent, gaps=(1,), services=(0, 3)))
    return qs, exits


def network(name, monitor, kind='plain', words_=(2, 2), steps=300, start=None, ties=False, menu=(), bound=1, every=1, top=None, after=None, flip=False, **kw):
    """The city (or another graph)."""
    def run(ctx, menu=menu):
        queues, exits = top or city(kind)
        if flip:
            queues, exits, numbers = nscen.flipped(queues, exits)
            menu = [(m[0], numbers[m[1]], m[2]) if m[0] == 'servers' else (m[0], tuple(nscen.renumbered(dict(m[1]), numbers.__getitem__).items())) for m in menu]
        p = Pattern(words(ctx, words_, len(queues[0].gaps), len(queues[0].services)), ties)
        env = nsim.NEnv(ctx, queues, exits, draw=p.net, **kw)
        env.draw_route = lambda agent, edge, k: p.route(agent, k)
        obs = after(env) if after else None
        if kw.get('route') == 'real':
            env.unit = p.unit
        env.op('initialize', queues=start or list(range(env.nE)))
        if obs:
            obs(env)
        for i in range(steps):
            k = ctx.choose(1 + len(menu), DEV) if menu and i % every == 0 else 0
            if k == 0:
                env.sim()
            elif menu[k - 1][0] == 'servers':
                env.servers(*menu[k - 1][1:])
            else:
                env.op(menu[k - 1][0], **dict(menu[k - 1][1]))
            if obs:
                obs(env)
        if monitor:
            ds = nsim.ntrack(env)
            monitor(env, ds)
            ctx.state((ds[-1].after.key(), env.ops[-1].post.events))
        return env.ops[-1].post
    return Scenario(name, run, bound if menu else 0)


def queues(monitor, tier, classes=(QS, LQ, IQ, RQ), menu=(), given=(), name='', **kw):
    """Long histories of every class of queue, with one operation of the menu at every point."""
    th = tier == 'thorough'
    out = []
    for cls in classes:
        n = cls.__name__ + (' ' + name if name else '')
        k = dict(kw)
        if cls is not QS:
            k.setdefault('qbuffer', 4)
        if cls is IQ:
            k.setdefault('net_size', 6)
        if cls is RQ:
            k.setdefault('num_servers', 9)
        m = list(menu) + list(given) + breaks(list(menu) + list(given))
        k.setdefault('num_servers', 2)
        k.setdefault('edge', (2, 3, 5, 2))
        on = dict({'collect_data': True}, **k)
        out.append(queue('%s, long histories' % n, monitor, cls, (2, 3) if th else (2, 2), 300, **on))
        out.append(queue('%s, long histories with ties' % n, monitor, cls, (2, 3) if th else (2, 2), 200, ties=True, **k))
        if cls is not RQ:
            out.append(queue('%s, long histories with many servers' % n, monitor, cls, (2, 2) if th else (1, 2), 400, **dict(k, num_servers=12, services=(4, 9, 30))))
        out.append(queue('%s, very long histories' % n, monitor, cls, (1, 1), 6000 if th else 2600, gaps=(0, 1), services=(1, 4), **on))
        crowd = dict(on, gaps=(1,), services=(2, 300), **({} if cls is QS else {'qbuffer': 260}))
        many = [('set_num_servers', 150)] if any(x[0] == 'set_num_servers' for x in m) else []
        many += [x for x in m if x[0] == 'delay_service'][:2]
        out.append(queue('%s, a crowd' % n, monitor, cls, (1, 2 if th else 1), 800, many, every=150, **crowd))
        out.append(queue('%s, a crowd in service, ties' % n, monitor, cls, (1, 1), 400, many, ties=True, every=57, **dict(crowd, num_servers=400 if cls is RQ else 90, services=(80, 120, 3))))
        if m:
            out.append(queue('%s, long histories with operations' % n, monitor, cls, (1, 2) if th else (1, 1), 90 if th else 60, m, gaps=(0, 1), services=(1, 3), **on))
    return out


def networks(monitor, tier, kinds=('plain', 'finite', 'information', 'resource'), menu=(), blocking=('BAS', 'RS'), ties=True, name='', steps=300, **kw):
    th = tier == 'thorough'
    out = []
    for kind in kinds:
        for b in blocking:
            n = '%slarge network, %s %s' % (name, kind, b)
            out.append(network(n, monitor, kind, (3, 3) if th else (1, 2), steps, blocking=b, flip=b == 'RS', **dict(kw, collect=kw.get('collect', b == 'BAS'))))
            if ties:
                out.append(network(n + ', ties', monitor, kind, (3, 2) if th else (1, 2), steps, ties=True, blocking=b, flip=b == 'BAS', **dict(kw, collect=kw.get('collect', b == 'RS'))))
            if (b == 'BAS') == (kind in ('plain', 'information')) or len(blocking) == 1:
                out.append(network(n + ', crowds', monitor, kind, (1, 1), 3 * steps, top=crowded(kind), blocking=b, flip=True, **dict(kw, collect=kw.get('collect', False))))
            else:
                out.append(network('%svery large network, %s %s' % (name, kind, b), monitor, kind, (1, 1), steps, top=wide(kind), blocking=b, start=list(range(0, 80, 3)),
                                   **dict(kw, collect=kw.get('collect', True))))
            if menu:
                out.append(network(n + ', operations', monitor, kind, (1, 1), steps // 2, menu=menu, every=5 if th else 15, blocking=b, flip=b == 'BAS', **dict(kw, collect=kw.get('collect', b == 'BAS'))))
    return out


MENU = [('initialize', (('queues', list(range(0, 15, 2))),)), ('initialize', (('queues', [14, 7, 3]),)), ('stop_collecting_data', ())]
