"""C26: drawing and animating never disturb a simulation and show the right queues."""
import itertools
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.animation
import matplotlib.collections
import matplotlib.pyplot as plt
import numpy as np

import queueing_tool as qt
from mc.explore import Scenario, DEV, FREE, Violation
from mc import nsim, nscen, build
from mc.nsim import Q, INF, nsnap
from mc.nscen import QS, LQ, IQ, RQ
from mc.props.c17 import Answers, twin

ASSUMPTIONS = ['durations come from small alphabets; the network is drawn with matplotlib\'s Agg back end',
               'matplotlib itself shows what its collections hold; FuncAnimation calls the function it is given once per frame',
               'the shade of a vertex without a queue on a loop depends on the queues that lead to it, through their numbers of agents and servers only']

warnings.filterwarnings('ignore', module='matplotlib')
warnings.filterwarnings('ignore', message='.*non-GUI.*')
warnings.filterwarnings('ignore', message='.*non-interactive.*')


class Frames(object):
    """Stands in for the window: shows `number` frames and keeps what each shows."""
    number, seen, calls = 0, [], 0


def _init(self, fig=None, func=None, *args, **kwargs):
    Frames.seen, Frames.calls = [], 0
    for k in range(Frames.number):
        func(k)
        Frames.calls += 1
        Frames.seen.append((shown(fig), nsnap(nsim.Cur.env.net)))


matplotlib.animation.FuncAnimation.__init__ = _init
matplotlib.animation.FuncAnimation.save = lambda self, *a, **k: None
matplotlib.animation.Animation.__del__ = lambda self: None
plt.show = lambda *a, **k: None


def r(x):
    return tuple(round(float(c), 6) for c in x)


def shown(fig):
    """({segment: colour}, {position: (fill, pen)}) of a figure."""
    lines, dots = {}, {}
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, matplotlib.collections.LineCollection):
                segs, cols = c.get_segments(), c.get_colors()
                for i, s in enumerate(segs):
                    lines[tuple(r(p) for p in s)] = r(cols[i % len(cols)])
            else:
                fill, pen = c.get_facecolors(), c.get_edgecolors()
                for i, p in enumerate(c.get_offsets()):
                    dots[r(p)] = (r(fill[i % len(fill)]), r(pen[i % len(pen)]))
    return lines, dots


def drawn(env, how, **kw):
    """Calls a drawing method; returns what was shown."""
    nsim.Cur.env = env
    plt.close('all')
    try:
        getattr(env.net, how)(**kw)
        figs = plt.get_fignums()
        return shown(plt.figure(figs[-1])) if figs else None
    finally:
        plt.close('all')


def pos(v):
    return (float(v), float((v * v + 1) % 7))


COL = {1: [0.9, 0.5, 0.3, 1.0], 2: [0.2, 0.8, 0.6, 1.0], 3: [0.4, 0.1, 0.7, 1.0], 4: [1.0, 0.3, 0.8, 1.0], 5: [0.6, 0.9, 0.1, 1.0]}


def colours(t, cls):
    c = COL[t] if t in COL else [0.05 * t, 0.9 - 0.06 * t, 0.03 * t + 0.2, 1.0]
    return {'edge_color': c, 'edge_loop_color': [c[1], c[2], c[0], 0.25], 'vertex_fill_color': [c[2], c[0], c[1], 1.0],
            'vertex_color': [c[0], c[2], c[1], 0.75]}


NET = {'vertex_fill_color': [0.9, 0.8, 0.7, 1.0], 'vertex_color': [0.1, 0.6, 1.0, 1.0], 'vertex_highlight': [0.5, 0.4, 0.5, 1.0],
       'vertex_active': [0.1, 1.0, 0.5, 1.0], 'vertex_inactive': [0.95, 0.85, 0.95, 1.0], 'edge_active': [0.1, 0.2, 0.1, 1.0],
       'edge_inactive': [0.8, 0.7, 0.8, 0.3]}


def make(ctx, queues, exits, reader, **kw):
    qs = [q._replace(kw=dict(q.kw, colors=colours(i + 1, q.cls))) for i, q in enumerate(queues)]
    env = nsim.NEnv(ctx, qs, exits, draw=reader, hook=False, pos=pos, colors=NET, route_kind=FREE, **kw)
    build.HOOK.handler = lambda *a: nsim.Cur.env.randomness(*a)
    by_type = {v: sorted(range(len(o)), key=lambda i: (env.type_at[o[i]], env.edge_list[o[i]][1])) for v, o in env.outs.items()}
    env.draw_route = lambda agent, edge, n: by_type[edge[1]][env.draw(('U', env.type_at[edge[2]]), tuple(range(n)))]
    return env


def clone(env, ctx, queues, exits, reader, **kw):
    return make(ctx, queues, exits, reader, **kw)


class Reader(object):
    """Answers shared between networks: routing picks are plain choices."""

    def __init__(self, ctx, ties):
        self.ctx, self.times, self.tab = ctx, nsim.NTimes(ctx, ties), {}

    def reader(self):
        pos_ = {}

        def read(name, alphabet):
            k = (name, pos_.get(name, 0))
            pos_[name] = k[1] + 1
            if k not in self.tab:
                self.tab[k] = self.ctx.pick(alphabet) if name[0] == 'U' else self.times.draw(alphabet)
            return self.tab[k]
        return read


def named(lines, dots, rel=lambda v: v, verts=(), edges=()):
    """Picture by vertex and edge, in the names of the original labelling."""
    at = {r(pos(v)): v for v in verts}
    return ({(at[a], at[b]): c for (a, b), c in lines.items()}, {at[p]: c for p, c in dots.items()})


def state_key(q):
    return (q.num_system, q.num_servers)


def check_picture(env, pic, seen, where):
    """Each edge and vertex shows what belongs to it."""
    net = env.net
    lines, dots = pic
    q_at = {env.edge_list[i]: net.edge2queue[i] for i in range(env.nE)}
    verts = sorted({v for e in env.edge_list for v in e})
    at = {r(pos(v)): v for v in verts}
    if set(dots) != set(at):
        raise Violation('%s: vertices are drawn at %s, they are at %s' % (where, sorted(dots), sorted(at)))
    if set(lines) != {(r(pos(u)), r(pos(v))) for u, v in q_at}:
        raise Violation('%s: edges are drawn at %s' % (where, sorted(lines)))

    def same(what, key, val):
        """What is shown is determined by the thing's own state, and gets darker with more agents."""
        old = seen.setdefault(what, {})
        if old.setdefault(key, val) != val:
            raise Violation('%s: %s is shown as %s, it was shown as %s in the same state %s' % (where, what, val, old[key], key))

    for e, q in q_at.items():
        c = lines[(r(pos(e[0])), r(pos(e[1])))]
        t = env.type_at[env.index[e]]
        base = q.colors
        if t == 0:
            want = base['edge_loop_color'] if e[0] == e[1] else base['edge_color']
            if c != r(want):
                raise Violation('%s: edge %s out of the network is shown as %s instead of %s' % (where, e, c, want))
            continue
        cls = env.spec_at[env.index[e]].cls
        if cls is RQ:
            same('edge %s' % (e,), (q.num_servers,), c)
        elif e[0] == e[1]:
            if c != r(base['edge_loop_color']):
                raise Violation('%s: the loop %s is shown as %s instead of %s' % (where, e, c, base['edge_loop_color']))
        else:
            shade = 1 - min(q.num_system / (q.coloring_sensitivity * q.num_servers + 1.0), 1)
            want = r([x * shade for x in base['edge_color'][:3]] + [0.5])
            if max(abs(x - y) for x, y in zip(c, want)) > 2e-6:
                raise Violation('%s: edge %s with %d agents and %d servers is shown as %s instead of %s' % (where, e, q.num_system, q.num_servers, c, want))
    for v in verts:
        fill, pen = dots[r(pos(v))]
        loop = (v, v) in q_at
        if loop:
            q = q_at[v, v]
            cls = env.spec_at[env.index[v, v]].cls if env.type_at[env.index[v, v]] else None
            if cls is not RQ and pen != r(q.colors['vertex_color']):
                raise Violation('%s: the pen of vertex %s is %s instead of %s' % (where, v, pen, q.colors['vertex_color']))
        elif pen != r(NET['vertex_color']):
            raise Violation('%s: the pen of vertex %s is %s instead of %s' % (where, v, pen, NET['vertex_color']))
        if loop and env.type_at[env.index[v, v]] != 0:
            own, key, n, base = 'loop', state_key(q_at[v, v]), q_at[v, v].num_system, q_at[v, v].colors['vertex_fill_color']
            if cls is RQ:
                key, n = key[1:], 0
        else:
            ins = [q for e, q in q_at.items() if e[1] == v]
            key = (sum(q.num_system for q in ins), sum(q.num_servers for q in ins))
            own, n, base = 'in', key[0], NET['vertex_fill_color']
        same('vertex %s' % v, key, fill)
        shade = max(fill[i] / base[i] for i in range(3))
        if any(abs(fill[i] - base[i] * shade) > 4e-6 for i in range(3)):
            raise Violation('%s: vertex %s is shown as %s, which is no shade of %s' % (where, v, fill, base))
        if not loop or cls is not RQ:
            d = seen.setdefault(('shade', v), {})
            d[key] = shade
            for k2, s2 in d.items():
                if k2[-1] == key[-1] and ((k2[0] < key[0] and s2 < shade) or (k2[0] > key[0] and s2 > shade)):
                    raise Violation('%s: vertex %s is lighter with %s agents than with %s' % (where, v, max(k2[0], key[0]), min(k2[0], key[0])))
            if (n == 0) != (abs(shade - 1) < 1e-6):
                raise Violation('%s: vertex %s with %d agents has shade %s' % (where, v, n, shade))


def check_active(env, pic, where):
    lines, dots = pic
    for i, e in enumerate(env.edge_list):
        c = lines[(r(pos(e[0])), r(pos(e[1])))]
        want = NET['edge_active'] if env.net.edge2queue[i].active else NET['edge_inactive']
        if c != r(want):
            raise Violation('%s: edge %s, active=%s, is shown as %s' % (where, e, env.net.edge2queue[i].active, c))
    for v in {v for e in env.edge_list for v in e}:
        on = any(env.net.edge2queue[i].active for i, e in enumerate(env.edge_list) if e[1] == v)
        if dots[r(pos(v))][0] != r(NET['vertex_active'] if on else NET['vertex_inactive']):
            raise Violation('%s: vertex %s, active=%s, is shown as %s' % (where, v, on, dots[r(pos(v))]))


def check_type(env, pic, t, where):
    lines, dots = pic
    for i, e in enumerate(env.edge_list):
        c = lines[(r(pos(e[0])), r(pos(e[1])))]
        if c != r(NET['edge_active'] if env.type_at[i] == t else NET['edge_inactive']):
            raise Violation('%s: edge %s of type %s is shown as %s' % (where, e, env.type_at[i], c))
    for v in {v for e in env.edge_list for v in e}:
        on = (v, v) in env.index and env.type_at[env.index[v, v]] == t
        if dots[r(pos(v))][0] != r(NET['vertex_highlight'] if on else NET['vertex_inactive']):
            raise Violation('%s: vertex %s, on a loop of type %s: %s, is shown as %s' % (where, v, t, on, dots[r(pos(v))]))


def randomness():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def look(env, how, seen, where):
    """One drawing operation; nothing but the picture may come of it."""
    name, kw = how[0], dict(how[1:])
    net = env.net
    before = nsnap(net), randomness(), str(net.transitions(False)), sorted(net.g.edge_index.items()), [tuple(q.edge) for q in net.edge2queue], \
        net.get_queue_data().tolist(), str(net.colors), [str(q.colors) for q in net.edge2queue], [net.g.ep(e, 'edge_type') for e in env.edge_list]
    env.calls = []
    pic = drawn(env, name, **kw)
    after = nsnap(net), randomness(), str(net.transitions(False)), sorted(net.g.edge_index.items()), [tuple(q.edge) for q in net.edge2queue], \
        net.get_queue_data().tolist(), str(net.colors), [str(q.colors) for q in net.edge2queue], [net.g.ep(e, 'edge_type') for e in env.edge_list]
    if env.calls:
        raise Violation('%s: drawing asks for arrivals, services or routes: %s' % (where, env.calls))
    for x, y in zip(before, after):
        if x != y:
            raise Violation('%s changed the network or the random numbers to come:\n   %s\n   %s' % (where, str(x)[:900], str(y)[:900]))
    env.ctx.step()
    if name == 'draw' and 'update_colors' not in kw and not kw.get('scatter_kwargs'):
        check_picture(env, pic, seen, where)
    elif name == 'show_active':
        check_active(env, pic, where)
    elif name == 'show_type':
        check_type(env, pic, kw['edge_type'], where)
    if name in ('show_active', 'show_type'):
        x, y = drawn(env, 'draw', update_colors=False), drawn(env, 'draw')
        if x != y:
            raise Violation('%s: what was highlighted is still so in the next picture:\n%s\n%s' % (where, x, y))
    return pic


def record(env):
    rec = (nsnap(env.net), env.named(env.calls), str(env.net.get_queue_data().tolist()))
    env.calls = []
    return rec


def animated(env, n, kw, where):
    """Shows n frames; returns what each showed."""
    nsim.Cur.env = env
    Frames.number = n
    rnd = randomness()
    drawn(env, 'animate', **kw)
    if Frames.calls != n:
        raise Violation('%s: %d frames asked for, %d calls' % (where, n, Frames.calls))
    if randomness() != rnd:
        raise Violation('%s: animating used random numbers' % where)
    return list(Frames.seen)


LOOKS = [('draw',), ('show_active',), ('show_type', ('edge_type', 1)), ('reset_colors',), ('draw', ('update_colors', False)),
         ('draw', ('line_kwargs', {'linewidths': (2,)}), ('scatter_kwargs', {'c': 'b'}))]
SEEN = {}


def undisturbed(name, queues, exits, n, looks=LOOKS, bound=1, ties=False, start=None, final=2, collect=True, **kw):
    """Plain simulation against one that is drawn: at every point, in every way."""
    def run(ctx):
        tab = Reader(ctx, ties)
        a = make(ctx, queues, exits, tab.reader(), collect=collect, **kw)
        b = make(ctx, queues, exits, tab.reader(), collect=collect, **kw)
        seen = SEEN.setdefault(name, {})
        st = list(range(len(queues))) if start is None else start
        did = []
        todo = [('initialize', {'queues': [b.edge_of[1 + k] for k in st]})] + [('simulate', {'n': 1})] * n
        for i, (op, args) in enumerate(todo):
            for env in (a, b):
                nsim.Cur.env = env
                getattr(env.net, op)(**args)
            ctx.step()
            x, y = record(a), record(b)
            if x != y:
                raise Violation('a network that was drawn (first) and one that was not (second) differ at step %d after %s:\n   %s\n   %s' % (i, did, x, y))
            k = ctx.choose(1 + len(looks), DEV)
            if k:
                how = looks[k - 1]
                did.append((i, how))
                look(b, how, seen, 'after step %d: %s' % (i, did))
        look(b, ('draw',), seen, 'at the end: %s' % did)
        x, y = record(a), record(b)
        if x != y:
            raise Violation('networks differ at the end')
        # a step in each, and the pictures of both agree
        for env in (a, b):
            nsim.Cur.env = env
            env.net.simulate(n=1)
        p, q = look(a, ('draw',), seen, 'plain'), look(b, ('draw',), seen, 'at the end: %s' % did)
        if p != q:
            raise Violation('pictures differ after %s:\n%s\n%s' % (did, p, q))
        ctx.state((nsnap(a.net).agents, tuple(sorted(p[0].items()))))
        return nsnap(a.net).agents, len(did)
    return Scenario(name, run, bound)


def animation(name, queues, exits, n1, n2, ties=False, n3=2, stop=False, **kw):
    """An animation runs the same history, frame by frame, as plain simulation, and shows it."""
    def run(ctx):
        tab = Reader(ctx, ties)
        a = make(ctx, queues, exits, tab.reader(), **kw)
        b = make(ctx, queues, exits, tab.reader(), **kw)
        seen = SEEN.setdefault(name, {})
        for env in (a, b):
            nsim.Cur.env = env
            env.net.initialize(queues=[env.edge_of[1 + k] for k in range(len(queues))])
            env.net.simulate(n=n1)
        t = None
        if stop:
            t = ctx.pick((512.0, 2048.0, 4096.0))
            now = b.net.current_time
        def compare(frames, what):
            for i, (pic, snap) in enumerate(frames):
                nsim.Cur.env = a
                if t is None or a.net.current_time <= now + t:
                    a.net.simulate(n=1)
                if nsnap(a.net) != snap:
                    raise Violation('frame %d of %s and step %d of a simulation differ:\n   %s\n   %s' % (i, what, i, snap, nsnap(a.net)))
                ctx.step()
                p = drawn(a, 'draw')
                check_picture(a, pic, seen, 'frame %d of %s' % (i, what))
                if p != pic:
                    raise Violation('frame %d of %s does not show the network as it is:\n   %s\n   %s' % (i, what, pic, p))
        compare(animated(b, n2, {'t': t} if stop else ctx.pick(({}, {'filename': 'x', 'frames': n2}, {'frames': n2})), 'animate'), 'an animation')
        t = None
        for _ in range(n3):
            for env in (a, b):
                nsim.Cur.env = env
                env.net.simulate(n=1)
            x, y = record(a), record(b)
            if x != y:
                raise Violation('after the animation the networks differ:\n   %s\n   %s' % (x, y))
        compare(animated(b, 1, {}, 'animate again'), 'a second animation')
        ctx.state(nsnap(a.net))
        return nsnap(a.net).agents
    return Scenario(name, run, 0)


def orders(name, queues, exits, n, ties=False, nodes=None, wrapper=False, cap=None, looks=(), **kw):
    """The same network with vertices and edges inserted in any order, drawn at every step."""
    verts = sorted({v for q in queues for v in q.edge} | {v for e in exits for v in e})
    m = len(queues) + len(exits)

    def run(ctx):
        node_order = ctx.pick(list(itertools.permutations(verts))) if nodes is None else ctx.pick(nodes)
        edge_order = ctx.pick(list(itertools.permutations(range(m)))) if cap is None else ctx.pick(list(itertools.permutations(range(m)))[::cap])
        tab = Reader(ctx, ties)
        a = make(ctx, queues, exits, tab.reader())
        b = make(ctx, queues, exits, tab.reader(), order=list(node_order), edge_order=list(edge_order), wrapper=wrapper, **kw)
        for env in (a, b):
            nsim.Cur.env = env
            env.net.initialize(queues=[env.edge_of[1 + k] for k in range(len(queues))])
        seen = {}
        for i in range(n):
            for env in (a, b):
                nsim.Cur.env = env
                env.net.simulate(n=1)
            ctx.step()
            if n - i > 2 and i:
                continue
            if i == 0:
                for how in looks:
                    look(b, how, {}, '%s with vertices in the order %s and edges in the order %s' % (how[0], node_order, edge_order))
                # colours before anything was ever drawn are the default ones, each edge its own
            p = look(a, ('draw',), seen, 'in sorted order')
            q = look(b, ('draw',), {}, 'with vertices in the order %s and edges in the order %s' % (node_order, edge_order))
            if p != q:
                raise Violation('the picture depends on the order of insertion: vertices %s, edges %s\n%s\n%s' % (node_order, edge_order, p, q))
        nsim.Cur.env = b
        b.net.reset_colors()
        p = drawn(b, 'draw', update_colors=False)
        for i, e in enumerate(b.edge_list):
            c, own = p[0][(r(pos(e[0])), r(pos(e[1])))], b.net.edge2queue[i].colors
            if c != r(own['edge_color']) and not (e[0] == e[1] and c == r(own['edge_loop_color'])):
                raise Violation('after reset_colors edge %s shows %s instead of its default %s; vertices %s, edges %s' % (e, c, own['edge_color'], node_order, edge_order))
        for v, (fill, pen) in {v: p[1][r(pos(v))] for v in verts}.items():
            if fill != r(NET['vertex_fill_color']):
                raise Violation('after reset_colors vertex %s shows %s' % (v, fill))
        drawn(b, 'draw')
        b.net.clear()
        p2 = drawn(b, 'draw', update_colors=False)
        if p2 != p:
            raise Violation('clear() leaves other colours than reset_colors() does:\n   %s\n   %s' % (p2, p))
        ctx.state((tuple(node_order), tuple(edge_order)))
        return nsnap(a.net).agents
    return Scenario(name, run, 0)


def first_look(name, queues, exits, wrapper=False):
    """Before anything happens every edge has its own default colour, in any order of insertion."""
    verts = sorted({v for q in queues for v in q.edge} | {v for e in exits for v in e})
    m = len(queues) + len(exits)

    def run(ctx):
        node_order, edge_order = ctx.pick(list(itertools.permutations(verts))), ctx.pick(list(itertools.permutations(range(m))))
        tab = Reader(ctx, False)
        b = make(ctx, queues, exits, tab.reader(), order=list(node_order), edge_order=list(edge_order), wrapper=wrapper)
        p = drawn(b, 'draw', update_colors=False)
        ctx.step()
        for i, e in enumerate(b.edge_list):
            key = (r(pos(e[0])), r(pos(e[1])))
            if key not in p[0]:
                raise Violation('edge %s is not drawn between its vertices: %s; vertices %s edges %s' % (e, sorted(p[0]), node_order, edge_order))
            c, own = p[0][key], b.net.edge2queue[i].colors
            want = own['edge_loop_color'] if e[0] == e[1] else own['edge_color']
            if c != r(want):
                raise Violation('a new network shows edge %s as %s instead of %s; vertices %s edges %s' % (e, c, want, node_order, edge_order))
        p2 = look(b, ('draw', ('pos', {v: (9.0 - v, 2.0 * v) for v in reversed(verts)}), ('update_colors', False)), {}, 'draw at other positions')
        q = {(r((9.0 - u, 2.0 * u)), r((9.0 - v, 2.0 * v))): p[0][(r(pos(u)), r(pos(v)))] for u, v in b.edge_list}
        if p2[0] != q or p2[1] != {r((9.0 - v, 2.0 * v)): p[1][r(pos(v))] for v in verts}:
            raise Violation('drawn at other positions the network shows %s instead of %s' % (p2, q))
        if list(edge_order) in (list(range(m)), list(range(m))[::-1]):
            drawn(b, 'draw', pos={v: pos(v) for v in verts})
            for how in (('show_active',), ('show_type', ('edge_type', 1)), ('show_type', ('edge_type', 0)), ('show_active',)):
                look(b, how, {}, 'before anything happens: %s' % (how,))
        ctx.state((tuple(node_order), tuple(edge_order)))
        return tuple(edge_order) < tuple(range(m)), len(p[0])
    return Scenario(name, run, 0)


def star(s1=(3,), s2=(5,), g1=(2,), g2=(4,), k1={}, k2={}):
    """2 -> 0 <- 1, and out of 0 through a loop"""
    return [Q((2, 0), QS, g1, s1, k1), Q((1, 0), LQ, g2, s2, k2)], [(0, 0)]


def loops(s1=(3,), s2=(5,), s3=(3,), g1=(2,), g2=(4,), g3=(4,), k1={}, k2={}):
    """loops at 1 and 2, 1 -> 2, out of 2"""
    return [Q((1, 1), QS, g1, s1, k1), Q((2, 2), LQ, g2, s2, k2), Q((1, 2), QS, g3, s3, {})], [(2, 0)]


def scenarios(tier):
    th = 1 if tier == 'thorough' else 0
    s = []
    L = LOOKS
    for b in ('BAS', 'RS'):
        qs, ex = nscen.loop(LQ, LQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 0})
        s.append(undisturbed('draw loop %s' % b, qs, ex, 3 + 2 * th, L[:4] if not th else L, blocking=b))
    qs, ex = nscen.cycle(IQ, RQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'qbuffer': 2}, k2={'qbuffer': 1, 'num_servers': 2})
    s.append(undisturbed('draw information and resources', qs, ex, 3 + 2 * th, L[:3]))
    qs, ex = nscen.fork(s1=(1,), s2=(3, 6), s3=(4,), g1=(1,), g2=(9,), k1={'num_servers': 2})
    s.append(undisturbed('draw fork', qs, ex, 3 + 2 * th, L, start=[0, 2]))
    qs, ex = star(s1=(1, 5), g1=(1,), k1={'num_servers': 2}, k2={'qbuffer': 1})
    s.append(undisturbed('draw star', qs, ex, 4 + th, L[:3] + L[5:], start=[0]))
    qs, ex = loops(s1=(1, 3), g1=(1,), g2=(2,))
    s.append(undisturbed('draw loops', qs, ex, 4 + th, L[1:3] + L[3:4], collect=False))
    s.append(undisturbed('draw twice', qs, ex, 2 + th, L[:4] if th else L[1:4], bound=2, collect=False))
    # every set of active queues
    for nm, (qs, ex) in (('loops', loops(s1=(3,), g1=(4,), g2=(4,))), ('star', star(s1=(3,), g1=(4,)))):
        qs = [q._replace(kw=dict(q.kw, active_cap=9)) for q in qs]
        for k in range(1, 2 ** len(qs)):
            on = [i for i in range(len(qs)) if k >> i & 1]
            s.append(undisturbed('active at %s: %s' % (nm, on), qs, ex, 1, [('show_active',)], start=on, final=0, collect=False))
    # animations
    qs, ex = loops(s1=(1, 3), s2=(1, 4), s3=(2,), g1=(1,), g2=(2, 5))
    s.append(animation('animate loops', qs, ex, 0, 4 + th))
    s.append(animation('animate loops later', qs, ex, 2 + 2 * th, 2 + th))
    s.append(animation('animate loops with ties', qs, ex, 1, 3 + th, ties=True))
    for b in ('BAS', 'RS'):
        qs, ex = nscen.loop(LQ, LQ, s1=(1, 3), s2=(3, 7), g1=(1,), g2=(3,), k1={'qbuffer': 1}, k2={'qbuffer': 0})
        s.append(animation('animate loop %s' % b, qs, ex, 2, 4 + th, blocking=b))
        s.append(animation('animate loop for some time %s' % b, qs, ex, 1, 4 + th, stop=True, blocking=b))
    qs, ex = star(s1=(1, 5), s2=(2, 3), g1=(1, 2), k1={'num_servers': 2}, k2={'qbuffer': 1})
    s.append(animation('animate star', qs, ex, 1, 2 + 2 * th))
    qs, ex = nscen.cycle(RQ, RQ, s1=(1, 3), s2=(3,), g1=(1,), g2=(3,), k1={'num_servers': 2, 'qbuffer': 1}, k2={'num_servers': 2, 'qbuffer': 1})
    s.append(animation('animate resources', qs, ex, 1, 5 + th))
    qs, ex = nscen.fork(s1=(1,), s2=(3, 6), s3=(4,), g1=(1, 2), g2=(9,), k1={'num_servers': 2})
    s.append(animation('animate fork', qs, ex, 1, 2 + 2 * th))
    s.append(animation('animate with few agents', qs, ex, 1, 5 + th, max_agents=4))
    qs = [Q((v, 0), LQ if v % 2 else QS, (11 - v,), (9 + v,), {'qbuffer': 2} if v % 2 else {}) for v in range(1, 11)]
    s.append(undisturbed('draw a vertex with ten edges into it', qs, [(0, 11)], 9, L[:3], bound=1, final=0))
    s.append(undisturbed('draw a vertex with ten edges into it and a loop', qs[:9] + [Q((0, 0), QS, (3,), (5,))], [(0, 10)], 9, L[:2], bound=1, final=0, route='real'))
    # order of insertion
    ln, lnx = nscen.line()
    for w in (False, True):
        nm = ' in a wrapped graph' if w else ''
        s.append(first_look('first look%s' % nm, ln[:2], lnx, w))
        qs, ex = loops()
        s.append(first_look('first look at loops%s' % nm, qs[1:], ex, w))
        s.append(orders('orders loops%s' % nm, qs, ex, 3, wrapper=w, looks=LOOKS[1:3], cap=None if th else 5))
        qs, ex = star()
        s.append(orders('orders star%s' % nm, qs, ex, 3, wrapper=w, looks=LOOKS[1:3]))
    return s
