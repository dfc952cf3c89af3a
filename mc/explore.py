"""Stateless, exhaustive, deviation-bounded exploration of executions of the real code.

A scenario is a function of a context.  Every decision that the environment makes in an
execution (an inter-arrival time, a service time, a destination, a random draw, the next
operation of the user, ...) is asked from the context with `choose`.  The explorer runs the scenario
again and again, replaying a prefix of decisions and taking decision 0 afterwards, until every
alternative has been taken: alternatives of FREE points always, alternatives of DEV points as
long as the execution deviates from decision 0 at no more than `bound` DEV points.
"""
import collections
import mmap
import multiprocessing
import os
import pickle
import resource
import select
import signal
import struct
import time
import traceback

FREE, DEV = 0, 1


class Violation(Exception):
    """The property does not hold in this execution.  `key` identifies a known finding."""

    def __init__(self, msg, key=None):
        super(Violation, self).__init__(msg)
        self.msg, self.key = msg, key


class Hang(BaseException):
    pass


class Divergence(Exception):
    """Replaying the same decisions met a different decision point."""


class HarnessError(Exception):
    """The harness is at fault (never reported as a violation)."""


class Ctx(object):
    def __init__(self, prefix=(), states=None):
        self.prefix = prefix
        self.points = []        # (choice, n, kind)
        self.steps = 0
        self.states = states
        self.notes = []
        self.outcome = None

    def choose(self, n, kind=FREE):
        i = len(self.points)
        if n <= 0:
            raise HarnessError('choose(%r)' % (n,))
        if i < len(self.prefix):
            c, m = self.prefix[i]
            if m != n:
                raise Divergence('decision %d has %d alternatives instead of %d' % (i, n, m))
        else:
            c = 0
        self.points.append((c, n, kind))
        if i > 5000:
            raise Hang('more than 5000 decisions')
        return c

    def pick(self, seq, kind=FREE):
        return seq[self.choose(len(seq), kind)] if len(seq) > 1 else seq[0]

    def step(self, n=1):
        self.steps += n

    def state(self, obj):
        if self.states is not None:
            self.states.add(hash(obj))

    def note(self, *parts):
        self.notes.append(parts)


Scenario = collections.namedtuple('Scenario', 'name run bound')
Scenario.__new__.__defaults__ = (0,)

_CPU_LIMIT = 25.0


def _on_alarm(signum, frame):
    raise Hang('execution did not finish within %d s of processor time' % _CPU_LIMIT)


def run_one(scen, prefix, states=None):
    """Runs one execution; returns (ctx, violation or None)."""
    ctx = Ctx(prefix, states)
    viol = None
    signal.setitimer(signal.ITIMER_PROF, _CPU_LIMIT)
    try:
        ctx.outcome = scen.run(ctx)
        if len(ctx.points) < len(prefix):
            raise Divergence('%d decisions instead of at least %d' % (len(ctx.points), len(prefix)))
    except Violation as e:
        viol = e
    except Divergence as e:
        viol = Violation('the code under test did not repeat itself: the same environment answers led to a '
                         'different execution (%s)' % e, key='divergence')
    except Hang as e:
        viol = Violation('hang: %s\n%s' % (e, _tail(e)), key='hang')
    except HarnessError:
        raise
    except MemoryError as e:
        viol = Violation('out of memory\n' + _tail(e), key='memory')
    except Exception as e:
        viol = Violation('exception from the code under test in a legitimate history: %s: %s\n%s'
                         % (type(e).__name__, e, _tail(e)), key='exception')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx, viol


def _tail(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])


def children(ctx, prefix_len, bound):
    """Prefixes of the executions that branch off this one after its prefix."""
    out = []
    pts = ctx.points
    dev = sum(1 for c, n, k in pts[:prefix_len] if k == DEV and c)
    base = [(c, n) for c, n, k in pts]
    for i in range(prefix_len, len(pts)):
        c, n, kind = pts[i]
        if n > 1 and (kind == FREE or dev < bound):
            for alt in range(1, n):
                out.append(base[:i] + [(alt, n)])
    return out


class Stats(object):
    def __init__(self):
        self.execs = 0
        self.steps = 0
        self.points = 0
        self.maxdev = 0
        self.outcomes = set()
        self.states = set()
        self.samples = []
        self.known = {}
        self.capped = False

    def merge(self, o):
        self.execs += o.execs
        self.steps += o.steps
        self.points += o.points
        self.maxdev = max(self.maxdev, o.maxdev)
        self.outcomes |= o.outcomes
        self.states |= o.states
        if len(self.samples) < 3:
            self.samples.extend(o.samples[:3 - len(self.samples)])
        for k, v in o.known.items():
            self.known.setdefault(k, v)


def _explore_batch(scen, stack, budget, known_keys, announce):
    """Depth-first exploration for `budget` seconds. Returns stats, leftover prefixes, violation."""
    st = Stats()
    end = time.time() + budget
    while stack:
        prefix = stack.pop()
        announce(prefix)
        ctx, viol = run_one(scen, prefix, st.states)
        st.execs += 1
        st.steps += ctx.steps
        st.points += len(ctx.points)
        st.maxdev = max(st.maxdev, sum(1 for c, n, k in ctx.points if k == DEV and c))
        if viol is not None:
            if viol.key in known_keys:
                st.known.setdefault(viol.key, (scen.name, [c for c, n, k in ctx.points], viol.msg))
            else:
                return st, stack, (prefix, [(c, n) for c, n, k in ctx.points], viol)
        st.outcomes.add(hash(ctx.outcome))
        if st.execs in (1, 40, 1000):
            st.samples.append({'scenario': scen.name, 'decisions': [c for c, n, k in ctx.points],
                               'history': [' '.join(map(str, p)) for p in ctx.notes][:40],
                               'outcome': repr(ctx.outcome)[:300]})
        stack.extend(reversed(children(ctx, len(prefix), scen.bound)))
        if time.time() > end:
            break
    return st, stack, None


_SLOT = 65536


def limit_memory():
    if 'libasan' not in os.environ.get('LD_PRELOAD', ''):       # the sanitizer reserves address space
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(conn, scens, slot, known_keys):
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    limit_memory()
    serial = 0

    while True:
        try:
            msg = conn.recv_bytes()
        except EOFError:
            os._exit(0)
        si, stack, budget = pickle.loads(msg)

        def announce(prefix):
            nonlocal serial
            serial += 1
            data = pickle.dumps((si, prefix), 4)
            if len(data) > _SLOT - 24:
                data = pickle.dumps((si, prefix[:500]), 4)
            slot[16:16 + len(data)] = data
            slot[0:16] = struct.pack('QQ', serial, len(data))
        try:
            st, rest, viol = _explore_batch(scens[si], stack, budget, known_keys, announce)
            out = ('ok', si, st, rest, None if viol is None else (viol[0], viol[1], viol[2].msg, viol[2].key))
        except BaseException as e:
            c = e.__cause__
            out = ('error', si, _tail(e) + ('' if c is None else '\ncaused by\n' + _tail(c)))
        conn.send_bytes(pickle.dumps(out, 4))


class Result(object):
    def __init__(self):
        self.per = {}
        self.violation = None     # dict
        self.error = None
        self.capped = False


def explore(scens, jobs, deadline, known_keys=()):
    """Explores all scenarios on `jobs` processes. Returns a Result."""
    mp = multiprocessing.get_context('fork')
    res = Result()
    res.per = {i: Stats() for i in range(len(scens))}
    todo = collections.deque((i, [[]]) for i in range(len(scens)))
    workers = {}
    stop_at = deadline

    def spawn():
        slot = mmap.mmap(-1, _SLOT)
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b, scens, slot, known_keys))
        p.start()
        b.close()
        workers[a] = {'p': p, 'slot': slot, 'task': None, 'serial': 0, 'since': time.time()}

    for _ in range(jobs):
        spawn()
    try:
        while True:
            idle = [c for c, w in workers.items() if w['task'] is None]
            if not todo and len(idle) == len(workers):
                break
            if time.time() > stop_at:
                res.capped = True
                for i, _ in todo:
                    res.per[i].capped = True
                for w in workers.values():
                    if w['task'] is not None:
                        res.per[w['task']].capped = True
                break
            for c in idle:
                if not todo:
                    break
                i, stack = todo.popleft()
                take = max(1, min(len(stack), 1 + len(stack) // (2 * jobs))) if len(stack) > 1 else 1
                if len(stack) > take:
                    todo.append((i, stack[take:]))
                batch = stack[:take]
                hungry = len(todo) < jobs
                w = workers[c]
                w['task'], w['since'], w['serial'] = i, time.time(), None
                c.send_bytes(pickle.dumps((i, batch, 0.05 if hungry else 0.4), 4))
            busy = [c for c, w in workers.items() if w['task'] is not None]
            ready, _, _ = select.select(busy, [], [], 1.0)
            now = time.time()
            for c in busy:
                w = workers[c]
                if c in ready:
                    try:
                        out = pickle.loads(c.recv_bytes())
                    except (EOFError, OSError):
                        w['p'].join()
                        si, prefix = _slot_read(w['slot'])
                        res.violation = {'scenario': scens[si].name, 'si': si, 'decisions': prefix, 'key': 'crash',
                                         'msg': 'the process running the code under test died (exit code %s)' % w['p'].exitcode}
                        return res
                    if out[0] == 'error':
                        res.error = out[2]
                        return res
                    _, si, st, rest, viol = out
                    w['task'] = None
                    res.per[si].merge(st)
                    if rest:
                        todo.appendleft((si, rest))
                    if viol is not None:
                        prefix, decisions, msg, key = viol
                        res.violation = {'scenario': scens[si].name, 'si': si, 'decisions': decisions,
                                         'msg': msg, 'key': key}
                        return res
                else:
                    s = struct.unpack('QQ', w['slot'][0:16])[0]
                    if s != w['serial']:
                        w['serial'], w['since'] = s, now
                    elif now - w['since'] > 6 * _CPU_LIMIT:
                        si, prefix = _slot_read(w['slot'])
                        res.violation = {'scenario': scens[si].name, 'si': si, 'decisions': prefix, 'key': 'hang',
                                         'msg': 'hang: one execution made no progress for %d s' % (6 * _CPU_LIMIT)}
                        return res
    finally:
        for c, w in workers.items():
            w['p'].kill()
        for c, w in workers.items():
            w['p'].join()
            c.close()
    return res


def _slot_read(slot):
    _, ln = struct.unpack('QQ', slot[0:16])
    return pickle.loads(slot[16:16 + ln])


def in_child(scen, prefix, limit=120):
    """Runs one execution in a fresh child process: (status, payload).

    status is 'ok', 'violation', 'error' or 'crash'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, _on_alarm)
            limit_memory()
            try:
                ctx, viol = run_one(scen, prefix)
                out = ('ok' if viol is None else 'violation',
                       {'decisions': [(c, n) for c, n, k in ctx.points],
                        'notes': [' '.join(map(str, p)) for p in ctx.notes],
                        'msg': None if viol is None else viol.msg, 'key': None if viol is None else viol.key})
            except BaseException as e:
                out = ('error', _tail(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + limit
    with os.fdopen(r, 'rb') as f:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(f.fileno(), 1 << 16)
            if not b:
                break
            data += b
    _, status = os.waitpid(pid, 0)
    if not data:
        return 'crash', {'status': status}
    return pickle.loads(data)


def shrink(scen, decisions, key, budget=20.0):
    """Looks for a simpler failing execution: fewer non-zero decisions, shorter prefix."""
    end = time.time() + budget
    best = list(decisions)
    while best and best[-1][0] == 0:
        best.pop()
    progress = True
    while progress and time.time() < end:
        progress = False
        for i in range(len(best)):
            if time.time() > end:
                break
            if best[i][0] == 0:
                continue
            cand = best[:i]            # everything from i on takes the default
            st, out = in_child(scen, cand)
            if st == 'violation' and out['key'] == key:
                best, progress = cand, True
                break
            cand = best[:i] + [(0, best[i][1])] + best[i + 1:]
            st, out = in_child(scen, cand)
            if st == 'violation' and out['key'] == key:
                best, progress = cand, True
                break
        while best and best[-1][0] == 0:
            best.pop()
    return best
