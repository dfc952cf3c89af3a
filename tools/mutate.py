"""Mechanical mutants of the Python sources, to look for gaps in the checks.

    python3 tools/mutate.py list                       numbers and describes them
    python3 tools/mutate.py run OUT [from to [jobs]]   tests, then checks, in scratch copies under /tmp/mut

For every mutant the existing tests run first (in a copy); those that survive are given to the
checks that watch the function concerned, quick tier, and the first one that reports it is noted.
"""
import ast
import json
import os
import random
import subprocess
import sys
from multiprocessing.pool import ThreadPool

REPO = '/repo'
FILES = ['queueing_tool/queues/queue_servers.py', 'queueing_tool/queues/queue_extentions.py', 'queueing_tool/queues/agents.py',
         'queueing_tool/network/queue_network.py', 'queueing_tool/graph/graph_wrapper.py', 'queueing_tool/graph/graph_preparation.py',
         'queueing_tool/graph/graph_functions.py', 'queueing_tool/graph/graph_generation.py', 'queueing_tool/union_find.py']

CHECKS = [  # (file part, qualified-name part, checks in order)
    ('queue_servers', 'poisson', 'C24'), ('queue_servers', 'LossQueue', 'C06 C02 C07 C04 C10 C14 C05'), ('queue_servers', 'NullQueue', 'C12 C20 C07 C26 C18 C27'),
    ('queue_servers', '_current_color', 'C26'), ('queue_servers', 'fetch_data', 'C07 C18'), ('queue_servers', '__init__', 'C01 C03 C27 C20 C10 C26'),
    ('queue_servers', 'simulate', 'C05'), ('queue_servers', 'delay', 'C28 C14'), ('queue_servers', 'clear', 'C10'),
    ('queue_servers', '', 'C01 C02 C03 C04 C07 C06 C05 C10 C12 C28 C08 C17'),
    ('queue_extentions', '_current_color', 'C26'), ('queue_extentions', 'Resource', 'C08 C12 C10 C04 C26 C07 C20'), ('queue_extentions', 'Info', 'C09 C03 C10 C02 C20'),
    ('agents', '', 'C13 C14 C04 C12 C01'),
    ('queue_network', 'copy', 'C17'), ('queue_network', 'color', 'C26'), ('queue_network', 'show_', 'C26'), ('queue_network', 'draw', 'C26'), ('queue_network', 'animate', 'C26'),
    ('queue_network', 'transitions', 'C16 C13'), ('queue_network', 'data', 'C18'), ('queue_network', '_get_queues', 'C18 C25'), ('queue_network', 'initialize', 'C25 C15 C11'),
    ('queue_network', '__init__', 'C20 C27 C26 C11 C13'), ('queue_network', 'clear', 'C10'), ('queue_network', '_simulate_next', 'C11 C12 C14 C15 C13 C26 C25'),
    ('queue_network', '', 'C11 C14 C15 C12 C25 C10 C18'),
    ('graph_wrapper', 'draw', 'C26'), ('graph_wrapper', 'lines', 'C26'), ('graph_wrapper', 'adj', 'C19 C20'), ('graph_wrapper', '_dict', 'C19'), ('graph_wrapper', '_mat', 'C19'),
    ('graph_wrapper', '', 'C29 C19 C26 C20'), ('graph_preparation', '', 'C20 C26 C27'), ('graph_functions', '', 'C19 C29 C23'),
    ('graph_generation', '', 'C23 C27'), ('union_find', '', 'C22 C23')]

SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*'}


def offsets(src):
    out = [0]
    for l in src.encode().split(b'\n'):
        out.append(out[-1] + len(l) + 1)
    return out


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    raw = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(qual, n, a, b, new, what):
        out.append((path, '.'.join(qual), n.lineno, a, b, new, what))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, qual, inside=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            qual = qual + [n.name]
        inside = inside or isinstance(n, ast.FunctionDef)
        if isinstance(n, ast.FunctionDef) and n.name == '__repr__':
            return
        if not inside:
            for c in ast.iter_child_nodes(n):
                visit(c, qual)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, b = span(n)
            add(qual, n, a, b, '(%s %s %s)' % (text(l), SWAP[type(n.ops[0])], text(r)), '%s -> %s' % (text(n), SWAP[type(n.ops[0])]))
        if isinstance(n, ast.BoolOp):
            a, b = span(n)
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                add(qual, n, a, b, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'drop %s' % text(n.values[i]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            add(qual, n, a, b, '(%s)' % text(n.operand), 'not removed')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            a, b = span(n)
            add(qual, n, a, b, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), '%s -> %s' % (text(n)[:50], BIN[type(n.op)]))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            add(qual, n, a, b, repr(n.value + 1), '%r -> %r' % (n.value, n.value + 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            add(qual, n, a, b, repr(not n.value), '%r flipped' % n.value)
        if isinstance(n, ast.If) and qual:
            a, b = span(n.test)
            add(qual, n, a, b, 'True', 'if %s -> True' % text(n.test)[:50])
            add(qual, n, a, b, 'False', 'if %s -> False' % text(n.test)[:50])
        if qual and isinstance(n, (ast.AugAssign, ast.Assign, ast.Expr, ast.Break, ast.Continue)) or qual and isinstance(n, ast.Return) and n.value is None:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                a, b = span(n)
                add(qual, n, a, b, 'pass', 'drop %s' % text(n)[:60])
        for c in ast.iter_child_nodes(n):
            visit(c, qual, inside)
    visit(tree, [])
    seen, res = set(), []
    for m in out:
        k = (m[3], m[4], m[5])
        if k in seen or m[1] == '':
            continue
        seen.add(k)
        res.append(m)
    return res


def everything():
    out = []
    for f in FILES:
        out += mutants(f)
    return out


def checks_for(m):
    for f, q, cs in CHECKS:
        if f in m[0] and q.lower() in m[1].lower():
            return cs.split()
    return []


def one(job):
    i, m, base, deselect = job
    d = '/tmp/mut/w%d' % i
    subprocess.run(['/bin/rm', '-rf', d])
    subprocess.run(['cp', '-a', base, d])
    p = os.path.join(d, m[0])
    raw = open(p, 'rb').read()
    open(p, 'wb').write(raw[:m[3]] + m[5].encode() + raw[m[4]:])
    res = {'i': i, 'file': m[0], 'in': m[1], 'line': m[2], 'what': m[6], 'checks': {}}
    env = dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-p', 'randomly', '--randomly-seed=1',
                            '--randomly-dont-reorganize'] + deselect, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        killed = r.returncode != 0
        res['tests'] = 'killed' if killed else 'survives'
        if r.returncode not in (0, 1, 2):
            res['tests'] = 'odd %d' % r.returncode
    except subprocess.TimeoutExpired:
        killed = True
        res['tests'] = 'killed (time)'
    if not killed:
        res['found'] = None
        for c in checks_for(m):
            v = '/tmp/mut/v%d' % i
            subprocess.run(['/bin/rm', '-rf', v])
            os.makedirs(v)
            for x in ('mc', 'check', 'KNOWN_FINDINGS.txt', 'properties.jsonl', 'MANIFEST.json'):
                subprocess.run(['cp', '-a', '/verif/' + x, v])
            os.makedirs(v + '/.cache')
            subprocess.run('cp -a /verif/.cache/ext-* %s/.cache/' % v, shell=True)
            try:
                r = subprocess.run(['./check', c, '--tier', 'quick', '--jobs', '2'], cwd=v, env=dict(env, VERIF_REPO=d, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                res['checks'][c] = r.returncode
                if r.returncode == 1 and b'VIOLATION' in r.stdout:
                    res['found'] = c
                    break
                if r.returncode not in (0, 1):
                    res['checks'][c] = r.stdout[-300:].decode(errors='replace')
            except subprocess.TimeoutExpired:
                res['checks'][c] = 'time'
        subprocess.run(['/bin/rm', '-rf', '/tmp/mut/v%d' % i])
    subprocess.run(['/bin/rm', '-rf', d])
    return res


def main():
    ms = everything()
    if sys.argv[1] == 'list':
        for i, m in enumerate(ms):
            print(i, m[0], m[1], m[2], m[6], checks_for(m))
        return
    out = sys.argv[2]
    only = None
    lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, len(ms))
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 7
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['i'] for l in open(out)}
    os.makedirs('/tmp/mut', exist_ok=True)
    base = '/tmp/mut/base'
    subprocess.run(['/bin/rm', '-rf', base])
    subprocess.run(['cp', '-a', REPO, base])
    b = json.load(open('/opt/vp/BASELINE.json'))
    deselect = []
    for t in b.get('flaky', []):
        deselect += ['--deselect', t]
    todo = [(i, ms[i], base, deselect) for i in range(lo, min(hi, len(ms))) if i not in done]
    random.Random(1).shuffle(todo)         # a representative part early
    with open(out, 'a') as fh:
        for r in ThreadPool(jobs).imap_unordered(one, todo):
            fh.write(json.dumps(r) + '\n')
            fh.flush()


if __name__ == '__main__':
    main()
