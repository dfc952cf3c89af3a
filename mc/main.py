"""Command line of the checks:  python -m mc.main C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time


def known_findings(pid):
    """Keys of the listed findings of a property: lines `finding: property=ID key=KEY text`."""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s key=' % pid):
                key, _, text = line.split('key=', 1)[1].strip().partition(' ')
                out[key] = text
    return out


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('OMP_NUM_THREADS') != '1':
        env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        env.setdefault('MPLCONFIGDIR', os.path.join(ROOT, '.cache', 'mpl'))
        os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
        os.execve(sys.executable, [sys.executable, '-m', 'mc.main'] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
    ap.add_argument('--only', help='only scenarios whose name contains this')
    ap.add_argument('--limit', type=float, default=None, help='seconds of exploration')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    from mc import build, explore
    mod_src = open(os.path.join(ROOT, 'mc', 'props', pid.lower() + '.py')).read()
    asan = '\nASAN = True' in mod_src
    try:
        if asan and 'libasan' not in os.environ.get('LD_PRELOAD', ''):
            build.build(True)
            env = dict(os.environ, LD_PRELOAD=build.asan_library(), PYTHONMALLOC='malloc',
                       ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1')
            os.execve(sys.executable, [sys.executable, '-m', 'mc.main'] + sys.argv[1:], env)
        build.load(asan)
    except build.BuildError as e:
        print('ERROR: the code under test does not build:\n%s' % e)
        return 2
    except Exception as e:
        print('ERROR: the code under test cannot be imported: %r' % (e,))
        return 2
    mod = importlib.import_module('mc.props.' + pid.lower())
    if a.replay:
        rep = json.load(open(a.replay))
        scens = {s.name: s for s in mod.scenarios(rep['tier'])}
        st, out = explore.in_child(scens[rep['scenario']], [tuple(d) for d in rep['decisions']])
        for line in out.get('notes', []):
            print('   ', line)
        if st == 'ok':
            print('the execution satisfies the property')
            return 0
        print(st, out.get('msg', out))
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1

    scens = mod.scenarios(tier)
    if a.only:
        scens = [s for s in scens if a.only in s.name]
    names = [s.name for s in scens]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    known = known_findings(pid)

    # Determinism of the harness: one execution of every scenario, twice, in fresh processes.
    limit = a.limit if a.limit else (600.0 if tier == 'quick' else 3000.0)
    res = explore.explore(scens, a.jobs, t0 + limit, tuple(known))
    if res.error:
        print('ERROR: the harness failed:\n' + res.error)
        return 2

    total = explore.Stats()
    rows = []
    for i, s in enumerate(scens):
        st = res.per[i]
        total.merge(st)
        rows.append({'scenario': s.name, 'executions': st.execs, 'states': len(st.states), 'transitions': st.steps,
                     'decision_points': st.points, 'distinct_outcomes': len(st.outcomes),
                     'deviation_bound': s.bound, 'max_deviations_reached': st.maxdev, 'complete': not st.capped and not res.violation})
    for k, (sn, dec, msg) in sorted(total.known.items()):
        print('KNOWN-FINDING: property=%s %s (scenario %s, decisions %s)' % (pid, known[k], sn, dec))
    nviol = 0
    if res.violation:
        nviol = 1
        v = res.violation
        scen = scens[v['si']]
        confirmed, notes, msg = False, [], v['msg']
        st, out = explore.in_child(scen, v['decisions'])
        if st in ('violation', 'crash'):
            confirmed = True
            if st == 'violation':
                small = explore.shrink(scen, v['decisions'], out['key'])
                st2, out2 = explore.in_child(scen, small)
                if st2 == 'violation':
                    v['decisions'], notes, msg = small, out2['notes'], out2['msg']
                else:
                    notes, msg = out['notes'], out['msg']
        else:
            msg += '\n(not reproduced in a fresh process: earlier executions in the same process influence this one)'
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, tier))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'scenario': scen.name, 'decisions': v['decisions'], 'key': v['key'],
                       'confirmed_in_fresh_process': confirmed, 'message': msg, 'history': notes}, f, indent=1)
        print('scenario: %s' % scen.name)
        for line in notes[:80]:
            print('   ', line)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(total.states), 'transitions': total.steps,
            'traces_validated_against_impl': total.execs,
            'exhaustive': not res.capped and not nviol,
            'explanation': 'stateless exploration of the real code: every execution is a run of the implementation under a '
                           'controlled environment, checked against an independent reference; states are distinct observable '
                           'states, transitions are operations and events executed, traces are complete executions',
            'distinct_outcomes': len(total.outcomes), 'decision_points': total.points,
            'scenarios': rows, 'samples': total.samples[:3],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'address_sanitizer': asan,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if a.v or True:
        for r in rows:
            print('%-34s executions=%-8d states=%-7d transitions=%-9d outcomes=%-6d bound=%d%s' % (
                r['scenario'], r['executions'], r['states'], r['transitions'], r['distinct_outcomes'], r['deviation_bound'],
                '' if r['complete'] else ' INCOMPLETE'))
    print('%s %s: %d executions, %d states, %d transitions, %d scenarios%s, %.1f s' % (
        pid, tier, total.execs, len(total.states), total.steps, len(scens), ' (capped)' if res.capped else '', time.time() - t0))
    return 1 if nviol else 0


if __name__ == '__main__':
    sys.exit(main())
