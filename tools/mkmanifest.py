"""Writes MANIFEST.json from properties.jsonl and the checks present in mc/props."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(root, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(root, 'mc', 'props', i.lower() + '.py')):
        t = T[i]
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t['technique'], 'level': 'model_checking', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all seams are public (arrival, service and agent factories, agent notifications) or module functions of numpy replaced before import.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
