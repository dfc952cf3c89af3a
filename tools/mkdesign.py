"""Assembles DESIGN.md from design_head.md, design_props.json, properties.jsonl and design_tail.md."""
import importlib, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = json.load(open(os.path.join(here, 'design_props.json')))
T = json.load(open(os.path.join(here, 'techniques.json')))
out = [open(os.path.join(here, 'design_head.md')).read()]
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    out.append('### %s %s\n\n*Method:* %s.\n\n%s\n' % (p['id'], p['title'], T[p['id']]['technique'], P[p['id']]))
out.append(open(os.path.join(here, 'design_tail.md')).read())
bugs = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    bugs.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
out.append('''## Planted changes and the checks that catch them

Each was written from a property and the code, confirmed to pass the stable tests and to fail its demonstration
(tools/trybug.sh), and is caught by the quick check of the property named (exit 1 with its VIOLATION line). None is missed;
those that were missed when written led to the scenarios that now catch them.

| change | caught by | needs |
|---|---|---|
''' + '\n'.join(bugs) + '\n')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
