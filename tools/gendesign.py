#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the texts below, properties.jsonl, checks.json,
seeded/*/meta.json and design_tail.md."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rd = lambda n: open(os.path.join(root, n)).read()
HOW = json.load(open(os.path.join(here, 'design_how.json')))
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
checks = json.loads(rd('checks.json'))
man = json.loads(rd('MANIFEST.json'))
na = {x['property']: x['reason'] for x in man.get('not_applicable', [])}
out = [rd('tools/design_head.md').rstrip(), '', '## 2. The properties', '']
for p in props:
    i = p['id']; out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    if i in na:
        out += ['*Not applicable*: ' + na[i], '']; continue
    c = checks[i]
    out += ['* **How**: ' + HOW[i], '* **Bounds (quick)**: ' + c['bounds']['quick'] + '.',
            '* **Bounds (thorough)**: ' + c['bounds']['thorough'] + '.', '* **Outside**: ' + c['outside'] + '.']
    if c['assumptions']: out += ['* **Assumed**: ' + '; '.join(c['assumptions']) + '.']
    if c['stubs']: out += ['* **Stand-ins**: ' + ', '.join(c['stubs']) + '.']
    s = sorted(glob.glob(os.path.join(root, 'seeded', i + '-*')))
    out += ['* **Seeded bugs**: ' + (', '.join(os.path.basename(x) for x in s) or 'none') + '.', '']
out += ['## 3. Seeded bugs', '',
        'Each was written from the statement of its property and the code, confirmed to build, to pass the',
        'tests and to fail its demonstration. "caught" is by the quick check of its own property.', '',
        '| bug | needs | breaks | caught |', '| --- | --- | --- | --- |']
caught = json.load(open(os.path.join(here, 'caught.json')))
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (n, m['needs'], m['what_it_breaks'], caught.get(n, '?')))
out += ['', rd('tools/design_tail.md').rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
