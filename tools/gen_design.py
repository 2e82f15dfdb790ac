#!/usr/bin/env python3
"""DESIGN.md = design_head.md + design_body.md + table of the planted bugs (seeded/*/meta.json)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
rows = []
for path in sorted(glob.glob(os.path.join(HERE, '..', 'seeded', '*', 'meta.json'))):
    meta = json.load(open(path))
    name = os.path.basename(os.path.dirname(path))
    needs = ' '.join(meta['needs'].split())
    rows.append('| %s | %s | %s |' % (name, meta.get('caught_by', meta['property']), needs[:150].replace('|', '/')))
text = open(os.path.join(HERE, 'design_head.md')).read() + '\n' + open(os.path.join(HERE, 'design_body.md')).read()
text += '\n### Planted bugs and the checks that catch them\n\n| bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(os.path.join(HERE, '..', 'DESIGN.md'), 'w').write(text)
