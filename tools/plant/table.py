#!/usr/bin/env python3
# Rewrites the table below the <!-- detection --> mark of DESIGN.md.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
det = json.load(open(root + '/tools/plant/detected.json'))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    x = det.get(i)
    also = ', '.join(x.get('also', [])) if x else ''
    rows.append('| %s | %s | %s | %s%s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '),
        'yes' if x and x['own'] else ('not run' if not x else 'no'), ' (also ' + also + ')' if also else ''))
p = root + '/DESIGN.md'
s = open(p).read().split('<!-- detection -->')[0] + '<!-- detection -->\n'
s += '| seeded change | property | needs | caught by its own check |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
