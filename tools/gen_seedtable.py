#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a results file (JSON: "<bug>:<check>" -> caught|missed)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
rows = []
for n in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, n)))
    by = [k.split(':')[1] for k, v in sorted(res.items()) if k.split(':')[0] == n and v == 'caught']
    no = [k.split(':')[1] for k, v in sorted(res.items()) if k.split(':')[0] == n and v != 'caught']
    t = re.sub(r'\s+', ' ', m['needs']).replace('|', '/')
    rows.append('| %s | %s | %s |' % (n, ' '.join(by) or ('missed by ' + ' '.join(no) if no else 'not run'), t if len(t) < 150 else t[:147] + '...'))
p = H + '/DESIGN.md'; s = open(p).read()
new = '<!-- seeds -->\n| planted bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->|SEEDTABLE', lambda _: new, s, count=1, flags=re.S)
open(p, 'w').write(s)
