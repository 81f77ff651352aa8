#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md; caught.json is written by hand-run seedcheck (missed ones listed here)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(l.strip() for l in open(V + '/tools/missed.txt')) if os.path.exists(V + '/tools/missed.txt') else set()
rows = ['| bug | needs | breaks | check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['needs'], m['what_it_breaks'], 'missed' if d in MISSED else m['property'] + ' caught'))
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
