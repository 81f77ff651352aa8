#!/usr/bin/env python3
"""Write /verif/known_findings.json: the repairs committed to /repo, by commit subject; findings are listed here by hand."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = json.load(open(V + '/tools/fixes.json'))
FIND = json.load(open(V + '/tools/findings.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    for prop in WHAT.get(s, ['?']):
        fixed.append('fixed: property=%s %s %s' % (prop, h, s[5:]))
        if prop == '?': print('no property for', s)
json.dump(dict(findings=FIND, fixed=fixed), open(V + '/known_findings.json', 'w'), indent=1)
open(V + '/known_findings.json', 'a').write('\n')
