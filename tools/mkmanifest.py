#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from engine/checks.py and properties.jsonl"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
from checks import CHECKS
NA = {}
for l in open(V + '/tools/na.json') if False else (): pass
NA = json.load(open(V + '/tools/na.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 engine/check.py ' + i, thorough_cmd='python3 engine/check.py %s --thorough' % i,
                           technique=c.get('technique', 'abstract interpretation of LLVM IR with most-general clients (typestate/relational/ownership domains)'),
                           level=c.get('level', 'other'), level_note=c.get('note', 'static analysis: over-approximating abstract interpretation for proofs, alarms only on exact states with a concrete member; environment by contract model')))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, 'engine'); import build; build.irdump_bin(); build.tool_bin('shared')\"", checks=checks, not_applicable=na,
         notes='All checks are engine/check.py ID; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
