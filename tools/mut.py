#!/usr/bin/env python3
"""Developer tool: apply textual changes to a copy of /repo and see which checks report them.
mut.py SPEC.py   where SPEC.py defines M = [(properties, path, old, new), ...]"""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [int(x) for x in sys.argv[2:]]
def one(a):
    i, (props, path, old, new) = a
    d = tempfile.mkdtemp(prefix='mut_'); e = d + '/ev'
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*'))
        t = open(d + '/r/' + path).read()
        if t.count(old) < 1: return i, 'NO MATCH'
        open(d + '/r/' + path, 'w').write(t.replace(old, new, 1))
        out = []
        for p in props.split():
            r = subprocess.run([sys.executable, V + '/engine/check.py', p], capture_output=True, text=True, env=dict(os.environ, VF_REPO=d + '/r', VF_EVID=e))
            l = [x for x in r.stdout.splitlines() if x.startswith('  ')][:2]
            out.append('%s:%s %s' % (p, {0: 'missed', 1: 'CAUGHT', 2: 'BROKEN'}.get(r.returncode, r.returncode), (l[0][:150] if l else r.stdout[-200:] if r.returncode else '')))
        return i, ' | '.join(out)
    finally: shutil.rmtree(d, ignore_errors=True)
ms = [(i, m) for i, m in enumerate(ns['M']) if not sel or i in sel]
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for i, r in ex.map(one, ms): print(i, repr(ns['M'][i][3][:60]), '->', r, flush=True)
