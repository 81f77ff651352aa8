#!/usr/bin/env python3
"""Developer tool: confirm planted bugs in scratch copies and run the check of their property.
   seedcheck.py [-c] [-j N] ID...     (-c: only the check, no build/tests/demo; also takes edits without demo)"""
import sys, os, subprocess, json, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = 'ip link set lo up; mount --bind "$0" /repo && cd /repo && exec "$@"'
def ns(copy, cmd, to=600):
    try:
        r = subprocess.run(['unshare', '-Urmn', 'bash', '-c', NS, copy] + cmd, capture_output=True, text=True, timeout=to, errors='replace')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e: return 124, 'timeout'
def one(sid, checkonly, props=None):
    d = sid if os.path.isdir(sid) else V + '/seeded/' + sid
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed_')
    out = []
    ok = True
    try:
        c = w + '/repo'; subprocess.run(['cp', '-a', '/repo', c], check=True)
        dd = w + '/demo'; shutil.copytree(d, dd)
        for f in os.listdir(dd):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.unlink(dd + '/' + f)
        if not checkonly:
            rc, o = ns(c, ['bash', '/opt/vp/build.sh'])
            if rc: out.append('BUILD-CLEAN FAILED ' + o[-500:]); ok = False
            rc, o = ns(c, ['bash', dd + '/demo.sh'], 300)
            if rc: out.append('DEMO-CLEAN rc=%d %s' % (rc, o[-1500:])); ok = False
        r = subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode: return sid, ['PATCH DOES NOT APPLY ' + r.stderr], False
        if not checkonly:
            rc, o = ns(c, ['bash', '/opt/vp/test.sh', w + '/out.json'])
            res = json.load(open(w + '/out.json')) if os.path.exists(w + '/out.json') else {'passed': [], 'failed': ['none']}
            base = json.load(open('/opt/vp/BASELINE.json'))
            if len(res['passed']) < 65: out.append('TESTS %d passed, failed %s %s' % (len(res['passed']), res['failed'], o[-600:] if not res['passed'] else '')); ok = False
            rc, o = ns(c, ['bash', dd + '/demo.sh'], 300)
            if rc == 0: out.append('DEMO DOES NOT FAIL WITH PATCH'); ok = False
            else: out.append('demo rc=%d: %s' % (rc, o.strip()[-200:].replace('\n', ' | ')))
        for p in (props or [meta['property']]):
            e = dict(os.environ, VF_REPO=c, VF_EVID=w)
            try:
                r = subprocess.run(['python3', V + '/engine/check.py', p], capture_output=True, text=True, env=e, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith('  ')][:2]
                out.append('%s check %s rc=%d %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED', p, r.returncode, ' || '.join(x.strip()[:220] for x in v) or r.stdout[-300:]))
            except subprocess.TimeoutExpired: out.append('MISSED check %s timeout' % p)
    finally: shutil.rmtree(w, ignore_errors=True)
    return sid, out, ok
if __name__ == '__main__':
    a = sys.argv[1:]; co = '-c' in a
    a = [x for x in a if x != '-c']
    j = 2
    if '-j' in a: i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    props = None
    if '-p' in a: i = a.index('-p'); props = a[i + 1].split(','); del a[i:i + 2]
    ids = a or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(j) as ex:
        for sid, out, ok in ex.map(lambda s: one(s, co, props), ids):
            print('== %s %s' % (os.path.basename(sid), 'ok' if ok else 'NOT CONFIRMED'))
            for o in out: print('   ' + o)
            sys.stdout.flush()
