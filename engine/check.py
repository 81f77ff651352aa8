#!/usr/bin/env python3
"""Decide one property of /repo's current sources.   check.py ID [--thorough]

exit 0: held on everything analysed; 1: VIOLATION line printed; 2: the analysis itself is broken."""
import sys, os, time, json, tempfile, shutil, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import build
from checks import CHECKS
VERIF = build.VERIF

def run_driver(a):
    js, client, drv, opts, limit, peel, deadline = a
    t = time.time()
    limit = max(10, min(limit, deadline - t))
    try:
        from interp import Program
        import vf
        P = Program(js)
        if drv not in P.fns: return dict(client=client, driver=drv, error='driver missing', wall=0, obl=[], alarms=[], functions=[], unmodelled={}, taints={}, outcomes=0, steps=0, returned=0)
        I, outs, err = vf.analyse(P, drv, opts=opts, time_limit=limit, peel=peel)
        return dict(client=client, driver=drv, error=err, wall=round(time.time() - t, 2), steps=I.steps, outcomes=len(outs),
                    returned=sum(1 for s, k, v in outs if k == 'ret'),
                    obl=[[k[0], str(k[1])] + v for k, v in I.obl.items()],
                    alarms=[dict(a, msg=str(a['msg'])[:600], trace=[str(x)[:300] for x in a['trace'][-60:]]) for a in I.alarms.values()],
                    functions=sorted(I.analysed), unmodelled=I.unmodelled, taints=I.taints, dropped=I.dropped)
    except Exception:
        return dict(client=client, driver=drv, error='crash: ' + traceback.format_exc()[-1500:], wall=round(time.time() - t, 2), obl=[], alarms=[], functions=[], unmodelled={}, taints={}, outcomes=0, steps=0, returned=0)

def known():
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    spec = CHECKS[pid]
    t0 = time.time()
    EVID = os.environ.get('VF_EVID', VERIF + '/evidence')
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(pid + '.violation'): os.unlink(EVID + '/' + f)
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    broken = []
    results = []; facts = []
    try:
        drivers = list(spec.get('drivers', ()))
        if tier == 'thorough': drivers += list(spec.get('thorough', ()))
        clients = sorted(set(d[0] for d in drivers))
        limit = spec.get('limit', 240 if tier == 'quick' else 700)
        peel = 2 if tier == 'quick' else spec.get('thorough_peel', 3)
        if clients:
            try: js = build.build(work, clients)
            except build.BuildError as e:
                print('ANALYSIS-BROKEN: ' + str(e)); return 2
            jobs = [(js[d[0]], d[0], d[1], dict(d[2]) if len(d) > 2 else {}, limit, (d[3] if len(d) > 3 else peel), t0 + (480 if tier == 'quick' else 6000)) for d in drivers]
            with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
                for r in pool.imap_unordered(run_driver, jobs, chunksize=1): results.append(r)
            results.sort(key=lambda r: (r['client'], r['driver']))
        for fn in spec.get('static', ()):
            try: facts.append(fn(work, tier))
            except build.BuildError as e:
                print('ANALYSIS-BROKEN: ' + str(e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rules = set(spec.get('rules', ())) | {pid}
    viol = []; n = [0, 0, 0]; oblist = []; funcs = set(); und = []
    for r in results:
        funcs.update(r['functions'])
        for rule, site, a, b, c in r['obl']:
            if rule not in rules: continue
            n[0] += a; n[1] += b; n[2] += c
            oblist.append('%s/%s: %s: %s (proved on %d abstract paths%s%s)' % (r['client'], r['driver'], rule, site, a, ', failed on %d' % b if b else '', ', undecided on %d' % c if c else ''))
            if c: und.append('%s/%s: %s' % (r['driver'], rule, site))
        for al in r['alarms']:
            if al['rule'] in rules: viol.append(dict(al, driver=r['driver'], client=r['client']))
        if r['error']: broken.append('%s/%s: %s' % (r['client'], r['driver'], r['error']))
        elif not r['returned'] and not r['alarms']: broken.append('%s/%s: no path returns' % (r['client'], r['driver']))
    for f in facts:
        n[0] += f['proved']; n[1] += len(f['violations'])
        oblist += f['obligations']
        funcs.update(f.get('functions', ()))
        for v in f['violations']: viol.append(v)
        if f.get('broken'): broken.append(f['broken'])
    kf = [k for k in known() if k['property'] == pid]
    fresh = []; seen = []
    for v in viol:
        for k in kf:
            if k.get('driver', v.get('driver')) == v.get('driver') and k['msg'] in v['msg'] and k.get('fn', '') in str(v.get('fn', '')) + ' ' + ' '.join(map(str, v.get('backtrace', ()))):
                seen.append(k); break
        else: fresh.append(v)
    done = [r for r in results if not r['error']]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.get('level', 'other'),
              coverage=dict(explanation=spec['explain'], obligations=len(oblist), discharged=sum(1 for o in oblist if 'failed on' not in o and 'undecided on' not in o),
                            obligation_instances=dict(proved=n[0], failed=n[1], undecided=n[2]),
                            rules=sorted(rules), drivers=[dict(driver=r['client'] + '/' + r['driver'], wall_s=r['wall'], steps=r['steps'], abstract_outcomes=r['outcomes'], error=r['error']) for r in results],
                            functions_analysed=sorted(funcs), function_count=len(funcs), samples=oblist[:400],
                            undecided_obligations=und[:200], unmodelled_externals={k: v for r in results for k, v in r['unmodelled'].items()},
                            precision_losses={k: v for r in results for k, v in list(r['taints'].items())[:20]},
                            bounded_loops={'%s: %s' % (r['driver'], k): v for r in results for k, v in r.get('dropped', {}).items()},
                            not_covered=broken, static_rules=[f.get('evidence') for f in facts]),
              assumptions=spec.get('assume', ()) and list(spec['assume']) or [], wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(ev, open(EVID + '/%s.json' % pid, 'w'), indent=1)
    told = set()
    for k in seen:
        if k['what'] not in told:
            told.add(k['what']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for i, v in enumerate(fresh):
        p = EVID + '/%s.violation%d.txt' % (pid, i)
        with open(p, 'w') as f:
            f.write('property %s\nrule %s\nat %s\n%s\ndriver %s/%s\ncall path:\n' % (pid, v.get('rule'), v.get('loc'), v['msg'], v.get('client', '-'), v.get('driver', '-')))
            for b in v.get('backtrace', ()): f.write('  %s\n' % b)
            f.write('path:\n')
            for b in v.get('trace', ()): f.write('  %s\n' % b)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s at %s: %s [%s]' % (v.get('rule'), v.get('loc'), v['msg'][:300], v.get('fn') or v.get('driver', '')))
    if fresh: return 1
    if broken:
        for b in broken: print('NOT-COVERED: ' + b[:300])
    if (results and not done) or n[0] + n[1] + n[2] == 0:
        print('ANALYSIS-BROKEN: nothing was decided'); return 2
    print('OK property=%s obligations=%d (instances proved %d, undecided %d) functions=%d wall=%.1fs' % (pid, len(oblist), n[0], n[2], len(funcs), time.time() - t0))
    return 0

if __name__ == '__main__': sys.exit(main())
