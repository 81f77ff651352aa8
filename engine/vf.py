"""Analysis of one driver of one client.   Developer entry: vf.py client driver [-v] [-n]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from interp import Program, Interp, Budget, Unsupported
from state import *
import models

def analyse(prog, drv, opts=None, time_limit=600, peel=2):
    """returns (interpreter, outcomes, error text or None)"""
    I = Interp(prog, peel=peel, time_limit=time_limit, opts=opts or {})
    st = I.initial()
    states = [st]; outs = []; err = None
    try:
        for c in prog.ctors:
            nm = c[0] if isinstance(c, list) else c
            nxt = []
            for s in states:
                for s2, k, v in I.invoke(s, nm, [], {'t': 'void'}):
                    if k == 'ret': nxt.append(s2)
            states = nxt
        for s in states:
            outs += I.invoke(s, drv, [], {'t': 'void'})
    except Budget as e: err = 'budget: %s' % e
    except Unsupported as e: err = 'unsupported: %s' % e
    except RecursionError: err = 'unsupported: recursion'
    for (rule, msg, loc), (maybe, never, path, bt, tr) in I.always.items():
        if never and not maybe and not I.dropped and not err and not I.alarms:
            I.obl.setdefault((rule, msg), [0, 0, 0])[1] += 1
            I.alarms[(rule, loc, msg)] = dict(rule=rule, loc=loc, msg=msg + ' (on no path at all)', fn=path, backtrace=bt, trace=tr, count=never)
    for s, k, v in outs:
        rec = I.obl.setdefault(('uncaught-exception', drv), [0, 0, 0])
        if k != 'exc': rec[0] += 1
        elif s.lossy or not I.confirm(s): rec[2] += 1
        else:
            rec[1] += 1
            t = v[0] if v else '?'
            tr = [x for x in s.tr(200) if str(x).startswith('throws')]
            I.alarm(s, 'uncaught-exception', 'an exception of type %s escapes%s' % (t, (' (' + str(tr[-1]) + ')') if tr else ''), drv)
    return I, outs, err

if __name__ == '__main__':
    client, drv = sys.argv[1:3]
    v = '-v' in sys.argv
    work = os.environ.get('VFW', '/tmp/vfw'); os.makedirs(work, exist_ok=True)
    if '-n' not in sys.argv: build.build(work, [client])
    t = time.time()
    P = Program(work + '/' + client + '.json')
    drvs = [drv]
    if drv == 'all': drvs = sorted(n for n in P.fns if n.startswith('drv_'))
    for drv in drvs:
        t = time.time()
        I, outs, err = analyse(P, drv, opts=eval(os.environ.get('OPTS', '{}')), time_limit=int(os.environ.get('TL', '120')), peel=int(os.environ.get('PEEL', '2')))
        nl = sum(1 for s, k, v2 in outs if s.lossy)
        o = [sum(r[j] for r in I.obl.values()) for j in range(3)]
        print('== %s %s: %.2f s, %d steps, %d outcomes (%d lossy), obligations proved %d failed %d undecided %d %s' % (client, drv, time.time() - t, I.steps, len(outs), nl, o[0], o[1], o[2], err or ''))
        if v:
            for s, k, v2 in outs[:40]: print('  outcome', k, v2, 'LOSSY ' + str(s.why) if s.lossy else '')
        for k, r in sorted(I.obl.items()):
            if v or r[1] or r[2]: print('  ', k, r)
        for a in I.alarms.values():
            print('ALARM', a['rule'], a['loc'], a['msg'][:300], 'x%d' % a['count'])
            if v:
                for b in a['backtrace']: print('     at', b)
                print('     trace:', ' ; '.join(map(str, a['trace'][-40:]))[:3000])
        if I.unmodelled: print('unmodelled', {k[:80]: n for k, n in I.unmodelled.items()})
        if I.taints: print('taints', dict(sorted(I.taints.items(), key=lambda x: -x[1])[:12]))
