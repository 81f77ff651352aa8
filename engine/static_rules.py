"""Decisions that need no abstract interpretation: type-level witnesses and the shared-state taint analysis."""
import os, re, json, subprocess
import build
from concurrent.futures import ThreadPoolExecutor

def copies(work, tier):
    src = build.VERIF + '/static/copies.cpp'
    text = open(src).read()
    types = re.findall(r'^OWNER\((.*)\);', text, re.M)
    r = subprocess.run([build.CXX] + build.DEFS + ['-w', '-fsyntax-only', '-ferror-limit=0', '-I' + build.REPO + '/include', src], capture_output=True, text=True)
    bad = sorted(set(re.findall(r'(C07: [^"\n]*? can be copy (?:constructed|assigned))', '\n'.join(l for l in r.stderr.splitlines() if 'error:' in l))))
    errs = [l for l in r.stderr.splitlines() if 'error:' in l and 'C07: ' not in l]
    if errs and not bad: return dict(proved=0, violations=[], obligations=[], broken='copies.cpp: ' + errs[0][:300])
    ob = ['copies: %s is neither copy constructible nor copy assignable' % t for t in types]
    v = [dict(rule='copyable-owner', loc=build.REPO + '/include/frnetlib', msg=b[5:] + ': both copies release the resource it owns', fn=b[5:].split(' can ')[0]) for b in bad]
    return dict(proved=2 * len(types) - len(bad), violations=v, obligations=ob, evidence=dict(rule='owners are not copyable', types=types))

def shared_state(work, tier):
    tool = build.tool_bin('shared')
    flags = [x for x in build.FLAGS]
    srcs = build.sources() + [build.VERIF + '/static/instances.cpp']
    outs = [work + '/sh_%d.bc' % i for i in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(build.compile_one, [(s, o, []) for s, o in zip(srcs, outs)]):
            if rc: raise build.BuildError('%s does not compile:\n%s' % (src, err[-2000:]))
    j = work + '/shared.json'
    r = subprocess.run([tool, os.path.realpath(build.REPO) + '/', j] + outs, capture_output=True, text=True)
    if r.returncode: raise build.BuildError('shared: ' + r.stderr[-1000:])
    d = json.load(open(j))
    # the random generator of a TLS context is shared by all sockets made with it
    m = subprocess.run([build.CXX, '-E', '-dM', '-x', 'c++', '-'] + build.DEFS, input='#include <mbedtls/ssl.h>\n', capture_output=True, text=True).stdout
    threaded = re.search(r'#define MBEDTLS_THREADING_C\b', m) is not None
    ob = ['shared: %d variables with static storage: %d constant, %d thread_local, %d mutable and shared' % (d['globals'], d['constant'], d['thread_local'], len(d['shared']))]
    ob += ['shared: every use of %s in %d functions reads it, is atomic or initialises it' % (n, d['functions']) for n in d['shared']]
    ob += ['shared: no function of a socket or listener modifies the TLS context it shares (%d uses of shared objects examined)' % d['uses'],
           'shared: no function calls a C library function that returns static storage', 'shared: the TLS library serialises its random generator (MBEDTLS_THREADING_C): %s' % threaded]
    v = [dict(rule=x['rule'], loc='%s:%d' % (x['file'], x['line']), msg=('%s is written without synchronisation: %s' % (x['object'], x['what'])) if x['rule'] == 'shared-write' else '%s: %s' % (x['object'], x['what']), fn=x['function'],
              backtrace=['%s %s:%d' % (x['function'], x['file'], x['line'])]) for x in d['violations']]
    return dict(proved=d['functions'], functions=d['function_names'], violations=v, obligations=ob, evidence=dict(rule='objects share no unsynchronised mutable state', shared=d['shared'], uses=d['uses'], writes_seen=d['writes'], functions=d['functions']))
