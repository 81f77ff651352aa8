"""Compile the current sources of /repo together with the model and the clients to LLVM IR and dump it."""
import os, subprocess, sys, glob, hashlib, json, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
DEFS = ('-std=c++14 -DMAX_HTTP_HEADER_SIZE=0xC800 -DMAX_HTTP_BODY_SIZE=0xA00000 -DLISTEN_QUEUE_SIZE=64 -DUSE_SSL -DNOMINMAX '
        '-Dhtonf -Dhtonll -Dntohll -Dhtond -Dntodh -DFRNETLIB_STATIC -pthread').split()
FLAGS = '-O0 -Xclang -disable-O0-optnone -g -w -c -emit-llvm -fno-discard-value-names'.split()
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

class BuildError(Exception): pass

def irdump_bin(): return tool_bin('irdump')

def tool_bin(name):
    src = VERIF + '/tools/%s.cpp' % name
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = VERIF + '/build/%s-%s' % (name, h)
    if not os.path.exists(out):
        os.makedirs(VERIF + '/build', exist_ok=True)
        cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
        fl = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
        fl = [x for x in fl if not x.startswith('-std=')]
        ld = subprocess.check_output([cfg, '--ldflags', '--libs'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([CXX, '-std=c++17', '-O1', '-fno-rtti'] + fl + [src, '-o', tmp] + ld, capture_output=True, text=True)
        if r.returncode: raise BuildError(name + ': ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out

def sources():
    """translation units of the library, as its own CMakeLists lists them"""
    s = sorted(glob.glob(REPO + '/src/*.cpp'))
    if not s: raise BuildError('no sources under ' + REPO + '/src')
    return s

def compile_one(a):
    src, out, extra = a
    cmd = [CXX] + DEFS + extra + FLAGS + ['-I' + REPO + '/include', '-I' + VERIF + '/model', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return src, r.returncode, r.stderr

def build(work, clients, lib=True):
    """returns {client: json path}"""
    ird = irdump_bin()
    jobs = []; libs = []
    if lib:
        for s in sources():
            o = work + '/lib_' + os.path.basename(s)[:-4] + '.bc'
            jobs.append((s, o, [])); libs.append(o)
    for m in sorted(glob.glob(VERIF + '/model/*.cpp')):
        o = work + '/model_' + os.path.basename(m)[:-4] + '.bc'
        jobs.append((m, o, [])); libs.append(o)
    cl = {}
    for c in clients:
        o = work + '/client_' + c + '.bc'
        jobs.append((VERIF + '/clients/' + c + '.cpp', o, ['-std=c++17'] if c.endswith('17') else [])); cl[c] = o
    with ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(compile_one, jobs):
            if rc: raise BuildError('%s does not compile:\n%s' % (src, err[-3000:]))
    out = {}
    def dump(c):
        j = work + '/' + c + '.json'
        r = subprocess.run([ird, j, 'drv_*', cl[c]] + libs, capture_output=True, text=True)
        if r.returncode: raise BuildError('irdump %s: %s' % (c, r.stderr[-2000:]))
        return c, j
    with ThreadPoolExecutor(8) as ex:
        for c, j in ex.map(dump, clients): out[c] = j
    return out
