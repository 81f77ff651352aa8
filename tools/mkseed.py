"""Developer helper: seed(id, property, edits, demo, needs, breaks, flags) writes /verif/seeded/<id>/."""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# usage: run with cwd /repo after the build; exit 0 iff the property holds in this scenario
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -w -pthread -DUSE_SSL -DMAX_HTTP_HEADER_SIZE=0xC800 -DMAX_HTTP_BODY_SIZE=0xA00000 -DLISTEN_QUEUE_SIZE=64 -DNOMINMAX \\
    -Dhtonf -Dhtonll -Dntohll -Dhtond -Dntodh -DFRNETLIB_STATIC -Iinclude "$d/demo.cpp" src/*.cpp -o "$t/demo" -lmbedtls -lmbedx509 -lmbedcrypto %s || exit 3
cd "$t" && timeout 60 ./demo
'''
def seed(sid, prop, edits, demo, needs, breaks, flags=''):
    w = tempfile.mkdtemp(prefix='mkseed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for path, old, new in edits:
            p = w + '/r/' + path; s = open(p).read()
            assert s.count(old) == 1, (sid, path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    finally: shutil.rmtree(w)
    d = V + '/seeded/' + sid; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH % flags); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
