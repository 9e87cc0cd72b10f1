"""Generates /verif/seeded/<id>/ from the definitions in seeds.py (diff against /repo's HEAD)."""
import os, json, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd /repo || exit 2
%s "$D/demo.cpp" -o "$T/demo" >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
cd "$T" && timeout 120 ./demo
'''
CC = 'g++ -std=c++17 -O1 -w -DNDEBUG -include cstdint -I/repo -I/usr/include/eigen3'
MP = 'mpicxx -std=c++17 -O1 -w -DNDEBUG -fopenmp -include /opt/vp/compat/trilinos13.hpp -I/repo -I/usr/include/eigen3'
only = sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only: continue
    d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    diff = ''
    for f, old, new in s['edits']:
        p = '/repo/' + f
    files = sorted(set(f for f, _, _ in s['edits']))
    for f in files:
        src = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
        dst = src
        for ff, old, new in s['edits']:
            if ff != f: continue
            assert dst.count(old) == 1, (s['id'], f, old, dst.count(old))
            dst = dst.replace(old, new)
        t = tempfile.mkdtemp()
        for side, txt in (('a', src), ('b', dst)):
            os.makedirs(os.path.dirname(os.path.join(t, side, f)) or '.', exist_ok=True); open(os.path.join(t, side, f), 'w').write(txt)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True)
        diff += r.stdout; shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    cc = s.get('cc') or (MP if s.get('mpi') else CC)
    sh = DEMO % (cc + ' ' + s.get('flags', '') + ' ' )
    if s.get('libs'): sh = sh.replace('-o "$T/demo"', '-o "$T/demo" ' + s['libs'])
    if s.get('run'): sh = sh.replace('timeout 120 ./demo', s['run'])
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
