"""bash replay.sh <ID> <replay file>: rebuild the harness natively against the current /repo and run the recorded inputs."""
import sys, os, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
sys.path.insert(0, os.path.join(check.ROOT, 'tools'))
from claims import CLAIMS
pid, path = sys.argv[1:3]
hd = dict(l[1:].strip().split(' ', 1) for l in open(path) if l.startswith('@'))
for u in CLAIMS[pid]['units']:
    if u['src'] != hd['harness'] or not any(e['fn'] == hd['entry'] for e in u['entries']): continue
    with tempfile.TemporaryDirectory() as d:
        exe = d + '/h'
        subprocess.check_call(check.NAT + check.flags(u) + u.get('natflags', []) + [check.ROOT + '/harness/' + u['src'], check.ROOT + '/harness/vp_native.cpp', '-o', exe] + u.get('natlibs', []))
        sys.exit(subprocess.call([exe, hd['entry'], path], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')))
sys.exit('no such harness entry')
