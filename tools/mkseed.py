#!/usr/bin/env python3
"""mkseed.py SPEC.py: (re)create /verif/seeded/<id> from a spec (id, property, edits [(file, old, new)], demo C++ body, needs, breaks) and,
with --try, confirm it in /repo: build, stable tests, demo with and without, the property's check.  /repo is restored afterwards."""
import sys, os, json, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# compiles demo.cpp against /repo's headers and the library build.sh made; exit 0 iff the guarantee held
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -DNDEBUG -DHAVE_LAPACK -DHAVE_MSGPACK -DCOMPILER_USE_CXX11 -include ctime -I/opt/vp/cmake/compat -Isrc -I3rd/boost-bindings -I3rd/log4cpp/include -I3rd/tinyxml -o "$T/demo" "$D/demo.cpp" -L_build/utcore -lutcore -Wl,-rpath,"$PWD/_build/utcore" -llapack -lblas -lboost_serialization -lboost_system -lboost_thread -lboost_chrono -lboost_filesystem -lboost_regex -lpthread || exit 2
cd "$T" && timeout 100 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(s):
    d = '%s/seeded/%s' % (V, s['id']); os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout, 'repo dirty'
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f; t = open(p, newline='').read()
            if '\r\n' in t: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
            assert t.count(a) == 1, (f, a, t.count(a)); open(p, 'w', newline='').write(t.replace(a, b))
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff --binary', shell=True, stdout=subprocess.PIPE).stdout)
    finally: sh('git -C /repo checkout -- .')
    open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def attempt(s):
    d = '%s/seeded/%s' % (V, s['id']); base = json.load(open('/opt/vp/BASELINE.json')); out = {}
    stable = base.get('stable') or base.get('passed') or base.get('tests') or base
    sh('bash /opt/vp/build.sh'); r = sh('bash %s/demo.sh' % d, cwd='/repo'); out['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout.decode()[-1500:])
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stdout
        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        t = json.load(open('/tmp/seedtest.json')); out['stable_lost'] = [x for x in stable if x not in t['passed']]
        r = sh('bash %s/demo.sh' % d, cwd='/repo'); out['demo_bug'] = r.returncode; out['demo_out'] = r.stdout.decode()[-200:]
        r = sh('python3 %s/run.py %s quick' % (V, s['property'])); out['check'] = r.returncode; out['viol'] = [x for x in r.stdout.decode().split('\n') if 'VIOLATION' in x or x.startswith('  ')][:4]
    finally: sh('git -C /repo checkout -- .')
    ok = out['demo_clean'] == 0 and not out['stable_lost'] and out['demo_bug'] not in (0, 2); print(s['id'], 'VALID' if ok else 'INVALID', 'CAUGHT' if out['check'] == 1 else 'MISSED', json.dumps(out)[:900], flush=True)
    cj = V + '/tools/caught.json'; c = json.load(open(cj)) if os.path.exists(cj) else {}; c[s['id']] = (s['property'] + ': ' + '; '.join(x.strip().split(': ')[0] for x in out['viol'] if x.startswith('  ') and '/' in x)[:160]) if out['check'] == 1 else 'missed'
    json.dump(c, open(cj, 'w'), indent=1, sort_keys=True); return ok, out['check'] == 1
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]; ids = args[1:]
    S = []; exec(open(args[0]).read())
    for s in S:
        if ids and s['id'] not in ids: continue
        make(s)
        if '--try' in sys.argv: attempt(s)
