#!/usr/bin/env python3
"""seed.py new <id> <property> <needs> <what>  : take /repo's working-tree diff as the patch of seeded/<id> (needs demo.cpp there), undo it
   seed.py verify <id>... [--nocheck]          : build+tests+demo with the patch, demo without, and the property's quick check
"""
import json, os, subprocess, sys
V = '/verif'; S = V + '/seeded'
DEMO = r'''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken.  Run with cwd /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 -fopenmp -DFMT_HEADER_ONLY=1 -DGLM_FORCE_INTRINSICS -DNDEBUG -DLM_USE_CONFIG_RELEASE \
    -I"$PWD/include" -I"$PWD/pch" "$here/demo.cpp" -o "$t/demo" -L"$PWD/_build/bin" -llm -Wl,-rpath,"$PWD/_build/bin" \
    -lstdc++fs -latomic -ldl -lpthread || exit 3
cd "$t" && timeout 200 ./demo "$t"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def undo(): sh('git -C /repo checkout -- .')
def main():
    if sys.argv[1] == 'new':
        i, prop, needs, what = sys.argv[2:6]
        d = S + '/' + i; os.makedirs(d, exist_ok=True)
        diff = sh('git -C /repo diff').stdout
        assert diff.strip()
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO) if not os.path.exists(d + '/demo.sh') else None
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        undo(); print('made', i); return
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(S))
    nocheck = '--nocheck' in sys.argv; checkonly = '--checkonly' in sys.argv
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = S + '/' + i; m = json.load(open(d + '/meta.json')); res = []
        undo()
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout); continue
        try:
            if not checkonly:
                r = sh('bash /opt/vp/test.sh /tmp/seed.json')
                passed = set(json.load(open('/tmp/seed.json'))['passed'])
                res.append('tests %s' % ('ok' if stable <= passed else 'FAIL %s' % sorted(stable - passed)[:3]))
                r = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo(patched)=%d' % r.returncode)
                if r.returncode == 3: res.append(r.stdout[-1500:])
            if not nocheck:
                r = sh('python3 vp/check.py %s quick' % m['property'], cwd=V)
                hit = [l for l in r.stdout.splitlines() if l.startswith('  [')]
                res.append('check %s=%d %s' % (m['property'], r.returncode, hit[0][:160] if hit else r.stdout[-200:]))
        finally:
            undo()
        if not checkonly:
            sh('bash /opt/vp/build.sh'); r = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo(clean)=%d' % r.returncode)
            if r.returncode: res.append(r.stdout[-800:])
        print(i, ' | '.join(res), flush=True)
main()
