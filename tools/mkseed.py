#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...] : make seeded/<id> from SPEC.py (S = [dict(id, property, needs, what, edits=[(file, old, new)], demo)]), and try the demo in a scratch tree
SCRATCH (default /tmp/sw: a copy of /repo with a cmake build in _build).  /repo is only read."""
import difflib, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
SCR = os.environ.get('SCRATCH', '/tmp/sw'); V = '/verif'
DEMO = re.search(r"DEMO = r'''(.*?)'''", open(V + '/tools/seed.py').read(), re.S).group(1)
ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
BASE = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD | tail -1', shell=True, text=True, capture_output=True).stdout.strip()
BASE = os.environ.get('BASE', BASE)
def build(): return subprocess.run('cmake --build %s/_build -j 6 2>&1 | tail -30' % SCR, shell=True, text=True, capture_output=True).stdout
def demo(d):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=SCR, text=True, capture_output=True); return r.returncode, (r.stdout + r.stderr)[-600:]
for s in ns['S']:
    if want and s['id'] not in want: continue
    d = V + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    patch = ''; saved = {}
    byfile = {}
    for f, o, n in s['edits']: byfile.setdefault(f, []).append((o, n))
    ok = True
    for f, es in byfile.items():
        a = open('/repo/' + f).read(); b = a
        orig = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], text=True, capture_output=True).stdout
        for o, n in es:
            if b.count(o) != 1: print(s['id'], 'BAD', f, b.count(o), repr(o[:60])); ok = False; continue
            b = b.replace(o, n)
        dl = list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
        gone = [l[1:] for l in dl if l.startswith('-') and not l.startswith('---')]
        ol = set(x.strip() for x in orig.splitlines())
        new = [l for l in gone if l.strip() not in ol]
        if new: print(s['id'], 'NOTE not in original:', new)
        if not gone: print(s['id'], 'NOTE pure addition')
        patch += ''.join(dl); saved[f] = (a, b)
    if not ok: continue
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(s.get('demo_sh', DEMO)); open(d + '/demo.cpp', 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    c = demo(d)
    for f, (a, b) in saved.items(): open(SCR + '/' + f, 'w').write(b)
    try:
        out = build(); p = demo(d) if 'FAILED' not in out else ('BUILD', out)
    finally:
        for f, (a, b) in saved.items(): open(SCR + '/' + f, 'w').write(a)
    print(s['id'], 'clean', c[0], c[1].strip()[-300:] if c[0] else '', '| patched', p[0], p[1].strip()[-300:], flush=True)
build()
