#!/usr/bin/env python3
"""mut.py FILE.mut [name-filter] : apply each mutant to a scratch copy of /repo, run the quick check of its property, report caught/missed.
FILE.mut is Python: M = [(property, file, old, new), ...]; old must occur exactly once (or give (old, n) for the n-th occurrence)."""
import os, shutil, subprocess, sys, threading, queue
W = int(os.environ.get('MUT_WORKERS', '2'))
ns = {}; exec(open(sys.argv[1]).read(), ns); flt = sys.argv[2] if len(sys.argv) > 2 else ''
q = queue.Queue()
for i, m in enumerate(ns['M']):
    if flt in m[0] + ' ' + m[1] + ' ' + str(m[2]): q.put((i, m))
lock = threading.Lock()
def work(k):
    k += int(os.environ.get('MUT_BASE', '0'))
    wt, vb = '/tmp/mut_wt%d' % k, '/tmp/mut_vb%d' % k
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', '_build', '/repo/', wt + '/'], check=True)
    env = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD=vb, VP_DEV='1')
    while True:
        try: i, (p, f, old, new) = q.get_nowait()
        except queue.Empty: return
        n = 0
        if isinstance(old, tuple): old, n = old
        s = open(wt + '/' + f).read(); parts = s.split(old)
        if len(parts) < 2 or (len(parts) > 2 and n == 0): 
            with lock: print('%3d %s BAD (%d occurrences) %s | %s' % (i, p, len(parts) - 1, f, old[:80]), flush=True)
            continue
        n = n or 1
        t = old.join(parts[:n]) + new + old.join(parts[n:])
        open(wt + '/' + f, 'w').write(t)
        for prop in p.split(','):
            try:
                r = subprocess.run(['python3', '/verif/vp/check.py', prop, 'quick'], cwd='/verif', env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                hit = [l for l in r.stdout.splitlines() if l.startswith('  [')]
                res = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR rc=%d' % r.returncode); tail = (hit[0][:150] if hit else r.stdout[-300:].replace('\n', ' / ') if r.returncode else '')
            except subprocess.TimeoutExpired: res, tail = 'TIMEOUT', ''
            with lock: print('%3d %s %s %s | %s -> %s %s' % (i, prop, res, f.split('/')[-1], old.strip()[-70:].replace('\n', '~'), new.strip()[-70:].replace('\n', '~'), tail), flush=True)
            if res != 'MISSED': break
        open(wt + '/' + f, 'w').write(s)
T = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in T]; [t.join() for t in T]
