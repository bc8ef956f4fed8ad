#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- build from /repo's working tree, explore, report.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: no answer (build error)
check.py --replay <file>  re-executes one recorded violation.
"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF


def known_findings():
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if not os.path.exists(p):
        return res
    for line in open(p):
        line = line.strip()
        if line.startswith('known:'):
            # known: property=<id> scenario=<name> key=<key> :: <description>
            head, _, desc = line[len('known:'):].partition('::')
            d = dict(tok.split('=', 1) for tok in head.split() if '=' in tok)
            d['desc'] = desc.strip()
            res.append(d)
    return res


def parts(cid):
    """A property is decided by one or more harnesses, each with its own build flavour."""
    c = CHECKS[cid]
    return [c] + [dict(p) for p in c.get('more', ())]


def do_build_part(cid, k, verbose=False):
    c = parts(cid)[k]
    harness = os.path.join(VERIF, c['harness'])
    return B.build(cid.lower() + ('' if k == 0 else '_%d' % k), c.get('flavor', 'plain'), harness,
                   extra_flags=c.get('flags', ()), extra_srcs=[os.path.join(VERIF, s) for s in c.get('extra', ())] + [os.path.join(B.REPO, s) for s in c.get('repo_extra', ())],
                   link=c.get('link', ()), shared=[(n, [os.path.join(VERIF, s) for s in ss]) for n, ss in c.get('shared', ())],
                   lib_flags=c.get('lib_flags', ()), verbose=verbose)


def do_build(cid, verbose=False):
    """[executables] (None if one does not build)"""
    exes = [do_build_part(cid, k, verbose)[0] for k in range(len(parts(cid)))]
    return exes if all(exes) else None


def env_for(c):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1:malloc_context_size=8:max_allocation_size_mb=4096' + c.get('asan', '')
    e['LC_ALL'] = 'C'
    e['VP_REPO'] = B.REPO
    e.pop('OMP_NUM_THREADS', None)
    e.update(c.get('env', {}))
    return e


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        c = CHECKS[r['property']]
        c = parts(r['property'])[r.get('part', 0)]
        exe, _ = do_build_part(r['property'], r.get('part', 0))
        if not exe:
            return 2
        out = os.path.join(B.BUILD, 'run', r['property'] + '-replay')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [exe, '--out', out, '--scenario', r['scenario'], '--choices', r['choices'], '--tier', r.get('tier', 'quick')]
        print('+', ' '.join(cmd))
        return subprocess.call(cmd, env=env_for(c))
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[cid]
    t0 = time.time()
    exes = do_build(cid)
    if not exes:
        print('ERROR: could not build /repo working tree for %s' % cid)
        return 2
    t1 = time.time()
    out = os.path.join(B.BUILD, 'run', cid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = c.get('budget', {}).get(tier, 600 if tier == 'quick' else 7200)
    runs = []
    for part, (pc, exe) in enumerate(zip(parts(cid), exes)):
        o = out if part == 0 else os.path.join(out, 'part%d' % part)
        os.makedirs(o, exist_ok=True)
        p = subprocess.run([exe, '--out', o, '--tier', tier, '--seed', str(seed), '--jobs', str(pc.get('jobs', os.cpu_count() or 8)), '--budget', str(budget)],
                           env=env_for(pc), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode != 0:
            print('ERROR: harness driver failed (%d)\n%s' % (p.returncode, p.stdout[-3000:]))
            return 2
        mine = [json.load(open(os.path.join(o, f))) for f in sorted(os.listdir(o)) if f.endswith('.json')]
        for r in mine:
            r['part'] = part
        if not mine:
            print('ERROR: nothing explored')
            return 2
        runs += mine
    known = [k for k in known_findings() if k.get('property') == cid]
    viol, seen_known = [], []
    for r in runs:
        for v in r['violations']:
            m = [k for k in known if k.get('scenario') == r['scenario'] and k.get('key') == v['key']]
            if m:
                seen_known.append(m[0])
            else:
                viol.append((r, v))
    tot = lambda k: sum(r[k] for r in runs)
    counters = {}
    for r in runs:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
    cov = {
        'states': tot('states') or tot('nontrivial'),
        'transitions': tot('transitions'),
        'traces_validated_against_impl': tot('executions'),
        'evaluations': tot('executions'),
        'distinct_nontrivial': tot('nontrivial'),
        'oracle_comparisons': tot('checks'),
        'rule': c['rule'],
        'exhaustive': all(r['exhaustive'] for r in runs),
        'bounds': sorted({b for r in runs for b in r['bounds']}),
        'counters': counters,
        'scenarios': [{'name': r['scenario'], 'executions': r['executions'], 'transitions': r['transitions'], 'states': r['states'],
                       'comparisons': r['checks'], 'exhaustive': r['exhaustive'], 'wall_s': r['wall']} for r in runs],
        'samples': [s for r in runs for s in r['samples'][:2]][:24] or ['(none)'],
    }
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': c.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'build_s': round(t1 - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in runs:
        print('%-40s exec=%-9d trans=%-10d states=%-8d checks=%-10d %s %.1fs' % (
            r['scenario'], r['executions'], r['transitions'], r['states'], r['checks'], 'exhaustive' if r['exhaustive'] else 'PARTIAL', r['wall']))
    for k in {json.dumps(k, sort_keys=True) for k in seen_known}:
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s [%s/%s]' % (cid, k['desc'], k['scenario'], k['key']))
    rc = 0
    if any(r['executions'] == 0 and not r['violations'] for r in runs) or not runs:
        print('ERROR: a scenario explored nothing')
        rc = 2
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for i, (r, v) in enumerate(viol[:20]):
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (cid, i))
        with open(path, 'w') as f:
            json.dump({'property': cid, 'tier': tier, 'part': r['part'], 'scenario': r['scenario'], 'key': v['key'], 'choices': v['choices'], 'message': v['msg']}, f, indent=1)
        print('  [%s/%s] %s' % (r['scenario'], v['key'], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (cid, path))
        rc = 1
    if not viol:
        print('OK property=%s (%s, %d executions, %d transitions, build %.0fs, total %.0fs)' % (
            cid, tier, cov['evaluations'], cov['transitions'], t1 - t0, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
