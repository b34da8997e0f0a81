#!/usr/bin/env python3
"""Tries planted bugs on /repo: clean demo, apply, build, tests, demo, check, undo.
   seedtest.py [--no-check] [--fast] ID..."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
nocheck = '--no-check' in args; fast = '--fast' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def run(c, t=900, cwd='/repo'):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'


assert run('git diff --quiet && git diff --cached --quiet')[0] == 0, '/repo is dirty'
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    m = json.load(open(d + '/meta.json'))
    res = []
    r, o = run('bash /opt/vp/build.sh --cpp-only')
    assert r == 0, 'clean build failed'
    t = time.time(); r, o = run('bash %s/demo.sh' % d, 300); res.append('clean demo %s (%.0fs)' % ('ok' if r == 0 else 'BAD %d %s' % (r, o[-800:]), time.time() - t))
    r, o = run('git apply %s/patch.diff' % d)
    if r:
        print(i, 'PATCH DOES NOT APPLY', o); continue
    try:
        r, o = run('bash /opt/vp/build.sh --cpp-only')
        if r: res.append('BUILD BAD ' + o[-1500:])
        else:
            if not fast:
                r, o = run('bash /opt/vp/test.sh /tmp/seed_o.json')
                j = json.load(open('/tmp/seed_o.json'))
                lost = stable - set(j['passed'])
                res.append('tests ok' if not lost else 'TESTS BAD %s' % sorted(lost)[:5])
            t = time.time(); r, o = run('bash %s/demo.sh' % d, 300); res.append('bug demo %s (%.0fs) %s' % ('ok(fails)' if r else 'BAD: passes', time.time() - t, o.strip().splitlines()[-1:] ))
            if not nocheck:
                t = time.time(); r, o = run('VERIF_TIER=quick VERIF_SEED=1 python3 run.py %s' % m['property'], 900, V)
                vl = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                res.append('check %s exit %d %s (%.0fs)' % ('CAUGHT' if r == 1 and vl else 'MISSED', r, ('' if r == 1 else o[-300:]) + ' '.join(vl)[:300], time.time() - t))
                sp = V + '/tools/seeds.json'; sj = json.load(open(sp)) if os.path.exists(sp) else {}
                by = sorted(set(l.split(' -- ')[0].strip() for l in o.splitlines() if l.startswith('  ' + m['property'])))[:2]
                sj[i] = dict(property=m['property'], result='caught by ' + ', '.join(by) if r == 1 and vl else 'missed'); json.dump(sj, open(sp, 'w'), indent=0, sort_keys=True)
    finally:
        run('git checkout -- .')
    print('%-22s %s: %s' % (i, m['property'], '; '.join(res)), flush=True)
run('bash /opt/vp/build.sh --cpp-only')
