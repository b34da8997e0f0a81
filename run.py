#!/usr/bin/env python3
"""Builds and runs one property check:  python3 run.py <ID> [--tier quick|thorough] [--build-only]
Exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: the check itself failed."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from checks import HARNESSES, CHECKS  # noqa: E402

PKGS = ['sm_common', 'sm_random', 'sm_boost', 'sm_eigen', 'sm_kinematics', 'sm_logging', 'sm_matrix_archive',
        'sm_property_tree', 'sm_timing', 'sm_value_store']


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def build(hname, jobs=None):
    h = HARNESSES[hname]
    bdir = os.path.join(BUILD, hname)
    os.makedirs(bdir, exist_ok=True)
    if h['kind'] == 'py':
        binp = os.path.join(bdir, 'bin')
        open(binp, 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/lib VERIF_REPO=%s exec python3-vt %s "$@"\n' % (VERIF, REPO, os.path.join(VERIF, 'harness', h['src'][0])))
        os.chmod(binp, 0o755)
        return binp, 0.0
    lock = open(os.path.join(bdir, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'harness')]
    for p in PKGS:
        inc.append('-I%s/%s/include' % (REPO, p))
    inc.append('-isystem /usr/include/eigen3')
    base = '-std=gnu++14 -O1 -g -w ' + ' '.join(inc) + ' ' + h.get('cflags', '').replace('{REPO}', REPO).replace('{VERIF}', VERIF)
    kind = h['kind']
    if kind == 'sched':
        cf = base + ' -fno-pie -fsanitize=thread'
        rt = '-std=gnu++17 -O2 -g -w -fno-pie -fno-builtin -fno-threadsafe-statics -fno-tree-loop-distribute-patterns -I%s/lib' % VERIF
        rtsrc = os.path.join(VERIF, 'lib/vs_runtime.cpp')
        lf = '-no-pie -rdynamic'
    else:
        san = h.get('san', '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -fno-sanitize=vptr')
        cf = base + ' ' + san
        rt = '-std=gnu++14 -O1 -g -w -I%s/lib %s' % (VERIF, san)
        rtsrc = os.path.join(VERIF, 'lib/vf_main.cpp')
        lf = san
    lf += ' ' + h.get('ldflags', '')
    libs = ' '.join('-l' + l for l in h.get('libs', [])) + ' -lpthread -ldl'
    lines = ['ninja_required_version = 1.3',
             'rule cc\n command = g++ $f -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc',
             'rule ld\n command = g++ %s $in -o $out %s' % (lf, libs)]
    objs = []
    srcs = [os.path.join(VERIF, 'harness', s) for s in h['src']]
    for r in h.get('repo', []):
        g = sorted(glob.glob(os.path.join(REPO, r)))
        if not g:
            print('no source matches %s' % r); sys.exit(2)
        srcs += g
    # a component's newly added source files belong to it too
    for s in srcs:
        o = re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, '/')) + '.o'
        lines.append('build %s: cc %s\n f = %s' % (o, s, cf))
        objs.append(o)
    lines.append('build rt.o: cc %s\n f = %s' % (rtsrc, rt))
    objs.append('rt.o')
    lines.append('build bin: ld ' + ' '.join(objs))
    lines.append('default bin')
    nf = '\n'.join(lines) + '\n'
    npath = os.path.join(bdir, 'build.ninja')
    if not os.path.exists(npath) or open(npath).read() != nf:
        open(npath, 'w').write(nf)
    t = time.time()
    r = sh(['ninja', '-C', bdir] + (['-j%d' % jobs] if jobs else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode:
        sys.stdout.buffer.write(r.stdout[-6000:])
        print('BUILD FAILED for harness %s' % hname)
        sys.exit(2)
    return os.path.join(bdir, 'bin'), time.time() - t


def symbolize(binp, msg):
    pcs = sorted(set(re.findall(r'\bpc ([0-9a-f]{5,})', msg)))
    out = []
    for pc in pcs:
        try:
            r = sh(['addr2line', '-Cfpe', binp, hex(int(pc, 16) - 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            out.append('pc %s = %s' % (pc, r.stdout.decode(errors='replace').strip()))
        except Exception:
            pass
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == '--build-all':
        # the largest first, three at a time: most harnesses have one large file that would leave the other cores idle
        from concurrent.futures import ThreadPoolExecutor
        first = ['pyb', 'kin_trans', 'eigen_gtest', 'value_store', 'kin_rot']
        with ThreadPoolExecutor(3) as ex:
            jobs = [(h, ex.submit(build, h, 5)) for h in sorted(HARNESSES, key=lambda h: first.index(h) if h in first else 99)]
            for h, j in jobs:
                b, t = j.result()
                print('%s built in %.1fs' % (h, t))
        return 0
    c = CHECKS[pid]
    t0 = time.time()
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [f for f in kf['findings'] if f['property'] == pid]
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vfrun_')
    viols, knownhit, parts, capped, err = [], set(), [], [], None
    build_s = 0
    try:
        for hname in c['harness']:
            binp, bt = build(hname)
            build_s += bt
            h = HARNESSES[hname]
            kfile = os.path.join(work, 'known')
            open(kfile, 'w').write('\n'.join(f['key'] for f in known) + '\n')
            out = os.path.join(work, hname + '.json')
            cmd = [binp, '--tier', tier, '--out', out, '--known', kfile, '--prefix', c.get('prefix', pid)]
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=6000:' + h.get('asan', '')
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
            env['TZ'] = 'UTC'; env['LC_ALL'] = 'C'
            if h['kind'] == 'sched':
                cmd += ['--budget', str(c.get('budget', {}).get(tier, 400 if tier == 'quick' else 3000))]
            else:
                cmd += ['--seed', str(seed), '--scratch', work]
            p = sh(cmd, env=env, cwd=work, stderr=None if '-v' in args else open(os.path.join(work, 'stderr'), 'w'))
            if not os.path.exists(out):
                err = '%s ended with status %d without a report' % (hname, p.returncode); break
            js = json.load(open(out))
            if h['kind'] == 'sched':
                if p.returncode == 2:
                    bad = [s for s in js['scenarios'] if s['stop'] == 3]
                    err = 'explorer error: %s' % '; '.join('%s: %s' % (s['name'], s['err']) for s in bad)
                for s in js['scenarios']:
                    parts.append(s)
                    if s['stop'] == 2:
                        capped.append('%s: budget reached, bound %d of %d completed' % (s['name'], s['completed_bound'], s['bound']))
                    if s['known_hits']:
                        knownhit |= {f['key'] for f in known if f['key'].startswith(s['name'] + ':')}
                    for v in s['violations']:
                        sym = symbolize(binp, v['msg'])
                        viols.append(dict(key=v['key'], detail=v['msg'], obs=v['obs'], devs=v['devs'], scenario=s['name'], sym=sym, bin=binp, kind='sched'))
            else:
                for s in js['parts']:
                    parts.append(s)
                    knownhit |= set(s['known'])
                    for v in s['violations']:
                        viols.append(dict(key=v['key'], detail=v['detail'], case=v['case'], index=v['index'], part=s['name'], shard=s['shard'], bin=binp, kind='seq'))
                if p.returncode == 2:
                    err = 'harness %s reports an internal error' % hname
            if not (js.get('scenarios') or js.get('parts')):
                err = 'nothing explored: no part of %s matches %s' % (hname, pid)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # de-duplicate
    seen, uniq = set(), []
    for v in viols:
        if v['key'] not in seen:
            seen.add(v['key']); uniq.append(v)
    viols = uniq
    lvl = c.get('level', 'model_checking')
    cov = {}
    samples = []
    for p in parts:
        for s in p['samples'][:2]:
            samples.append('%s: %s' % (p['name'], s))
    if any('executions' in p for p in parts):
        cov['states'] = sum(p.get('nodes', p.get('states', 0)) for p in parts)
        cov['transitions'] = sum(p.get('steps', p.get('transitions', 0)) for p in parts)
        cov['traces_validated_against_impl'] = sum(p.get('executions', p.get('traces', 0)) for p in parts)
        cov['schedules'] = {p['name']: dict(executions=p['executions'], deviation_bound=p['bound'], completed_bound=p['completed_bound'],
                                            max_choice_points=p['max_choice_points'], threads=p['threads'], distinct_outcomes=p['distinct_outcomes'], wall_s=p['wall_s']) for p in parts if 'executions' in p}
        cov['meaning'] = 'states = nodes of the schedule tree visited; transitions = scheduling steps executed; traces = complete executions of the real code, every one checked by the oracle, the happens-before race detector and the heap checker'
    elif lvl == 'model_checking':
        cov['states'] = sum(p['states'] for p in parts)
        cov['transitions'] = sum(p['transitions'] for p in parts)
        cov['traces_validated_against_impl'] = sum(p['traces'] for p in parts)
        cov['input_evaluations'] = sum(p['evaluations'] for p in parts)
        cov['meaning'] = 'states = distinct canonical states of the reference model paired with the real object; transitions = operations applied to the real object and compared with the model; traces = operation sequences replayed on a fresh real object'
    else:
        cov['evaluations'] = sum(p['evaluations'] for p in parts)
        cov['distinct_nontrivial'] = sum(p['nontrivial'] for p in parts)
        cov['rule'] = c.get('rule', 'every tuple of the stated finite alphabets is generated once')
    if any('executions' not in p for p in parts):
        agg = {}
        for p in parts:
            if 'executions' in p:
                continue
            a = agg.setdefault(p['name'], dict(cases=0, states=0, transitions=0, traces=0, evaluations=0, outcomes=0))
            for k in a:
                a[k] += p[k]
        cov['parts'] = agg
    cov['samples'] = samples[:12] or ['(no sample recorded)']
    cov['exhaustive'] = not capped and not err
    if capped:
        cov['capped'] = capped
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=c.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    cov['build_s'] = round(build_s, 2)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for f in known:
        if f['key'] in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for v in viols:
        name = re.sub(r'[^A-Za-z0-9_.-]', '_', pid + '-' + v['key'])[:150] + '.txt'
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            if v['kind'] == 'sched':
                f.write('# property %s violated: %s\n# %s\n' % (pid, v['key'], v['detail'].replace('\n', '\n# ')))
                for s in v['sym']:
                    f.write('# %s\n' % s)
                f.write('# observations: %s\n# replay: %s --replay %s\nscenario %s\n' % (v['obs'].replace('\n', ' | '), v['bin'], path, v['scenario']))
                for a, b in v['devs']:
                    f.write('dev %d %d\n' % (a, b))
            else:
                f.write('property %s violated: %s\ncase: %s\n%s\nreplay: %s --tier %s --seed %d --part %s --shard %d --case %d\n' % (
                    pid, v['key'], v['case'], v['detail'], v['bin'], tier, seed, v['part'], v['shard'], v['index']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s' % (v['key'], (v.get('case', '') + ' -- ' + v['detail'])[:1500]))
        for s in v.get('sym', []):
            print('    ' + s)
    if viols:
        return 1
    if err:
        print('CHECK ERROR: ' + err)
        return 2
    print('%s: held; %s' % (pid, {k: cov[k] for k in cov if isinstance(cov[k], (int, bool, float))}))
    return 0


if __name__ == '__main__':
    sys.exit(main())
