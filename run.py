#!/usr/bin/env python3
"""Driver: python3 run.py check C01 [--tier quick|thorough]   |   python3 run.py replay FILE

check: compiles the harness h/<ID>*.cpp against /repo/include (current working tree), lists its
configurations, explores each of them exhaustively in parallel processes, and decides the property.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: a replayable counterexample."""
import sys, os, json, subprocess, time, hashlib, glob, shutil, signal, struct, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'g++'
BASE_FLAGS = ['-std=gnu++17', '-O1', '-g0', '-fno-omit-frame-pointer', '-fsanitize=address',
              '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-Wno-deprecated-declarations',
              '-w', '-I' + REPO + '/include', '-I' + HERE + '/lib']
LIBS = ['/usr/lib/x86_64-linux-gnu/libboost_serialization.a']
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=203:'
                       'detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=4')
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/include', HERE + '/lib', HERE + '/h'):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(' '.join(BASE_FLAGS).encode())
    return h.hexdigest()[:16]


def compile_one(src, obj):
    flags = list(BASE_FLAGS)
    with open(src) as f:
        for line in f.readlines()[:5]:
            if line.startswith('// flags:'):
                flags += line.split(':', 1)[1].split()
    cmd = [CXX] + flags + ['-MD', '-MF', obj + '.d', '-c', src, '-o', obj]
    t = time.time()
    r = sh(cmd)
    if r.returncode == 0:
        with open(obj + '.d') as f:
            if '/usr/include/boost/accumulators' in f.read():
                return 3, 'harness took accumulators headers from the system, not from /repo', time.time() - t
    return r.returncode, r.stdout, time.time() - t


def build(pid, bdir):
    srcs = sorted(glob.glob(f'{HERE}/h/{pid}*.cpp'))
    assert srcs, 'no harness for ' + pid
    objs, errs = [], []
    todo = [(s, os.path.join(bdir, os.path.basename(s) + '.o')) for s in srcs]
    todo.append((HERE + '/lib/explore.cpp', os.path.join(bdir, 'explore.o')))
    times = {}
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, o): (s, o) for s, o in todo}
        for f in as_completed(futs):
            rc, outp, t = f.result()
            times[os.path.basename(futs[f][0])] = round(t, 1)
            objs.append(futs[f][1])
            if rc:
                errs.append((futs[f][0], rc, outp))
    if errs:
        return None, errs, times
    exe = os.path.join(bdir, 'explore')
    uses_ser = any('boost/archive' in open(s).read() for s in srcs)
    r = sh([CXX, '-fsanitize=address'] + sorted(objs) + (LIBS if uses_ser else []) + ['-o', exe])
    if r.returncode:
        return None, [('link', r.returncode, r.stdout)], times
    return exe, [], times


def read_cur(path):
    try:
        with open(path, 'rb') as f:
            b = f.read()
        n = struct.unpack('i', b[:4])[0]
        return list(struct.unpack(f'{n}i', b[4:4 + 4 * n]))
    except Exception:
        return None


def run_job(exe, tier, cfg, part, k, wdir, tag, limit):
    out = os.path.join(wdir, f'{tag}.json')
    cur = os.path.join(wdir, f'{tag}.cur')
    err = os.path.join(wdir, f'{tag}.err')
    cmd = [exe, '--tier', tier, '--run', cfg, '--part', f'{part}/{k}', '--out', out, '--cur', cur]
    res = {'config': cfg, 'part': f'{part}/{k}', 'out': out, 'cmd': cmd}
    t = time.time()
    with open(err, 'w') as e:
        try:
            rc = subprocess.run(cmd, stdout=e, stderr=e, env=ENV, timeout=limit).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    res['wall'] = time.time() - t
    res['rc'] = rc
    with open(err, errors='replace') as e:
        res['stderr'] = e.read()[:6000]
    if rc in (0, 1) and os.path.exists(out):
        res['data'] = json.load(open(out))
    else:
        res['choices'] = read_cur(cur)
    return res


def replay(exe, tier, cfg, choices, limit=120, verbose=False):
    cmd = [exe, '--tier', tier, '--run', cfg, '--replay', ','.join(map(str, choices))] + (['--verbose'] if verbose else [])
    try:
        r = sh(cmd, env=ENV, timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hard = {'quick': 780, 'thorough': 6 * 3600}[tier]
    os.makedirs(HERE + '/evidence', exist_ok=True)
    if os.path.exists(f'{HERE}/evidence/replay_{pid}.json'):
        os.remove(f'{HERE}/evidence/replay_{pid}.json')
    bdir = os.path.join(HERE, 'build', pid + '_' + str(os.getpid()))
    os.makedirs(bdir)
    try:
        return check_in(pid, tier, t0, seed, hard, bdir)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)


def write_replay(pid, obj):
    p = f'{HERE}/evidence/replay_{pid}.json'
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')
    return p


def check_in(pid, tier, t0, seed, hard, bdir):
    exe, errs, times = build(pid, bdir)
    t_build = time.time() - t0
    violations = []
    if errs:
        # A compiler killed or out of memory is tried again alone before anything is concluded.
        exe, errs, times = build(pid, bdir)
    if errs:
        for s, rc, o in errs:
            print(f'--- {s} (rc {rc})')
            print('\n'.join([l[:400] for l in o.splitlines() if 'error' in l][:3]))
        rp = write_replay(pid, {'property': pid, 'kind': 'does-not-compile',
                                'files': [e[0] for e in errs], 'log': errs[0][2][:4000]})
        evidence(pid, tier, seed, t0, {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                 'samples': ['programs using the documented interface do not compile: ' + str(errs[0][0])],
                 'exhaustive': False}, 1, [])
        print('the documented interface this property is about no longer compiles')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    listing = sh([exe, '--list'], env=ENV)
    cfgs = [l.split(' ', 1) for l in listing.stdout.splitlines() if l.strip()]
    jobs = []
    for n, (parts, name) in enumerate(cfgs):
        k = int(parts)
        for i in range(k):
            jobs.append((name, i, k, f'j{n}_{i}'))
    jobs.sort(key=lambda j: -j[2])
    results, not_run = [], 0
    stop = False
    with ThreadPoolExecutor(JOBS) as ex:
        def go(j):
            nonlocal not_run
            left = hard - (time.time() - t0)
            if stop or left < 5:
                not_run += 1
                return None
            return run_job(exe, tier, j[0], j[1], j[2], bdir, j[3], left)
        futs = [ex.submit(go, j) for j in jobs]
        for f in as_completed(futs):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            if r['rc'] != 0:
                stop = True       # one counterexample decides; the rest is skipped
    results.sort(key=lambda r: (r['config'], r['part']))
    notes = []
    for r in results:
        if r['rc'] == 0:
            continue
        v = None
        if 'data' in r and r['data'].get('violation'):
            v = r['data']['violation']
            rc, o = replay(exe, tier, r['config'], v['choices'])
            if rc == 0:
                rr = run_job(exe, tier, r['config'], *map(int, r['part'].split('/')), bdir, 'again', 600)
                if rr['rc'] == 0:
                    notes.append(f"unreproducible once: {r['config']} {v}")
                    continue
                v['message'] += ' (depends on the executions before it in the same process)'
        elif r['rc'] == 'timeout':
            rc, o = replay(exe, tier, r['config'], r['choices'] or [], limit=100)
            if rc == 'timeout':
                v = {'message': 'the library does not terminate on this history', 'choices': r['choices']}
            else:
                notes.append(f"time limit: {r['config']} part {r['part']} not finished")
                continue
        else:   # crash: sanitizer report, assertion, signal
            if r['rc'] in (77, 78):
                v = {'message': 'exploration diverged: ' + r['stderr'][-300:], 'choices': r['choices'] or []}
                notes.append(v['message'])
                rc, o = replay(exe, tier, r['config'], r['choices'] or [])
                if rc == 0:
                    v = None
                    continue
            else:
                rc, o = replay(exe, tier, r['config'], r['choices'] or [])
                if rc == 0:
                    rr = run_job(exe, tier, r['config'], *map(int, r['part'].split('/')), bdir, 'again', 600)
                    if rr['rc'] == 0:
                        notes.append(f"unreproducible crash: {r['config']}")
                        continue
                v = {'message': f"crash (exit {r['rc']}): " + r['stderr'][:800], 'choices': r['choices'] or []}
        if v:
            violations.append((r, v))
            break
    listed = known_findings(pid)
    seen_known = []
    for r in results:
        for k in r.get('data', {}).get('known', []):
            if k in listed:
                if k not in seen_known:
                    seen_known.append(k)
            elif not violations:
                violations.append((r, {'message': f'defect {k} (not a listed finding)', 'choices': []}))
    execs = sum(r['data']['executions'] for r in results if 'data' in r)
    trans = sum(r['data']['transitions'] for r in results if 'data' in r)
    states = 0
    per = {}
    for n, (parts, name) in enumerate(cfgs):
        rs = [r for r in results if r['config'] == name and 'data' in r]
        if not rs:
            continue
        if len(rs) == 1:
            st = rs[0]['data']['states']
        else:
            st = int(sh([exe, '--union'] + [r['out'] + '.states' for r in rs]).stdout.strip() or 0)
        states += st
        per[name] = {'executions': sum(r['data']['executions'] for r in rs), 'states': st,
                     'transitions': sum(r['data']['transitions'] for r in rs),
                     'max_choices': max(r['data']['max_choices'] for r in rs),
                     'undecided_observations': sum(r['data'].get('undecided', 0) for r in rs),
                     'wall_s': round(sum(r['wall'] for r in rs), 2)}
    capped = any(r['data'].get('states_capped') for r in results if 'data' in r)
    complete = bool(jobs) and not not_run and all(r['rc'] == 0 for r in results) and len(results) == len(jobs)
    samples = []
    with_s = [r for r in results if 'data' in r and r['data'].get('samples')]
    for r in with_s[:: max(1, len(with_s) // 5)][:5]:
        samples.append(r['data']['samples'][-1])
    cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': execs,
           'samples': samples, 'exhaustive': complete, 'configurations': len(cfgs),
           'state_definition': 'distinct (configuration, observed results, model step) hashes'
                               + (' (table full: lower bound)' if capped else ''),
           'longest_choice_vector': max([p['max_choices'] for p in per.values()] or [0]),
           'per_configuration': per, 'build_s': round(t_build, 1), 'compile_s': times}
    if notes:
        cov['notes'] = notes
    if not_run:
        cov['jobs_not_run'] = not_run
    if violations:
        r, v = violations[0]
        rc, o = replay(exe, tier, r['config'], v['choices'] or [], verbose=True, limit=60)
        rp = write_replay(pid, {'property': pid, 'tier': tier, 'config': r['config'], 'choices': v['choices'],
                                'message': v['message'], 'trace': o.splitlines()[-200:],
                                'how': f'python3 run.py replay evidence/replay_{pid}.json'})
        evidence(pid, tier, seed, t0, cov, 1, notes)
        print(f"{pid}: {r['config']}: {v['message']}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    evidence(pid, tier, seed, t0, cov, 0, notes)
    for k in seen_known:
        print(f'KNOWN-FINDING: property={pid} {k}: {listed[k]}')
    print(f'{pid} {tier}: held; {execs} executions, {trans} transitions, {states} states, {len(cfgs)} configurations, '
          f'build {t_build:.0f}s, total {time.time() - t0:.0f}s' + ('' if complete else ' (NOT complete: ' + '; '.join(notes) + ')'))
    return 0


def known_findings(pid):
    """lines: finding: property=<id> <finding-id> <what fails>"""
    out = {}
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'finding: property={pid} '):
                w = l.split(' ', 3)
                out[w[2]] = w[3].strip()
    return out


def evidence(pid, tier, seed, t0, cov, nviol, notes):
    meta = {}
    mp = f'{HERE}/h/assumptions.json'
    if os.path.exists(mp):
        meta = json.load(open(mp))
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
         'wall_s': round(time.time() - t0, 2), 'violations': nviol,
         'assumptions': meta.get('*', []) + meta.get(pid, [])}
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier if tier in ('quick', 'thorough') else 'quick')
    if a == ['setup']:
        # nothing to build ahead: every check compiles its harness from /repo's current tree
        r = sh([CXX, '--version'])
        print(r.stdout.splitlines()[0])
        return r.returncode
    if len(a) == 2 and a[0] == 'replay':
        v = json.load(open(a[1]))
        bdir = tempfile.mkdtemp(prefix='replay_')
        try:
            exe, errs, _ = build(v['property'], bdir)
            if errs:
                print(errs[0][2][:3000])
                return 1
            rc, o = replay(exe, v['tier'], v['config'], v['choices'], verbose=True)
            print(o)
            return 0 if rc == 0 else 1
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
