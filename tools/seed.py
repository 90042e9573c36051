#!/usr/bin/env python3
"""Development tool: make and judge planted bugs (never used by a check).
seed.py make SPEC.py [id ...]   SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]
   in a scratch copy of /repo: applies the edits, writes seeded/<id>/, confirms that the repository's tests pass and that the
   demonstration tells the trees apart; then runs the property's check on the scratch tree and prints CAUGHT / MISSED.
seed.py run [id ...]            judge seeded/<id>/patch.diff again against the current checks"""
import sys, os, json, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0: behaves as the property says.
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
g++ -std=gnu++17 -O1 -w%s -Iinclude "$(dirname "$0")/demo.cpp" -o "$D/demo"%s || exit 2
cd "$D" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def deps():
    """test -> headers it uses"""
    p = '/tmp/test_deps.json'
    if os.path.exists(p):
        return json.load(open(p))
    out = {}
    def one(t):
        o = sh(f'g++ -std=gnu++17 -w -I{REPO}/include -MM {t}').stdout
        return t, [w[len(REPO) + 1:] for w in o.split() if w.startswith(REPO + '/include')]
    with ThreadPoolExecutor(8) as ex:
        for t, d in ex.map(one, [t for t in glob.glob(REPO + '/test/*.cpp') if 'quantile_extended' not in t]):
            out[os.path.basename(t)] = d
    json.dump(out, open(p, 'w'))
    return out


def tests(tree, files):
    ts = [t for t, d in deps().items() if set(d) & set(files)]
    def one(t):
        exe = f'{tree}/t_{t[:-4]}'
        r = sh(f'g++ -w -g -Wno-deprecated-declarations -I{tree}/include {tree}/test/{t} -o {exe} -l:libboost_unit_test_framework.a -l:libboost_serialization.a')
        if r.returncode:
            return t, 'COMPILE ' + r.stdout[:500]
        d = tempfile.mkdtemp(dir=tree)
        try:
            r = sh([exe], cwd=d, timeout=200)
        except subprocess.TimeoutExpired:
            return t, 'TIMEOUT'
        os.remove(exe)
        return t, '' if r.returncode == 0 else 'FAIL ' + r.stdout[:400]
    with ThreadPoolExecutor(8) as ex:
        return [(t, m) for t, m in ex.map(one, ts) if m], len(ts)


def copy():
    d = tempfile.mkdtemp(prefix='seed_')
    for x in ('include', 'test', 'CMakeLists.txt'):
        (shutil.copytree if os.path.isdir(f'{REPO}/{x}') else shutil.copy)(f'{REPO}/{x}', f'{d}/{x}')
    return d


def judge(pid, tree):
    r = sh(['python3', HERE + '/run.py', 'check', pid], env={**os.environ, 'VERIF_REPO': tree, 'VERIF_TIER': 'quick'}, cwd=HERE)
    ls = r.stdout.strip().splitlines()
    return r.returncode, (ls[-2] if len(ls) > 1 else '')[:300] if r.returncode else ls[-1][:200]


def make(spec, ids):
    g = {}
    exec(open(spec).read(), g)
    for s in g['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        out = f"{HERE}/seeded/{s['id']}"
        tree = copy()
        try:
            bad = None
            for f, old, new in s['edits']:
                p = f'{tree}/{f}'
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    bad = f'{f}: {n} matches of {old[:60]!r}'
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print(s['id'], 'BAD EDIT', bad); continue
            files = sorted({e[0] for e in s['edits']})
            if not s.get('demo'):     # a trial: nothing is kept
                fails, n = tests(tree, files)
                rc, msg = (9, str(fails[:1])) if fails else judge(s['property'], tree)
                print(s['id'], s['property'], {1: 'CAUGHT', 0: 'MISSED', 9: 'TESTS FAIL'}.get(rc, f'ERROR {rc}'), f'({n} tests)', msg[:200], flush=True)
                continue
            diff = ''.join(sh(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, f'{REPO}/{f}', f'{tree}/{f}']).stdout for f in files)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(''.join(f for f in [diff]))
            open(out + '/demo.cpp', 'w').write(s['demo'])
            open(out + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), s.get('libs', '')))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            a = sh(['bash', out + '/demo.sh'], cwd=REPO); b = sh(['bash', out + '/demo.sh'], cwd=tree)
            if a.returncode or not b.returncode:
                print(s['id'], 'BAD DEMO clean', a.returncode, a.stdout[:600], 'mutant', b.returncode, b.stdout[:300]); shutil.rmtree(out); continue
            fails, n = tests(tree, files)
            if fails:
                print(s['id'], f'TESTS FAIL {fails[:2]}'); shutil.rmtree(out); continue
            rc, msg = judge(s['property'], tree)
            print(s['id'], s['property'], {1: 'CAUGHT', 0: 'MISSED'}.get(rc, f'ERROR {rc}'), f'({n} tests ok)', msg, flush=True)
        finally:
            shutil.rmtree(tree)


def run(ids):
    for d in sorted(glob.glob(HERE + '/seeded/*')):
        i = os.path.basename(d)
        if ids and i not in ids:
            continue
        m = json.load(open(d + '/meta.json'))
        tree = copy()
        try:
            r = sh(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=tree)
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stdout); continue
            rc, msg = judge(m['property'], tree)
            print(i, m['property'], {1: 'CAUGHT', 0: 'MISSED'}.get(rc, f'ERROR {rc}'), msg, flush=True)
        finally:
            shutil.rmtree(tree)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2:])
