#!/usr/bin/env python3
"""tools/seed.py add ID   with a python dict on stdin: property, needs, breaks, edits [(file, old, new, nth?)], demo (C++ text)
   tools/seed.py verify [ID ...]: patch applies, builds, tests pass, demo 0 on clean tree and nonzero with the patch
   tools/seed.py check [ID ...]: run the property's check (and optionally all) with the patch (via a scratch copy)"""
import sys, os, shutil, subprocess, tempfile, json, ast
R = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -r "$w"' EXIT
g++ -std=gnu++11 -w -O1 -g %s -Iinclude "$d/demo.cpp" src/*.cpp -o "$w/demo" %s || exit 97
cd "$w" && timeout 200 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    for x in ('src', 'include'):
        shutil.copytree('/repo/' + x, d + '/' + x)
    return d


def add(i, spec):
    d = scratch()
    try:
        sh('git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x', cwd=d)
        for e in spec['edits']:
            f, old, new = e[:3]
            p = d + '/' + f
            s = open(p).read()
            assert old in s, 'pattern not found: ' + old
            if len(e) > 3:
                parts = s.split(old)
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            else:
                assert s.count(old) == 1, 'pattern not unique (%d): %s' % (s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = sh('git diff', cwd=d).stdout
        o = R + '/' + i
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.cpp', 'w').write(spec['demo'])
        open(o + '/demo.sh', 'w').write(spec.get('demo_sh') or DEMO % (spec.get('cflags', '-fsanitize=address,undefined -fno-sanitize-recover=all'), spec.get('ldflags', '')))
        os.chmod(o + '/demo.sh', 0o755)
        for n, t in spec.get('files', {}).items():
            open(o + '/' + n, 'w').write(t)
        json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def verify(i):
    o = R + '/' + i
    # clean demo
    d = scratch()
    try:
        r = sh('bash %s/demo.sh' % o, cwd=d)
        if r.returncode:
            return 'DEMO FAILS ON CLEAN TREE %d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
        r = sh('patch -p1 < %s/patch.diff' % o, cwd=d)
        if r.returncode:
            return 'patch does not apply'
        r = sh('bash %s/demo.sh' % o, cwd=d)
        if r.returncode in (0, 97):
            return 'DEMO rc %d WITH PATCH %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
        demo = 'demo rc %d: %s' % (r.returncode, (r.stdout + r.stderr).strip().splitlines()[:1])
    finally:
        shutil.rmtree(d)
    if sh('git -C /repo status --porcelain').stdout.strip():
        return '/repo not clean'
    try:
        r = sh('git -C /repo apply %s/patch.diff' % o)
        if r.returncode:
            return 'git apply fails ' + r.stderr
        r = sh('bash /opt/vp/test.sh /tmp/seedout.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open('/tmp/seedout.json'))
        stable = base.get('stable') or base.get('tests') or base.get('passed')
        passed = set(out.get('passed') or [])
        miss = [t for t in stable if t not in passed]
        if miss:
            return 'TESTS FAIL %s' % miss[:3]
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    return 'ok; ' + demo


def check(i, props=None):
    o = R + '/' + i
    meta = json.load(open(o + '/meta.json'))
    d = scratch()
    res = []
    try:
        sh('patch -p1 < %s/patch.diff' % o, cwd=d)
        for p in props or [meta['property']]:
            r = subprocess.run(['python3', '/verif/check.py', p], env=dict(os.environ, FLBWT_REPO=d), capture_output=True, text=True)
            first = [l for l in r.stdout.splitlines() if '[' in l and l.startswith(('src', 'include'))][:1]
            res.append('%s rc %d %s' % (p, r.returncode, first if r.returncode == 1 else r.stdout[-200:] if r.returncode else ''))
    finally:
        shutil.rmtree(d)
    return '; '.join(res)


if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'add':
        add(sys.argv[2], eval(sys.stdin.read()))
        print(sys.argv[2], verify(sys.argv[2]))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(R))
        for i in ids:
            print(i, (verify if c == 'verify' else check)(i), flush=True)
