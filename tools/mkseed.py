#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (C++ source; main returns 0 when right).
Verifies in a scratch copy: the patch applies, stable tests pass, the demo separates."""
import json, os, shutil, subprocess, sys
sys.dont_write_bytecode = True
DEMO_SH = '''#!/bin/bash
# run in the repository root after its build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++11 -O0 -w %s-Iinclude "$here/demo.cpp" src/*.cpp -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 60 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(specs):
    # each spec file may define several seeds in SEEDS
    ns = {}
    for s in specs:
        exec(open(s).read(), ns)
    ok = True
    for sd in ns['SEEDS']:
        ok &= one(sd)
    return 0 if ok else 1


def one(sd):
    d = '/verif/seeded/' + sd['id']
    w = '/tmp/seedwork'
    if os.path.exists(w):
        shutil.rmtree(w)
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('_build', 'build'))
    os.makedirs(d, exist_ok=True)
    try:
        demo = sd['demo']
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(sd['sh'] if sd.get('sh') else DEMO_SH % (sd.get('flags', '') + ' ' if sd.get('flags') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % d, cwd=w)
        if r0.returncode != 0:
            print(sd['id'], 'DEMO FAILS ON UNCHANGED TREE', r0.returncode, r0.stdout[-800:])
            return False
        for f, old, new in sd['edits']:
            p = w + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(sd['id'], 'edit matches %d times: %s' % (t.count(old), old[:60]))
                return False
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=w).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r1 = sh('bash %s/demo.sh' % d, cwd=w)
        if r1.returncode in (0, 3):
            print(sd['id'], 'DEMO DOES NOT FAIL WITH PATCH', r1.returncode, r1.stdout[-800:])
            return False
        json.dump({'property': sd['prop'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        # lines of the original repository only
        base = sh('git log --format=%h --reverse', cwd='/repo').stdout.split()[0]
        blame_bad = []
        for f, old, new in sd['edits']:
            pass
        import difflib
        cur = None
        hunk = []
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
            elif line.startswith('-') and not line.startswith('---'):
                t = line[1:]
                orig = sh('git show %s:%s' % (base, cur), cwd='/repo').stdout.splitlines()
                if t not in orig:
                    blame_bad.append(t)
        if blame_bad:
            print(sd['id'], 'note: touches lines not in the original:', blame_bad[:3])
        # stable tests in a copy of the repo path are run against /repo itself: apply, test, revert
        a = sh('git apply %s/patch.diff' % d, cwd='/repo')
        try:
            if a.returncode:
                print(sd['id'], 'patch does not apply', a.stdout)
                return False
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            got = json.load(open('/tmp/seedtest.json'))['passed']
            miss = [x for x in base if x not in got]
            if miss:
                print(sd['id'], 'STABLE TESTS FAIL', miss, t.stdout[-500:])
                return False
        finally:
            sh('git checkout -- .', cwd='/repo')
        print(sd['id'], 'ok')
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)


sys.exit(main(sys.argv[1:]))
