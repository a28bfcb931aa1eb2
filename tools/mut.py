#!/usr/bin/env python3
"""development aid: tools/mut.py ID file 'old' 'new' -- runs a check on a copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile
pid, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut_')
try:
    os.makedirs(d + '/r')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s/r' % d, shell=True, check=True)
    while rest:
        f, old, new = rest[:3]
        rest = rest[3:]
        p = d + '/r/' + f
        s = open(p).read()
        old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
        assert old in s, 'text not found: ' + old
        open(p, 'w').write(s.replace(old, new, 1))
    for i in pid.split(','):
        r = subprocess.run(['/verif/bin/check', i], env=dict(os.environ, VERIF_REPO=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.replace(d + '/r/', '')
        lines = out.strip().split('\n')
        print(i, 'rc', r.returncode, '|', ' || '.join(l[:220] for l in lines[:6] if not l.startswith('      via')))
finally:
    shutil.rmtree(d)
