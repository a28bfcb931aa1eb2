#!/usr/bin/env python3
"""Which planted bugs do the checks catch?  catch.py [SEED-ID-prefix ...]: runs the check of each seed's property
against a mutated copy of the repository."""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor


def one(d):
    pid = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/catch/' + os.path.basename(d)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], cwd='/', check=True)
    t = time.time()
    env = dict(os.environ, VERIF_REPO=w)
    r = subprocess.run(['/verif/bin/check', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    shutil.rmtree(w, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return os.path.basename(d), pid, r.returncode, len(v), time.time() - t, r.stdout


J = int(os.environ.get('J', '1'))
pre = sys.argv[1:]
ds = [d for d in sorted(glob.glob('/verif/seeded/*')) if not pre or any(os.path.basename(d).startswith(p) for p in pre)]
with ThreadPoolExecutor(J) as ex:
    for n, pid, rc, v, t, out in ex.map(one, ds):
        print('%-32s %s rc=%d %s %.0fs' % (n, pid, rc, 'CAUGHT' if rc == 1 and v else 'missed', t), flush=True)
        if rc not in (0, 1):
            print('   ', out.strip().splitlines()[-1][:200] if out.strip() else '')
