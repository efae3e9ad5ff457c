#!/usr/bin/env python3
"""seedcheck.py [-j N] [ID...]: applies each planted change to a scratch copy of /repo and runs its property's check there,
with replay.  Prints the exit status, the time and the VIOLATION line."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
n = 2
if a[:1] == ['-j']:
    n, a = int(a[1]), a[2:]
ids = a or sorted(os.listdir('/verif/seeded'))


def one(i):
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    w, r = '/tmp/sc-%d-%s' % (os.getpid(), i), '/tmp/scr-%d-%s' % (os.getpid(), i)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    os.makedirs(r + '/evidence')
    for f in os.listdir('/verif'):
        if f not in ('evidence', 'seeded', '.git'):
            os.symlink('/verif/' + f, r + '/' + f)
    p = subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'])
    t = time.time()
    g = os.environ.get('GOVER', '/tmp/gover')
    cmd = f'cd {r} && . ./env.sh && ' + (
        f'python3-vt -B -m pyver.check -root {r} -dir {w} -prop {prop} -tier quick' if prop == 'C27' else
        f'{g} check -root {r} -dir {w} -prop {prop} -tier quick')
    c = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-24s %s apply %d exit %d %4.0fs %s' % (i, prop, p.returncode, c.returncode, time.time() - t,
          ' '.join(' '.join(l.split()[3:]) or 'replayed' for l in v)), flush=True)
    subprocess.run(['rm', '-rf', w, r])


with ThreadPoolExecutor(n) as ex:
    list(ex.map(one, ids))
