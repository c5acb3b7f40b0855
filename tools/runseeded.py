"""run the check of each planted bug's property (or of others) against it, in copies.
usage: runseeded.py [name|name:PROP...]"""
import sys, os, json, shutil, subprocess, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(a):
    n, p = a
    t = '/tmp/rs_%s_%s' % (n, p)
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    shutil.copytree('/repo', t + '/repo', symlinks=True, ignore=shutil.ignore_patterns('_build'))
    shutil.copytree(V, t + '/verif', symlinks=True, ignore=shutil.ignore_patterns('seeded', '.git'))
    try:
        r = subprocess.run('git apply %s/seeded/%s/patch.diff' % (V, n), shell=True, cwd=t + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return n, p, 'patch does not apply: ' + r.stdout.decode()[-200:]
        r = subprocess.run(['python3-vt', 'check.py', p], cwd=t + '/verif', env=dict(os.environ, CSN_REPO=t + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode().strip().split('\n')
        return n, p, 'exit %d: %s' % (r.returncode, ' | '.join(x[:150] for x in o[-4:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
jobs = []
for d in sorted(glob.glob(V + '/seeded/*')):
    n = os.path.basename(d)
    p = json.load(open(d + '/meta.json'))['property']
    sel = [x for x in sys.argv[1:] if x.split(':')[0] == n]
    if sys.argv[1:] and not sel:
        continue
    jobs.append((n, sel[0].split(':')[1] if sel and ':' in sel[0] else p))
with cf.ThreadPoolExecutor(3) as ex:
    for n, p, r in ex.map(one, jobs):
        print(n, p, r, flush=True)
