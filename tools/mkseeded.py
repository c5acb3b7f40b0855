"""Write and confirm the planted bugs of tools/bugs/*.py under seeded/.
usage: mkseeded.py [name...]"""
import sys, os, json, shutil, subprocess, glob, importlib.util, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
LIB = open(H + '/bugs/lib.py').read()

def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def build(t):
    return sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2 -g" '
              '-DBUILD_TESTING=ON -DCSN_SANITIZE=ON -DBUILD_CSN=ON -DBUILD_CSN_TOOL=ON -DBUILD_CSN_BENCH=ON -DBUILD_PATCHDD=ON '
              '-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS="-Wno-error -Wno-deprecated-declarations" && ninja -C %s/_build' % (t, t, t))

def one(b):
    name = b['name']
    d = V + '/seeded/' + name
    t = '/tmp/seed_' + name
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    try:
        for f, old, new in b['edits']:
            s = open(t + '/' + f).read()
            if s.count(old) != 1:
                return name, 'edit of %s matches %d times' % (f, s.count(old))
            open(t + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', cwd=t)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = a built tree of the repository\nexec python3 "$(dirname "$0")/demo.py" "$PWD"\n')
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(LIB + '\n' + b['demo'].strip() + '\n')
        for f, c in b.get('files', {}).items():
            open(d + '/' + f, 'w').write(c)
        rc, out = build(t)
        if rc:
            return name, 'does not build: ' + out[-300:]
        rc, out = sh('bash %s/demo.sh' % d, cwd='/repo')
        if rc:
            return name, 'demo fails on the unchanged tree: ' + out[-400:]
        rc, out = sh('bash %s/demo.sh' % d, cwd=t)
        if rc == 0:
            return name, 'demo passes with the bug: ' + out[-400:]
        rc2, out2 = sh('cd %s/_build && ctest -j4 2>&1 | tail -15' % t)
        return name, 'ok (%s)' % out.strip().split('\n')[-1][:100] + '  ctest: ' + ' '.join(l for l in out2.split('\n') if 'tests passed' in l or 'Failed' in l)
    finally:
        shutil.rmtree(t, ignore_errors=True)

def main():
    bugs = []
    for f in sorted(glob.glob(H + '/bugs/b_*.py')):
        sp = importlib.util.spec_from_file_location('x', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        bugs += m.BUGS
    sel = [b for b in bugs if not sys.argv[1:] or b['name'] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for n, r in ex.map(one, sel):
            print(n, r)
main()
