"""Front end: configure /repo out of tree, compile every translation unit of a
program to LLVM IR with the real build's flags, link, dump as JSON."""
import json, os, re, shlex, subprocess, sys, shutil, tempfile, hashlib, fcntl

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get('CSN_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-4000:]))
    return p.stdout

def tool(n):
    for c in ('/usr/bin/%s-18' % n, '/usr/lib/llvm-18/bin/' + n):
        if os.path.exists(c):
            return c
    return n

def irdump():
    src = os.path.join(ENGINE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
             '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.replace(tmp, out)
    return out

_cfg = {}

def configure(scratch):
    bd = os.path.join(scratch, 'cm')
    run(['cmake', '-S', REPO, '-B', bd, '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DBUILD_TESTING=OFF',
         '-DBUILD_CSN=ON', '-DBUILD_CSN_TOOL=ON', '-DBUILD_CSN_BENCH=ON', '-DBUILD_PATCHDD=ON',
         '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5'])
    cc = json.load(open(os.path.join(bd, 'compile_commands.json')))
    progs = {}
    for e in cc:
        argv = shlex.split(e['command']) if 'command' in e else e['arguments']
        o = argv[argv.index('-o') + 1]
        m = re.search(r'CMakeFiles/([^/]+)\.dir/', o)
        progs.setdefault(m.group(1), []).append((e['file'], argv, e['directory']))
    return progs

def programs():
    """-> {program: json}, compiled from the current working tree"""
    scratch = tempfile.mkdtemp(prefix='csn-ir-')
    try:
        dump = irdump()
        progs = configure(scratch)
        out = {}
        for p, units in sorted(progs.items()):
            bcs = []
            jobs = []
            for i, (f, argv, d) in enumerate(units):
                bc = os.path.join(scratch, '%s-%d.bc' % (p, i))
                flags = []
                skip = True
                it = iter(argv[1:])
                for a in it:
                    if a in ('-o', '-MF', '-MT', '-MQ'):
                        next(it); continue
                    if a in ('-c', '-MD', '-MMD', f) or a.startswith('-O') or a.startswith('-g'):
                        continue
                    if a.startswith(('-W', '-f')) and not a.startswith(('-fsigned', '-funsigned', '-fpack', '-fshort')):
                        continue
                    flags.append(a)
                jobs.append((subprocess.Popen(
                    [tool('clang'), *flags, '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g',
                     '-fno-discard-value-names', '-emit-llvm', '-c', f, '-o', bc], cwd=d,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), f))
                bcs.append(bc)
            for j, f in jobs:
                o, _ = j.communicate()
                if j.returncode:
                    raise BuildError('compiling %s failed:\n%s' % (f, o[-3000:]))
            ll = os.path.join(scratch, p + '.bc')
            run([tool('llvm-link'), *bcs, '-o', ll])
            run([tool('opt'), '-passes=mem2reg', ll, '-o', ll + '2'])
            out[p] = json.loads(run([dump, ll + '2']))
            out[p]['units'] = sorted(os.path.relpath(f, REPO) for f, _, _ in units)
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    irdump()
    if len(sys.argv) > 1:
        for p, j in programs().items():
            json.dump(j, open(os.path.join(sys.argv[1], p + '.json'), 'w'))
            print(p, len(j['functions']), j['units'])
