import subprocess, os, hashlib, struct, sys, shutil, tempfile, atexit
R = sys.argv[1]
B = R + '/_build/'
HERE = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp(prefix='demo')
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
os.chdir(W)

def sha(d):
    return hashlib.sha256(d).digest()

def caibx(path, ents, mn=16384, av=65536, mx=262144):
    """an index; ents: (end offset, id)"""
    b = struct.pack('<6Q', 0x30, 0x96824d9c7b129ff9, 0x9000000000000000, mn, av, mx) + struct.pack('<2Q', 2**64 - 1, 0xe75b9e112f17417d)
    for end, i in ents:
        b += struct.pack('<Q', end) + i
    b += struct.pack('<5Q', 0, 0, 0x30, 16 + (len(ents) + 1) * 40, 0x4b4f050e5549ecd1)
    put(path, b)

def put(n, d):
    with open(n, 'wb') as f:
        f.write(d)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def rnd(n, seed=1):
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d.%d' % (seed, i)).digest()
        i += 1
    return out[:n]

def run(*a, env=None, **k):
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    e.update(env or {})
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=e, **k)
    return p.returncode, p.stdout.decode('latin1')

def check(ok, what):
    if not ok:
        print('FAIL: ' + what)
        sys.exit(1)

def harness(src, files, *flags, args=(), defs=()):
    """compile C code with files of the repository and run it"""
    put('h.c', src.encode())
    rc, out = run('gcc', '-g', '-w', '-D_GNU_SOURCE', '-fsanitize=address,undefined', '-I', R, '-I', B, '-o', 'h', 'h.c', *[R + '/' + f for f in files], *flags)
    if rc:
        print(out)
        print('the harness does not build')
        sys.exit(1)
    return run('./h', *args)
