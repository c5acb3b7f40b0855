"""Abstract interpreter: interprocedural, trace-partitioned (typestate and flag
cells), with a symbolic-offset memory model and loop invariants inferred by
anti-unification plus an interval/linear domain.  Nothing is executed and no
path is handed to a solver: loops and callbacks are analysed to a fixpoint."""
import sys, time
from nodes import *
from num import Facts, fadd, fkey
import ir

sys.setrecursionlimit(50000)

class EngineError(Exception):
    pass

class Timeout(Exception):
    pass

class Obj:
    __slots__ = ('size', 'cells', 'fill', 'gver', 'cver', 'freed', 'nul', 'ov', 'al', 'born', 'kind', 'x', 'ro')

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o

def newver(n='v'):
    return sym(0, n)

class State:
    __slots__ = ('mem', 'own', 'F', 'fsh', 'env', 'ghost', 'ts', 'path', 'fds', 'frame')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.F = Facts()
        self.fsh = False
        self.env = {}
        self.ghost = {}
        self.ts = {}
        self.path = None
        self.fds = {}
        self.frame = None

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.F = self.F
        s.fsh = True
        self.fsh = True
        s.env = dict(self.env)
        s.ghost = dict(self.ghost)
        s.ts = dict(self.ts)
        s.path = self.path
        s.fds = dict(self.fds)
        s.frame = self.frame
        return s

    def fw(self):
        if self.fsh:
            self.F = self.F.copy()
            self.fsh = False
        return self.F

    def assume(self, pred, a, b):
        return self.fw().assume(pred, a, b)

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def note(self, txt):
        self.path = (self.path, txt)

def trace(st, n=60):
    out = []
    p = st.path
    while p is not None and len(out) < n:
        out.append(p[1])
        p = p[0]
    return out[::-1]

# ---------------------------------------------------------------- values
def zext(n, w):
    if n.w == w: return n
    if n.op == 'c': return C(w, n.aux)
    if n.op == 'zext': return zext(n.args[0], w)
    if n.op == 'cat' and n.w == 8 * len(n.args):
        return from_bytes(list(n.args) + [C(8, 0)] * ((w - n.w) // 8))
    return mk('zext', w, (n,))

def sext(n, w):
    if n.w == w: return n
    if n.op == 'c': return C(w, cs(n))
    if n.op == 'zext': return zext(n.args[0], w)
    if n.op == 'sext': return sext(n.args[0], w)
    return mk('sext', w, (n,))

def trunc(n, w):
    if n.w == w: return n
    if n.op == 'c': return C(w, n.aux)
    if n.op in ('zext', 'sext'):
        if n.args[0].w == w: return n.args[0]
        if n.args[0].w > w: return trunc(n.args[0], w)
        return zext(n.args[0], w) if n.op == 'zext' else sext(n.args[0], w)
    if w % 8 == 0 and n.op in ('ld', 'cat'):
        b = bytes_of(n)
        if b: return from_bytes(b[:w // 8])
    if n.op == 'trunc': return trunc(n.args[0], w)
    return mk('trunc', w, (n,))

def binop(op, a, b):
    w = a.w
    if a.depth > 3000 or b.depth > 3000:
        return sym(w, 'deep')
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.aux, b.aux
        if op == 'mul': return C(w, x * y)
        if op == 'and': return C(w, x & y)
        if op == 'or': return C(w, x | y)
        if op == 'xor': return C(w, x ^ y)
        if op == 'shl': return C(w, x << y) if y < w else C(w, 0)
        if op == 'lshr': return C(w, x >> y) if y < w else C(w, 0)
        if op == 'ashr': return C(w, cs(a) >> min(y, w - 1))
        if op == 'udiv' and y: return C(w, x // y)
        if op == 'urem' and y: return C(w, x % y)
        if op == 'sdiv' and y:
            q = abs(cs(a)) // abs(cs(b))
            return C(w, q if (cs(a) < 0) == (cs(b) < 0) else -q)
        if op == 'srem' and y:
            r = abs(cs(a)) % abs(cs(b))
            return C(w, -r if cs(a) < 0 else r)
    if op == 'mul':
        if a.op == 'c': a, b = b, a
        if b.op == 'c': return mulc(a, b.aux)
        if b.id < a.id: a, b = b, a
        return mk('mul', w, (a, b))
    if op == 'shl':
        if b.op == 'c':
            k = b.aux
            if k == 0: return a
            if k >= w: return C(w, 0)
            if k % 8 == 0 and (a.op in ('zext', 'cat') ):
                bs = bytes_of(a)
                if bs:
                    return from_bytes(([C(8, 0)] * (k // 8) + bs)[:w // 8])
            if a.op == 'lin' or a.op in ('s', 'ld', 'zext') and k < 8:
                return mulc(a, 1 << k)
        return mk('shl', w, (a, b))
    if op == 'lshr':
        if b.op == 'c':
            k = b.aux
            if k == 0: return a
            if k % 8 == 0 and a.op in ('ld', 'cat'):
                bs = bytes_of(a)
                if bs: return from_bytes(bs[k // 8:] + [C(8, 0)] * (k // 8))
        return mk('lshr', w, (a, b))
    if op in ('and', 'or', 'xor'):
        if a.op == 'c': a, b = b, a
        if b.op == 'c':
            m = (1 << w) - 1
            if op == 'and':
                if b.aux == m: return a
                if b.aux == 0: return b
                if w % 8 == 0 and b.aux == 255 and bytes_of(a): return zext(bytes_of(a)[0], w)
                if a.op == 'zext' and b.aux & ((1 << a.args[0].w) - 1) == (1 << a.args[0].w) - 1: return a
            elif b.aux == 0: return a
            elif op == 'xor' and w == 1: return bnot(a)
            elif op == 'or' and b.aux == m: return b
        else:
            if a is b: return C(w, 0) if op == 'xor' else a
            if op == 'or' and w % 8 == 0 and w > 8:
                x, y = bytes_of(a), bytes_of(b)
                if x and y:
                    o = []
                    for p, q in zip(x, y):
                        if p.op == 'c' and p.aux == 0: o.append(q)
                        elif q.op == 'c' and q.aux == 0: o.append(p)
                        else:
                            o = None
                            break
                    if o: return from_bytes(o)
            if b.id < a.id: a, b = b, a
        return mk(op, w, (a, b))
    if op in ('udiv', 'sdiv') and b.op == 'c' and b.aux == 1: return a
    if op == 'urem' and b.op == 'c' and b.aux and b.aux & (b.aux - 1) == 0:
        return binop('and', a, C(w, b.aux - 1))
    return mk(op, w, (a, b))

_NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
        'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

_ORD = ('ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge')

def bnot(n):
    if n.op == 'c': return C(1, 1 - n.aux)
    if n.op == 'icmp': return mk('icmp', 1, n.args, _NEG[n.aux])
    if n.op == 'not': return n.args[0]
    return mk('not', 1, (n,))

def icmp(pred, a, b):
    if a is b: return C(1, int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
    if a.op == 'c' and b.op == 'c':
        x, y, p, q = a.aux, b.aux, cs(a), cs(b)
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
             'slt': p < q, 'sle': p <= q, 'sgt': p > q, 'sge': p >= q}[pred]
        return C(1, int(r))
    if a.op == 'c':
        sw = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}
        pred, a, b = sw.get(pred, pred), b, a
    if b.op == 'c' and a.op == 'zext' and a.args[0].w == 1 and pred in ('eq', 'ne') and b.aux in (0, 1):
        x = a.args[0]
        return x if (pred == 'ne') == (b.aux == 0) else bnot(x)
    if a.w == 1 and b.op == 'c' and pred in ('eq', 'ne'):
        return a if (pred == 'ne') == (b.aux == 0) else bnot(a)
    if b.op == 'c' and b.aux == 0 and pred in ('eq', 'ne') and a.op in ('zext', 'sext'):
        return icmp(pred, a.args[0], C(a.args[0].w, 0))
    if b.op == 'c' and a.op == 'zext' and b.aux < (1 << a.args[0].w) and pred[0] != 's':
        return icmp(pred, a.args[0], C(a.args[0].w, b.aux))
    if pred in ('eq', 'ne'):
        # comparison of pointers into one object -> comparison of offsets
        pa, oa = ptr_split(a)
        pb, ob = ptr_split(b)
        if pa is not None and pa is pb:
            return icmp(pred, oa, ob)
    return mk('icmp', 1, (a, b), pred)

def ptr_split(p):
    """-> (base atom or None, offset node)"""
    if p.op == 'a':
        return p, C(64, 0)
    if p.op == 'lin':
        c, co = p.aux
        best = None
        for x, k in zip(p.args, co):
            if k == 1 and x.op == 'a':
                best = x
                break
            if k == 1 and x.isptr and best is None:
                best = x
        if best is not None:
            return best, sub(p, best)
        return None, p
    if p.isptr:
        return p, C(64, 0)
    return None, p

def is_float(n):
    return n.op == 'f'

def F_(lo, hi):
    return mk('f', 64, (), (lo, hi))

# ---------------------------------------------------------------- engine
_addrs = {}

class Report:
    def __init__(self, rule, msg, where, fn, path, key):
        self.rule, self.msg, self.where, self.fn, self.path, self.key = rule, msg, where, fn, path, key

class Engine:
    def __init__(self, prog, monitors=(), summ=None, opts=None):
        import ext
        self.P = prog
        self.monitors = list(monitors)
        self.h = {}
        for m in self.monitors:
            m.eng = self
            for k in dir(m):
                if k.startswith('on_'):
                    self.h.setdefault(k[3:], []).append(getattr(m, k))
        self.summ = dict(summ or {})
        self.ext = ext.table()
        self.reports = []
        self.stack = []
        self.opts = opts or {}
        self.insts = 0
        self.covered = set()     # functions analysed
        self.sites = {}          # kind -> set of sites
        self.brlog = None
        self.decl_unknown = set()
        self.t0 = time.time()
        self.deadline = self.t0 + self.opts.get("budget", 750)
        self.early = self.t0 + 450
        self.stop_on = self.opts.get('stop_on')
        self.loopstat = 0
        self.icall = None
        self.trace_on = False
        self.maxround = 0
        self.envs = []

    # ------------------------------------------------------------ events
    def emit(self, ev_, st, **kw):
        hs = self.h.get(ev_)
        if hs:
            for f in hs:
                f(st, **kw)

    def report(self, st, rule, msg, inst=None, key=None):
        fn = self.stack[-1].name if self.stack else '?'
        where = self.where(inst)
        self.reports.append(Report(rule, msg, where, fn, trace(st) + ['%s: %s' % (where, msg)], key or (rule, where)))

    def where(self, inst):
        if inst is None:
            inst = self.cur
        if inst is None:
            return '?'
        f = inst.get('f', '?')
        return '%s:%s' % (f.split('/')[-1], inst.get('l', 0))

    def site(self, kind, inst):
        self.sites.setdefault(kind, set()).add(self.where(inst))

    cur = None

    # ------------------------------------------------------------ memory
    def new_obj(self, st, oid, size, fill='unk', kind='l', ro=False):
        o = Obj()
        o.size = size
        o.cells = {}
        o.fill = fill
        o.gver = newver('g')
        o.cver = newver('c')
        o.freed = False
        o.nul = ()
        o.ov = ()
        o.al = None
        o.born = o.cver.id
        o.kind = kind
        o.x = None
        o.ro = ro
        st.mem[oid] = o
        st.own.add(oid)
        return o

    def heap_obj(self, st, inst, size, fill='unk', family=None):
        base = family or 'h:%s:%d' % (self.stack[-1].name if self.stack else 'harness', inst['id'] if inst else 0)
        n = 0
        while '%s#%d' % (base, n) in st.mem:
            n += 1
        oid = '%s#%d' % (base, n)
        self.new_obj(st, oid, size, fill, 'h')
        return oid

    def addrs(self, n):
        r = _addrs.get(n)
        if r is None:
            if n.op == 'a':
                r = frozenset((n.aux,))
            elif n.args and n.op in ('lin', 'ite', 'zext', 'trunc', 'cat', 'byte'):
                r = frozenset().union(*[self.addrs(a) for a in n.args])
            else:
                r = frozenset()
            _addrs[n] = r
        return r

    def refs(self, st):
        """objects some pointer still leads to"""
        out = set()
        for v in st.env.values():
            out |= self.addrs(v)
        for v in st.ghost.values():
            out |= self.addrs(v)
        for fr in self.envs:
            if fr[1] is None:
                fr[1] = set().union(*[self.addrs(v) for v in fr[0].values()]) if fr[0] else set()
            out |= fr[1]
        for oid, o in st.mem.items():
            if not o.freed:
                for n, v, t in o.cells.values():
                    if v.op in ('a', 'lin', 'ite', 'cat'):
                        out |= self.addrs(v)
        return out

    def canon(self, st):
        """forget freed blocks nothing points to; give blocks of one origin
        their lowest number again"""
        fam = {}
        need = False
        for oid, o in st.mem.items():
            if oid.startswith('h:'):
                root, k = oid.rsplit('#', 1)
                fam.setdefault(root, []).append(int(k))
                if o.freed or k != '0':
                    need = True
        if not need:
            return
        refs = self.refs(st)
        ren = {}
        for root, ks in fam.items():
            keep = []
            for k in sorted(ks):
                oid = '%s#%d' % (root, k)
                if st.mem[oid].freed and oid not in refs:
                    st.mem.pop(oid)
                    continue
                keep.append(k)
            for new, k in enumerate(keep):
                if new != k:
                    ren['%s#%d' % (root, k)] = '%s#%d' % (root, new)
        if not ren:
            return
        # values held by callers cannot be renamed
        for fr in self.envs:
            if fr[1] and (fr[1] & set(ren) or fr[1] & set(ren.values())):
                return
        m = {addr(a): addr(b) for a, b in ren.items()}
        memo = {}
        def S(v):
            return subst(v, m, memo) if v.op != 'f' else v
        st.env = {k: S(v) for k, v in st.env.items()}
        st.ghost = {k: S(v) for k, v in st.ghost.items()}
        mem = {}
        for oid, o in list(st.mem.items()):
            if any(v.op in ('a', 'lin', 'ite', 'cat') and self.addrs(v) for n, v, t in o.cells.values()):
                ch = {k: (n, S(v), t) for k, (n, v, t) in o.cells.items()}
                if any(ch[k][1] is not o.cells[k][1] for k in ch):
                    o = st.w(oid)
                    o.cells = ch
            mem[ren.get(oid, oid)] = o
        st.mem = mem
        st.own = {ren.get(x, x) for x in st.own}
        self.emit('renamed', st, map=m)
        F = st.F
        ra = set(ren)
        def has(n):
            return any(a.op == 'a' and a.aux in ra for a in atoms(n))
        if any(has(v) for f in F.lin.values() for v in f[1]) or any(has(x) for p in F.ne for x in p) or any(has(n) for n in F.u):
            F = st.fw()
            F.lin = {k: f for k, f in F.lin.items() if not any(has(v) for v in f[1])}
            F.ne = {p for p in F.ne if not any(has(x) for x in p)}
            F.u = {n: x for n, x in F.u.items() if not has(n)}
            F.touch()

    def global_obj(self, st, name):
        oid = 'g:' + name
        if oid in st.mem:
            return oid
        g = self.P.globals.get(name)
        if g is None:
            self.new_obj(st, oid, None, 'unk', 'g')
            return oid
        fill = 'init' if 'relocs' in g else 'unk'
        if not g['const'] and self.opts.get('havoc_globals') and name not in self.opts.get('keep_globals', ()):
            fill = 'unk'
        o = self.new_obj(st, oid, C(64, g['size']), fill, 'g', g['const'])
        # deterministic identity so that lazily created globals agree between states
        o.gver = named(0, 'g:' + name)
        o.cver = named(0, 'c:' + name)
        return oid

    dbase = {}

    def base_of(self, oid):
        """the pointer term that leads to an object"""
        return self.dbase[oid] if oid in self.dbase else addr(oid)

    def obj_of(self, st, base):
        if base.op == 'a':
            oid = base.aux
            if oid in st.mem:
                return oid
            if oid.startswith('g:'):
                return self.global_obj(st, oid[2:])
            if oid.startswith('f:'):
                return None
            # object dropped by a join or out of scope: unknown content
            o = self.new_obj(st, oid, None, 'unk', 'x')
            o.gver = named(0, 'g:' + oid)
            o.cver = named(0, 'c:' + oid)
            return oid
        oid = 'd:%d' % base.id
        self.dbase[oid] = base
        if oid not in st.mem:
            o = self.new_obj(st, oid, None, 'unk', 'd')
            o.gver = mk('dg', 0, (base,))
            o.cver = mk('dc', 0, (base,))
        return oid

    def resolve(self, st, p, inst=None):
        """pointer value -> (object id, offset node) or (None, None)"""
        c = st.F.const(p)
        if c is not None and p.op != 'a':
            if c < 4096:
                self.emit('null', st, inst=inst, ptr=p)
            return None, None
        b, off = ptr_split(p)
        if b is None:
            b, off = p, C(64, 0)
        if b.op != 'a' and b in self.maynull and st.F.ub(b)[0] == 0 and not st.F.prove((-1, {b: 1})):
            self.emit('maynull', st, inst=inst, ptr=p)
        oid = self.obj_of(st, b)
        if oid is None:
            return None, None
        return oid, st.F.norm(off)

    maynull = set()

    @staticmethod
    def split(off):
        c, d = lin_parts(off)
        if not d:
            return None, c
        return mklin(off.w, 0, d), c

    def access(self, st, oid, off, n, write, inst, what=None):
        o = st.mem[oid]
        if o.freed:
            self.emit('uaf', st, oid=oid, inst=inst)
        self.emit('access', st, oid=oid, off=off, n=n, write=write, inst=inst, what=what)

    def peek(self, st, oid, base, c, n, ptr=False):
        """value of n bytes at (base, c); no state change"""
        o = st.mem[oid]
        v = o.cells.get((base, c))
        if v is not None and v[0] == n:
            return v[1]
        # same-base overlap
        hit = None
        part = False
        for (b2, c2), (n2, v2, t2) in o.cells.items():
            if b2 is base:
                if c2 < c + n and c < c2 + n2:
                    part = True
                    break
        if part:
            bs = []
            for i in range(n):
                bs.append(self.peek_byte(o, base, c + i))
            r = from_bytes(bs) if n in (1, 2, 4, 8) or n <= 64 else sym(8 * n, 'u')
            if ptr and r.op not in ('c',):
                r.isptr = True
            return r
        for (b2, c2), (n2, v2, t2) in o.cells.items():
            if b2 is not base and t2 != 'L':
                if not self.disjoint(st, base, c, n, b2, c2, n2):
                    return None
        return self.untracked(st, oid, o, base, c, n, ptr)

    def peek_byte(self, o, base, c):
        for (b2, c2), (n2, v2, t2) in o.cells.items():
            if b2 is base and c2 <= c < c2 + n2:
                if n2 <= 64:
                    return get_bytes(v2)[c - c2]
                return mk('byte', 8, (v2,), c - c2)
        r = self.untracked(None, None, o, base, c, 1, False)
        return r

    def untracked(self, st, oid, o, base, c, n, ptr):
        ver = o.gver
        fill = o.fill
        if base is None:
            for lo, hi, v in reversed(o.ov):
                if lo <= c and c + n <= hi:
                    ver = v
                    fill = 'zero' if v is ZEROV else 'unk'
                    break
                if c < hi and lo < c + n:
                    return sym(8 * n, 'mix', ptr)
        elif o.ov:
            return sym(8 * n, 'mix', ptr)
        if fill == 'zero':
            return C(8 * n, 0)
        if fill == 'init' and base is None and oid is not None:
            return self.init_val(oid, c, n, ptr)
        if fill == 'init' and oid is None:
            return sym(8 * n, 'ini', ptr)
        r = mk('ld', 8 * n, (ver, base if base is not None else NULL), c)
        if ptr:
            r.isptr = True
        return r

    def init_val(self, oid, c, n, ptr):
        g = self.P.globals[oid[2:]]
        for off, o in g.get('relocs', ()):
            if off == c and n == 8:
                if o[0] == 'g':
                    nm = o[1]
                    return add(addr(('f:' if nm in self.P.fns else 'g:') + nm), C(64, o[2]))
                return sym(64, 'rel', True)
        if c < 0 or c + n > g['size']:
            return sym(8 * n, 'oob', ptr)
        hx = g.get('bytes')
        if not hx:
            return C(8 * n, 0)
        b = bytes.fromhex(hx[2 * c:2 * (c + n)])
        return C(8 * n, int.from_bytes(b, 'little'))

    def disjoint(self, st, b1, c1, n1, b2, c2, n2):
        x = add(b1 if b1 is not None else NULL, C(64, c1))
        y = add(b2 if b2 is not None else NULL, C(64, c2))
        d = sub(y, x)
        if d.op == 'c':
            v = cs(d)
            return v >= n1 or v <= -n2
        F = st.F
        if b1 is None and b2 is not None or b2 is None and b1 is not None:
            lo1, hi1 = F.ub(x)
            lo2, hi2 = F.ub(y)
            if hi1 + n1 <= lo2 or hi2 + n2 <= lo1:
                return True
        f = fadd(F.uform(y), F.uform(x), -1)
        if F.prove((f[0] - n1, f[1])):
            return True
        if F.prove((-f[0] - n2, {v: -k for v, k in f[1].items()})):
            return True
        return False

    def load(self, st, oid, off, n, ptr=False):
        base, c = self.split(off)
        v = self.peek(st, oid, base, c, n, ptr)
        o = st.mem[oid]
        if v is None:
            v = sym(8 * n, 'u', ptr)
            st.w(oid).cells[(base, c)] = (n, v, None)
        elif (v.op == 's' and (base, c) not in o.cells) and v.aux[0] in ('mix', 'ini', 'u', 'oob'):
            st.w(oid).cells[(base, c)] = (n, v, None)
        elif base is not None and n in (4, 8) and v.op == 'ld' and o.kind == 'h' and (base, c) not in o.cells:
            # not written, but known: survives writes elsewhere
            st.w(oid).cells[(base, c)] = (n, v, 'L')
        if n == 1 and v.op != 'c':
            self.str_byte(st, oid, off, v)
        return v

    def drop_overlap(self, st, oid, base, c, n):
        """remove what a write of n bytes at (base,c) may change; n int"""
        o = st.w(oid)
        bump = base is not None and o.fill != 'unk'
        dele = []
        add_ = []
        for (b2, c2), (n2, v2, t2) in o.cells.items():
            if b2 is base:
                if c2 < c + n and c < c2 + n2:
                    dele.append((b2, c2))
                    if not (c <= c2 and c2 + n2 <= c + n):
                        if n2 <= 64:
                            bs = get_bytes(v2)
                            lo = c - c2
                            hi = c + n - c2
                            if lo > 0:
                                add_.append(((base, c2), (lo, from_bytes(bs[:lo]), t2)))
                            if hi < n2:
                                add_.append(((base, c2 + hi), (n2 - hi, from_bytes(bs[hi:]), t2)))
                        else:
                            bump = True
            elif not self.disjoint(st, base, c, n, b2, c2, n2):
                dele.append((b2, c2))
                bump = True
        for k in dele:
            del o.cells[k]
        for k, v in add_:
            o.cells[k] = v
        return o, bump

    def store(self, st, oid, off, n, val, tag=None, inst=None):
        off = st.F.norm(off)
        base, c = self.split(off)
        o, bump = self.drop_overlap(st, oid, base, c, n)
        if base is not None:
            bump = True
        if bump:
            o.gver = newver('g')
            o.fill = 'unk'
            if o.ov:
                o.ov = ()
        val = st.F.norm(val) if val.w <= 64 else val
        o.cells[(base, c)] = (n, val, tag)
        self.written(st, oid, o, off, n, val)

    def written(self, st, oid, o, off, n, val):
        """bookkeeping common to all writes: content version, NUL knowledge"""
        if o.nul or (n == 1 and val is not None):
            keep = []
            z = val is not None and val.op == 'c' and val.aux == 0
            if o.nul:
                nn = n if not isinstance(n, int) else C(64, n)
                for k in o.nul:
                    if z:
                        keep.append(k)
                    else:
                        end = add(off, nn)
                        if st.F.decide('ult', k, off) or st.F.decide('ule', end, k):
                            keep.append(k)
            if n == 1 and z and off not in keep:
                keep.append(off)
            o.nul = tuple(keep[-4:])
        o.cver = newver('c')
        o.al = None

    def havoc(self, st, oid, off, n, inst=None, ver=None):
        """n bytes (int or node) at off get unknown content"""
        o = st.w(oid)
        if not isinstance(n, int):
            k = st.F.const(n)
            if k is not None:
                n = k
        off = st.F.norm(off)
        base, c = self.split(off)
        ver = ver or newver('g')
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int) and base is None:
            o, bump = self.drop_overlap(st, oid, base, c, n)
            if bump or len(o.ov) > 8:
                o.fill = 'unk'
                o.gver = newver('g')
                o.ov = ()
            elif o.size is not None and o.size.op == 'c' and c <= 0 and c + n >= o.size.aux:
                o.fill = 'zero' if ver is ZEROV else 'unk'
                o.gver = ver if ver is not ZEROV else newver('g')
                o.ov = ()
                o.cells = {}
            else:
                o.ov = tuple(x for x in o.ov if not (c <= x[0] and x[1] <= c + n)) + ((c, c + n, ver),)
        else:
            hi = st.F.ub(n)[1] if not isinstance(n, int) else n
            nn = n if not isinstance(n, int) else C(64, n)
            end = add(off, nn)
            for (b2, c2), (n2, v2, t2) in list(o.cells.items()):
                lo2 = add(b2, C(64, c2)) if b2 is not None else C(64, c2)
                if st.F.decide('ule', end, lo2) or st.F.decide('ule', add(lo2, C(64, n2)), off):
                    if not (b2 is None and base is None and hi > (1 << 47)):
                        continue
                del o.cells[(b2, c2)]
            o.fill = 'unk'
            o.gver = ver
            o.ov = ()
        self.written(st, oid, o, off, n, C(8, 0) if ver is ZEROV else None)

    def content(self, st, oid, off, n):
        """n constant bytes as one node"""
        base, c = self.split(st.F.norm(off))
        v = self.peek(st, oid, base, c, n)
        if v is None or (v.op == 's' and v.aux[0] in ('mix', 'ini', 'u', 'oob')):
            v = v if v is not None else sym(8 * n, 'u')
            st.w(oid).cells[(base, c)] = (n, v, None)
        return v

    def region(self, st, oid, off, ln):
        o = st.mem[oid]
        off = st.F.norm(off)
        ln = st.F.norm(ln)
        if o.al is not None:
            dlo, dl, scv, soff = o.al
            d = sub(off, dlo)
            if d is NULL and (ln is dl or st.F.decide('ule', ln, dl)):
                return mk('reg', 0, (scv, soff, ln))
        return mk('reg', 0, (o.cver, off, ln))

    # strings ----------------------------------------------------------
    def strlen_node(self, st, oid, off):
        o = st.mem[oid]
        off = st.F.norm(off)
        if o.ro and o.fill == 'init' and off.op == 'c':
            g = self.P.globals[oid[2:]]
            b = bytes.fromhex(g.get('bytes', '')) or b'\0' * g['size']
            z = b.find(b'\0', off.aux)
            if z >= 0:
                return C(64, z - off.aux)
        n = mk('strlen', 64, (o.cver, off))
        for k in o.nul:
            if st.F.decide('ule', off, k):
                d = sub(k, off)
                if d is not n:
                    st.assume('ule', n, d)
        if o.size is not None:
            d = sub(o.size, off)
            if st.F.decide('ult', off, o.size):
                if not st.F.decide('ult', n, d):
                    st.assume('ult', n, d)
        return n

    def str_byte(self, st, oid, off, v):
        """relate a loaded byte to the known string length"""
        o = st.mem[oid]
        if not o.nul or o.size is None and not o.nul:
            return
        F = st.F
        for k in o.nul:
            if off is k or F.decide('eq', off, k):
                st.assume('eq', v, C(8, 0))
                return
        S = mk('strlen', 64, (o.cver, NULL))
        if F.decide('ult', off, S):
            st.assume('ne', v, C(8, 0))

    def on_byte_nonzero(self, st, v):
        """v (an ld byte) assumed nonzero: it lies before every NUL at or after it"""
        ver, base = v.args
        for oid, o in st.mem.items():
            if o.gver is ver and o.nul:
                off = add(base, C(64, v.aux))
                for k in o.nul:
                    if st.F.decide('ule', off, k) and not st.F.decide('ult', off, k):
                        st.assume('ult', off, k)
                S = mk('strlen', 64, (o.cver, NULL))
                if st.F.decide('ule', off, S) and not st.F.decide('ult', off, S):
                    st.assume('ult', off, S)

    def on_byte_zero(self, st, v):
        ver, base = v.args
        for oid, o in st.mem.items():
            if o.gver is ver:
                off = add(base, C(64, v.aux))
                if off not in o.nul:
                    o = st.w(oid)
                    o.nul = (o.nul + (off,))[-4:]
                S = mk('strlen', 64, (o.cver, NULL))
                if st.F.decide('ule', off, S):
                    st.assume('eq', off, S)
                else:
                    st.assume('ule', S, off)

    # ------------------------------------------------------------ operands
    def val(self, st, o, w=64):
        k = o[0]
        if k == 'v':
            return st.env[o[1]]
        if k == 'i':
            return C(o[1], int(o[2]))
        if k == 'a':
            return st.env[('a', o[1])]
        if k == 'g':
            nm = o[1]
            a = addr(('f:' if nm in self.P.fns else 'g:') + nm)
            return add(a, C(64, o[2])) if o[2] else a
        if k == 'n':
            return NULL
        if k == 'f':
            return F_(o[1], o[1])
        if k == 'u':
            t = o[1]
            return sym(64 if t == 'p' else (t if isinstance(t, int) and t else 64), 'undef')
        return sym(w, 'x')

    # ------------------------------------------------------------ conditions
    def branch(self, st, c):
        """-> list of (bool, state)"""
        d = self.decide(st, c)
        if d is not None:
            return [(d, st)]
        t = st.fork()
        out = []
        if self.assume(st, c, True):
            out.append((True, st))
        if self.assume(t, c, False):
            out.append((False, t))
        return out

    def decide(self, st, c):
        if c.op == 'c':
            return bool(c.aux)
        if c.op == 'not':
            r = self.decide(st, c.args[0])
            return None if r is None else not r
        if c.op == 'icmp':
            return st.F.decide(c.aux, c.args[0], c.args[1])
        if c.op == 'and' and c.w == 1:
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if c.op == 'or' and c.w == 1:
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if c.op == 'trunc' and c.w == 1:
            pass
        k = st.F.const(c)
        return None if k is None else bool(k)

    def relength(self, st, a, b):
        """a and b are now known to be equal: digests of regions with the one
        length are digests of regions with the other"""
        add_ = []
        for n in st.F.eq:
            if n.op == 'sha':
                r = n.args[0]
                for x, y in ((a, b), (b, a)):
                    if r.args[2] is x:
                        add_.append((n, mk('sha', 256, (mk('reg', 0, (r.args[0], r.args[1], y)),))))
        for n, m in add_:
            F = st.fw()
            for y in list(F.wide_class(n)):
                if y is not m:
                    F.eq[m] = F.eq.get(m, frozenset()) | {y}
                    F.eq[y] = F.eq.get(y, frozenset()) | {m}
            F.touch()

    def assume(self, st, c, truth):
        if c.op == 'c':
            return bool(c.aux) == truth
        if c.op == 'not':
            return self.assume(st, c.args[0], not truth)
        if c.op == 'icmp':
            p = c.aux if truth else _NEG[c.aux]
            a, b = c.args
            if not st.assume(p, a, b):
                return False
            x = a
            while x.op in ('sext', 'zext'):
                x = x.args[0]
            if x.w == 8 and x.op == 'ld' and b.op == 'c':
                if b.aux == 0 and p in ('eq', 'ne'):
                    (self.on_byte_zero if p == 'eq' else self.on_byte_nonzero)(st, x)
                elif p == 'eq' or p in ('sgt', 'sge', 'ugt', 'uge') and st.F.decide('ne', x, C(8, 0)):
                    self.on_byte_nonzero(st, x)
            if p == 'eq' and a.w == 64 and b.op != 'c':
                self.relength(st, a, b)
            self.emit('assume', st, pred=p, a=a, b=b)
            return True
        if c.op in ('and', 'or') and c.w == 1 and (c.op == 'and') == truth:
            return self.assume(st, c.args[0], truth) and self.assume(st, c.args[1], truth)
        v = int(truth)
        if c.op == 'trunc' and c.w == 1 and c.args[0].w <= 64:
            x = c.args[0]
            if st.F.ub(x)[1] <= 1:
                if not st.fw().set_u(x, v, v):
                    return False
        if not st.fw().set_u(c, v, v):
            return False
        self.emit('assume', st, pred='eq', a=c, b=C(c.w, v))
        return True

    # ------------------------------------------------------------ running functions
    def call_fn(self, fn, args, st, inst=None):
        """inline analysis of an internal function: -> list of (state, ret)"""
        if time.time() > self.deadline:
            raise EngineError('analysis budget exceeded')
        for f in self.stack:
            if f is fn:
                raise EngineError('recursion through %s' % fn.name)
        if len(self.stack) > 30:
            raise EngineError('call depth')
        self.covered.add(fn.name)
        saved = st.env
        savedfr = st.frame
        st.env = {('a', i): a for i, a in enumerate(args)}
        st.frame = ()
        mark = sym(0, 'mark').id
        self.stack.append(fn)
        self.envs.append([saved, None])
        try:
            rets = self.run_blocks(fn, None, 0, [(st, None)])[2]
        finally:
            self.stack.pop()
            self.envs.pop()
        out = []
        for s, v in rets:
            self.emit('frame_exit', s, fn=fn, ret=v, locals=s.frame)
            for oid in s.frame:
                s.mem.pop(oid, None)
            s.env = dict(saved)
            s.frame = savedfr
            out.append((s, v))
        if len(out) > self.opts.get('merge_at', 6):
            out = self.merge_rets(out, mark)
        return out

    def rkey(self, v, st):
        if v is None:
            return None
        c = st.F.const(v) if v.w <= 64 else None
        if c is not None:
            return ('c', c)
        if v.w > 1 and v.w <= 64:
            if st.F.sb(v)[1] < 0: return 'neg'
            if st.F.sb(v)[0] > 0: return 'pos'
            b, off = ptr_split(v)
            if b is not None: return ('p', b.op, b.aux if b.op == 'a' else None)
        return 'x'

    def merge_rets(self, outs, mark):
        groups = {}
        for s, v in outs:
            if v is not None:
                s.env['$ret'] = v
            self.canon(s)
            v = s.env.pop('$ret', None)
            groups.setdefault((self.key(s), self.rkey(v, s)), []).append((s, v))
        res = []
        for k, g in groups.items():
            if len(g) == 1:
                res += g
                continue
            for s, v in g:
                if v is not None:
                    s.env['$ret'] = v
            j = self.generalise([s for s, v in g], GenCtx(BIG), None)
            v = j.env.pop('$ret', None)
            res.append((j, v))
        return res

    def key(self, st):
        k = [frozenset(st.ts.items())]
        cells = []
        ptrkey = self.opts.get('ptrkey', '')
        for oid, o in st.mem.items():
            if o.freed and o.kind == 'h':
                cells.append((oid, 'freed'))
            if o.cells:
                if o.kind == 'g' and not self.opts.get('gflags'):
                    continue
                if o.kind == 'h' and (o.size is None or o.size.op != 'c'):
                    continue        # array of records: no one element's flags matter
                cnt = {}
                for (b, c), (n, v, t) in o.cells.items():
                    if n == 8 and b is None and o.kind in ptrkey:
                        if v.op == 'a' or v.isptr and st.F.ub(v)[0] > 0:
                            cells.append((oid, c, 'ptr'))
                    if t is not None and n <= 4 and t in self.P.flag_tags:
                        cnt.setdefault(t, []).append((b, c, v))
                for t, xs in cnt.items():
                    if len(xs) == 1 or o.kind != 'h':
                        for b, c, v in xs:
                            if b is None and v.op == 'c':
                                cells.append((oid, c, v.aux))
        k.append(frozenset(cells))
        k.append(frozenset((f.id, a) for f, a in st.fds.items()) if self.opts.get('fdkey') else None)
        return tuple(k)

    def do_phis(self, fn, b, st, pred):
        vals = []
        for i in fn.blocks[b]:
            if i['op'] != 'phi':
                break
            for p, o in i['inc']:
                if p == pred:
                    vals.append((i['id'], self.val(st, o, i['t'] if isinstance(i['t'], int) else 64)))
                    break
        for k, v in vals:
            st.env[k] = st.F.norm(v) if v.op != 'f' else v

    def run_blocks(self, fn, L, start, inputs):
        """execute the blocks of loop L (or the whole function) from start.
        inputs: (state, pred); phis of start are already evaluated when L is
        given.  -> (back states, [(target, state, pred)], [(state, ret)])"""
        import heapq
        pend = {start: list(inputs)}
        backs, exits, rets = [], [], []
        rpon = fn.rpon
        heap = [rpon[start]]
        first = True
        while heap:
            bi = heapq.heappop(heap)
            b = fn.rpo[bi]
            items = pend.pop(b, None)
            if not items:
                continue
            edges = []
            if b in fn.loops and not (L is not None and b == L.head):
                ex, rt = self.run_loop(fn, fn.loops[b], items)
                edges = ex
                rets += rt
            else:
                todo = items
                for st, pred in todo:
                    if not (first and L is not None):
                        self.do_phis(fn, b, st, pred)
                merged = todo
                lim = self.opts.get('block_merge', 24)
                if len(todo) > lim and not first:
                    merged = self.merge_block(fn, b, [s for s, _ in todo])
                for st, pred in merged:
                    for s, t, r in self.run_block(fn, b, st):
                        if t is None:
                            rets.append((s, r))
                        else:
                            edges.append((t, s, b))
            first = False
            for t, s, p in edges:
                if L is not None and t == L.head:
                    self.do_phis(fn, t, s, p)
                    backs.append(s)
                elif L is not None and t not in L.body:
                    exits.append((t, s, p))
                else:
                    if t not in pend:
                        pend[t] = []
                        heapq.heappush(heap, rpon[t])
                    pend[t].append((s, p))
        return backs, exits, rets

    def merge_block(self, fn, b, states):
        groups = {}
        phis = [i['id'] for i in fn.blocks[b] if i['op'] == 'phi']
        live = fn.live[b]
        for s in states:
            s.env = {k: v for k, v in s.env.items() if k in live}
            self.canon(s)
            k = tuple(self.rkey(s.env[p], s) for p in phis if s.env[p].op != 'f')
            groups.setdefault((self.key(s), k), []).append(s)
        out = []
        for k, g in groups.items():
            if len(g) > 1:
                # common suffix of the environment only
                ids = set(g[0].env)
                for s in g[1:]:
                    ids &= set(s.env)
                for s in g:
                    s.env = {i: s.env[i] for i in ids}
                j = self.generalise(g, GenCtx(BIG), None)
                out.append((j, None))
            else:
                out.append((g[0], None))
        return out

    # ------------------------------------------------------------ loops
    def run_loop(self, fn, L, items):
        for st, pred in items:
            self.do_phis(fn, L.head, st, pred)
        phis = [i['id'] for i in fn.blocks[L.head] if i['op'] == 'phi']
        live = fn.live[L.head]
        for s, _ in items:
            s.env = {k: v for k, v in s.env.items() if k in live}
        def body(states):
            for s in states:
                s.env = {k: v for k, v in s.env.items() if k in live}
            return self.run_blocks(fn, L, L.head, [(s, None) for s in states])
        return self.fix([s for s, _ in items], body, (fn.name, L.head), L)

    def fix(self, entries, body, name, L=None, unroll=True):
        """fixpoint of body (states -> backs, exits, rets) from entries"""
        mark = sym(0, 'mark').id
        vmark = len(self.reports)
        # ---- bounded loops: follow them precisely
        if unroll and L is not None:
            cur = self.group([s.fork() for s in entries], mark)
            allx, allr = [], []
            ok = False
            nolog = self.brlog
            for it in range(self.opts.get('unroll', 72)):
                self.brlog = {}
                before = self.constsig(cur)
                backs, exits, rets = body(cur)
                log = self.brlog
                allx += exits
                allr += rets
                if not backs:
                    ok = True
                    break
                dec = [b for b in L.exiting if log.get((id(L), b)) is True]
                if not dec:
                    break
                cur = self.group(backs, mark)
                if self.constsig(cur) == before:
                    break
                if len(cur) > 40:
                    break
            self.brlog = nolog
            if ok:
                return allx, allr
            del self.reports[vmark:]
        # ---- invariants
        parts = {}
        entries = list(entries)
        for s in entries:
            self.canon(s)
            parts.setdefault(self.key(s), Part(GenCtx(mark))).E.append(s)
        for p in parts.values():
            p.inv = self.generalise([s.fork() for s in p.E], p.ctx, None)
        def share():
            allw = set()
            for p in parts.values():
                allw |= p.ctx.syms()
            for p in parts.values():
                p.ctx.shared = allw | p.extra if p.extra else allw
        share()
        saved = self.brlog
        tried = False
        rnd, left = -1, 26
        while left > 0:
            rnd += 1
            moved = False
            if time.time() > self.deadline:
                raise EngineError('analysis budget exceeded in loop %s' % (name,))
            self.maxround = max(self.maxround, rnd)
            del self.reports[vmark:]
            B = {}
            allx, allr = [], []
            self.brlog = {}
            for k, p in list(parts.items()):
                # (a part whose invariant is the one of the round before leads where it led then)
                if p.cache is None or p.cache[0] is not p.inv:
                    at = len(self.reports)
                    backs, exits, rets = body([p.inv.fork()])
                    p.cache = p.inv, backs, exits, rets, self.reports[at:]
                else:
                    _, backs, exits, rets, rep = p.cache
                    self.reports += rep
                backs = [s.fork() for s in backs]
                allx += exits
                allr += rets
                for s in backs:
                    if L is not None:
                        s.env = {k: v for k, v in s.env.items() if k in self.stack[-1].live[L.head]}
                    self.canon(s)
                    B.setdefault(self.key(s), []).append(s)
            stable = True
            for k, ss in B.items():
                p = parts.get(k)
                if p is None:
                    p = parts[k] = Part(GenCtx(mark))
                    p.extra = common_syms(ss, mark)
                    share()
                    p.first = ss
                    p.E = []
                    p.inv = self.generalise([s.fork() for s in ss], p.ctx, None)
                    p.srcs = None
                    stable = False
                    continue
                p.ctx.round += 1
                srcs = [s.fork() for s in p.E] + ss
                p.ctx.nE = len(p.E)
                if not p.E and p.ctx.round == 1:
                    srcs = [s.fork() for s in p.first] + ss
                p.srcs = srcs
                new = self.generalise([s.fork() for s in srcs], p.ctx, p.inv)
                if p.ctx.changed:
                    stable = False
                    p.inv = new
                    moved = True
            share()
            if moved or rnd >= 150:
                left -= 1
            if self.opts.get('debug'):
                print('  ' * len(self.stack), 'fix', name, 'round', rnd, 'parts', len(parts), 'exits', len(allx), len(allr), 'insts', self.insts, flush=True)
            if self.opts.get('debug', 0) > 1 and rnd == self.opts['debug']:
                for k in parts: print('KEY', [sorted(x, key=str) if x else x for x in k])
            if stable and not tried:
                # one descending step for intervals that were widened too far
                tried = True
                for p in parts.values():
                    if p.srcs and any(p.ctx.ivn.values()):
                        p.ctx.narrow, p.ctx.narrowed = True, False
                        new = self.generalise([s.fork() for s in p.srcs], p.ctx, p.inv)
                        p.ctx.narrow = False
                        if p.ctx.narrowed:
                            p.inv = new
                            stable = False
            if stable:
                break
        else:
            raise EngineError('no fixpoint for loop %s' % (name,))
        self.brlog = saved
        self.loopstat += 1
        return allx, allr

    def constsig(self, states):
        out = []
        for s in states:
            sig = [(k, v.aux) for k, v in s.env.items() if v.op == 'c' and v.w > 1]
            sig2 = []
            for oid, o in s.mem.items():
                if o.kind == 'l' or o.kind == 'h' or o.kind == 'g':
                    for (b, c), (n, v, t) in o.cells.items():
                        if v.op == 'c' and n >= 4:
                            sig2.append((oid, c, v.aux))
            out.append((tuple(sorted(sig, key=str)), tuple(sorted(sig2, key=str))))
        return out

    def group(self, states, mark):
        groups = {}
        for s in states:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append(self.generalise(g, GenCtx(BIG), None))
        return out

    # ------------------------------------------------------------ generalisation
    def generalise(self, srcs, ctx, prev):
        """least common abstraction of the source states (shape, values, facts)"""
        if len(srcs) == 1 and prev is None:
            ctx.changed = True
            return srcs[0]
        s0 = srcs[0]
        J = State()
        J.path = s0.path
        J.ts = dict(s0.ts)
        J.frame = s0.frame
        # ---- locations
        locs = []
        def loc(key, vals, ptr=False):
            v0 = vals[0]
            if 0 < v0.w <= 64 and any(v is not v0 for v in vals):
                vals = [s.F.norm(v) for s, v in zip(srcs, vals)]
            locs.append((key, vals))
        envk = set(s0.env)
        for s in srcs[1:]:
            envk &= set(s.env)
        for k in sorted(envk, key=str):
            loc(('e', k), [s.env[k] for s in srcs])
        gk = set(s0.ghost)
        for s in srcs[1:]:
            gk &= set(s.ghost)
        for k in sorted(gk, key=str):
            loc(('G', k), [s.ghost[k] for s in srcs])
        ids = set(s0.mem)
        for s in srcs[1:]:
            ids &= set(s.mem)
        # globals are created lazily: make them exist everywhere
        for s in srcs:
            for oid in s.mem:
                if oid.startswith('g:') and oid not in ids:
                    ids.add(oid)
        # symbolic objects created lazily in one source are unconstrained there
        objs = {}
        for oid in sorted(ids):
            if oid.startswith('g:'):
                for s in srcs:
                    if oid not in s.mem:
                        self.obj_of(s, addr(oid))
            os_ = [s.mem[oid] for s in srcs]
            o = Obj()
            o.kind = os_[0].kind
            o.born = os_[0].born
            o.freed = any(x.freed for x in os_)
            o.ro = os_[0].ro
            o.cells = {}
            o.al = None
            o.x = self.join_x([x.x for x in os_])
            o.nul = ()
            o.ov = ()
            o.fill = os_[0].fill
            o.gver = o.cver = o.size = None
            objs[oid] = o
            same = all(x is os_[0] for x in os_)
            if same:
                for a in ('size', 'fill', 'gver', 'cver', 'nul', 'ov', 'al', 'x'):
                    setattr(o, a, getattr(os_[0], a))
                o.cells = dict(os_[0].cells)
                continue
            lossy = False
            if any(x.fill != o.fill for x in os_):
                o.fill = 'unk'
                lossy = True
            ovs = [tuple((a, b) for a, b, _ in x.ov) for x in os_]
            if any(v != ovs[0] for v in ovs):
                rs = []
                for a, b in sorted(set(r for v in ovs for r in v) | set(ctx.ovr.get(oid, ()))):
                    if rs and a < rs[-1][1]:
                        rs[-1][1] = max(b, rs[-1][1])
                    else:
                        rs.append([a, b])
                ctx.ovr[oid] = [tuple(r) for r in rs]
                ovs0 = ()
            elif oid in ctx.ovr:
                ovs0 = ()
            else:
                ovs0 = ovs[0]
                for i in range(len(ovs0)):
                    loc(('ov', oid, i), [x.ov[i][2] for x in os_])
            keys = set()
            for x in os_:
                keys |= set(x.cells)
            for k in sorted(keys, key=lambda t: (t[0].id if t[0] is not None else -1, t[1])):
                cs_ = [x.cells.get(k) for x in os_]
                ns = {c[0] for c in cs_ if c is not None}
                if len(ns) != 1:
                    if k[0] is not None:
                        lossy = True
                        continue
                    # different granularity: use the widest, built from parts
                    n = max(ns)
                else:
                    n = ns.pop()
                vals = []
                for s, x, c in zip(srcs, os_, cs_):
                    if c is not None and c[0] == n:
                        vals.append(c[1])
                    else:
                        v = self.peek(s, oid, k[0], k[1], n)
                        if v is None:
                            v = sym(8 * n, 'u')
                        vals.append(v)
                if any(v.w != vals[0].w for v in vals):
                    lossy = True
                    continue
                if k[0] is not None and any(c is None for c in cs_):
                    lossy = True
                    continue
                tags = [c[2] for c in cs_ if c is not None]
                loc(('c', oid, k, n, tags[0]), vals)
            if any(x.size is None for x in os_):
                o.size = None
            else:
                loc(('z', oid), [x.size for x in os_])
            if lossy:
                W = ctx.W(('g', oid, 'lossy'), 0)
                o.gver = W
                ctx.lossy.add(oid)
                o.ov = ()
                ovs0 = None
            elif oid in ctx.lossy:
                o.gver = ctx.W(('g', oid, 'lossy'), 0)
                o.fill = 'unk'
                ovs0 = None
            else:
                loc(('g', oid), [x.gver for x in os_])
            loc(('v', oid), [x.cver for x in os_])
            o.ov = ovs0 if ovs0 else ()
            if oid in ctx.ovr and not (lossy or oid in ctx.lossy):
                o.ov = tuple((a, b, ctx.W(('ovu', oid, a, b), 0)) for a, b in ctx.ovr[oid])
            # nul knowledge
            nl = min(len(x.nul) for x in os_)
            for i in range(nl):
                loc(('n', oid, i), [x.nul[i] for x in os_])
            if all(x.al is not None for x in os_):
                for i in range(4):
                    loc(('al', oid, i), [x.al[i] for x in os_])
        # ---- values
        vals = {}
        todo = []
        n = len(srcs)
        for key, vs in locs:
            if all(v is vs[0] for v in vs) and key not in ctx.own and key not in ctx.aff:
                vals[key] = vs[0]
            else:
                todo.append((key, vs))
        todo.sort(key=lambda kv: (0 if kv[1][0].w == 0 else 1, 0 if kv[0] in ctx.own else 1, self.mag(kv[1]), 0 if any(v.op == 'c' for v in kv[1]) else 1))
        vmaps = [dict() for _ in srcs]       # versions of memory -> generalised version
        vmemo = [dict() for _ in srcs]
        reps = {}     # tuple of values -> key with own W
        replist = []
        changed = False
        newown = set()
        assign = {}
        for key, vs in todo:
            w = vs[0].w
            addrbase = None
            avs = vs
            if w == 64:
                sp = [ptr_split(v) for v in vs]
                if sp[0][0] is not None and sp[0][0].op == 'a' and all(x[0] is sp[0][0] for x in sp):
                    addrbase = sp[0][0]
                    avs = [x[1] for x in sp]
            t = tuple(avs)
            e = None
            if key not in ctx.own or True:
                allowed = ctx.own.get(key) is None
                if allowed:
                    if all(v is avs[0] for v in avs):
                        e = avs[0]
                    elif t in reps:
                        e = ctx.W(reps[t], w)
                    elif w in (8, 16, 32, 64) and avs[0].op != 'f':
                        e = self.affine(t, replist, ctx, w)
                        if e is not None and e.op == 'lin' and len(ctx.affd) < 64:
                            ctx.affd[e] = 1
                    if e is None and w and vmaps[0] and avs[0].op != 'f':
                        c0 = subst(avs[0], vmaps[0], vmemo[0])
                        if c0 is not avs[0] and all(subst(avs[i], vmaps[i], vmemo[i]) is c0 for i in range(1, n)):
                            e = c0
            if e is None:
                W = ctx.W(key, w)
                if w == 0:
                    for i in range(n):
                        vmaps[i].setdefault(avs[i], W)
                if key not in ctx.own:
                    ctx.own[key] = True
                    ctx.grown = ctx.round
                    changed = True
                if t not in reps:
                    reps[t] = key
                replist.append((t, key, w))
                e = W
                if addrbase is None and any(v.isptr or v.op == 'a' for v in vs) and w == 64:
                    W.isptr = True
                    if any(v.op == 'c' or v in self.maynull for v in vs):
                        self.maynull.add(W)
                if avs[0].op == 'f':
                    lo = min(v.aux[0] for v in avs)
                    hi = max(v.aux[1] for v in avs)
                    e = F_(lo, hi) if ctx.round < 4 else F_(float('-inf'), float('inf'))
            else:
                ctx.aff.add(key)
            if addrbase is not None:
                e = add(addrbase, e)
            vals[key] = e
            if ctx.last.get(key) is not e:
                changed = True
            ctx.last[key] = e
        # ---- build memory
        for oid, o in objs.items():
            J.mem[oid] = o
            J.own.add(oid)
        for key, vs in locs:
            v = vals[key]
            if key[0] == 'e':
                J.env[key[1]] = v
            elif key[0] == 'G':
                J.ghost[key[1]] = v
            else:
                o = objs[key[1]]
                if key[0] == 'c':
                    o.cells[key[2]] = (key[3], v, key[4])
                elif key[0] == 'z': o.size = v
                elif key[0] == 'g': o.gver = v
                elif key[0] == 'v': o.cver = v
                elif key[0] == 'n': o.nul = o.nul + (v,)
        for oid, o in objs.items():
            if o.ov and o.gver is not None and isinstance(o.ov[0], tuple) and len(o.ov[0]) == 2:
                o.ov = tuple((a, b, vals[('ov', oid, i)]) for i, (a, b) in enumerate(o.ov))
            if ('al', oid, 0) in vals:
                o.al = tuple(vals[('al', oid, i)] for i in range(4))
        f0 = set(s0.fds.items())
        for s in srcs[1:]:
            f0 &= set(s.fds.items())
        J.fds = dict(f0)
        # ---- facts
        ch2 = self.join_facts(J, srcs, replist, ctx)
        ctx.changed = changed or ch2 or prev is None
        if prev is not None:
            if set(prev.mem) != set(J.mem) or set(prev.env) != set(J.env) or set(prev.fds) != set(J.fds):
                ctx.changed = True
            else:
                for oid in J.mem:
                    if set(prev.mem[oid].cells) != set(J.mem[oid].cells) or prev.mem[oid].x != J.mem[oid].x:
                        ctx.changed = True
                        break
        return J

    def join_x(self, xs):
        if all(x == xs[0] for x in xs):
            return xs[0]
        out = {}
        ks = set()
        for x in xs:
            ks |= set(x or ())
        for k in ks:
            vs = [(x or {}).get(k) for x in xs]
            if all(v == vs[0] for v in vs):
                if vs[0] is not None:
                    out[k] = vs[0]
            elif k.startswith('may_'):
                out[k] = next(v for v in vs if v is not None)
        return out or None

    def mag(self, vs):
        m = 0
        if vs[0].w not in (8, 16, 32, 64) or vs[0].op == 'f':
            return (1 << 70)
        for v in vs[1:]:
            if v is vs[0]:
                continue
            if v.w != vs[0].w:
                return 1 << 70
            d = sub(v, vs[0])
            c, dd = lin_parts(d)
            k = sum(abs(x) for x in dd.values())
            m = max(m, k * 1000 if k else abs(c))
            if k > 1 << 40:
                m = 1 << 60
        return m

    def affine(self, t, replist, ctx, w):
        D = [sub(v, t[0]) for v in t[1:]]
        for rt, rk, rw in replist:
            if rw != w or rt[0].op == 'f':
                continue
            D0 = [sub(v, rt[0]) for v in rt[1:]]
            c = None
            ok = True
            for x, y in zip(D, D0):
                cx, dx = lin_parts(x)
                cy, dy = lin_parts(y)
                if c is None:
                    if dy:
                        a = next(iter(dy))
                        if a not in dx or dx[a] % dy[a]:
                            ok = False
                            break
                        c = dx[a] // dy[a]
                    elif cy:
                        if dx or cx % cy:
                            ok = False
                            break
                        c = cx // cy
                    elif dx or cx:
                        ok = False
                        break
                    else:
                        continue
                if mulc(y, c) is not x:
                    ok = False
                    break
            if ok and c is not None and c != 0 and abs(c) < 1 << 32 and (c > 0 or ctx.mark != BIG or len(lin_parts(t[0])[1]) < 3):
                return add(t[0], mulc(sub(ctx.W(rk, w), rt[0]), c))
        return None

    def join_facts(self, J, srcs, replist, ctx):
        F = Facts()
        changed = False
        mark = ctx.mark
        Ws = {ctx.W(k, w): t for t, k, w in replist}
        outer_memo = {}
        def outer(n):
            r = outer_memo.get(n)
            if r is None:
                if n.op == 's':
                    r = n.id < mark or n in Ws or n in ctx.shared or n.aux[1] == 0
                else:
                    r = all(outer(a) for a in n.args)
                outer_memo[n] = r
            return r
        def old(n):
            # no symbol of this loop at all
            return outer(n) and not any(x in Ws for x in leaves(n))
        f0 = srcs[0].F
        rest = [s.F for s in srcs[1:]]
        # facts about values fixed before the loop
        for n, iv in f0.u.items():
            if not old(n): continue
            lo, hi = iv
            for f in rest:
                l, h = f.ub(n)
                lo, hi = min(lo, l), max(hi, h)
            if (lo, hi) != (0, (1 << n.w) - 1):
                F.u[n] = (lo, hi)
        for n, iv in f0.s.items():
            if not old(n): continue
            lo, hi = iv
            for f in rest:
                l, h = f.sb(n)
                lo, hi = min(lo, l), max(hi, h)
            F.s[n] = (lo, hi)
        for k, f in f0.lin.items():
            if all(old(v) for v in f[1]) and all(k in g.lin or g.prove(f) for g in rest):
                F.lin[k] = f
        if mark == BIG and len(srcs) <= 3:
            # what follows from other facts in one of them
            gs = [s.F for s in srcs]
            for g in gs[1:]:
                for k, f in g.lin.items():
                    if k not in F.lin and k not in f0.lin and len(f[1]) < 5 and all(old(v) for v in f[1]) and \
                       all(h is g or k in h.lin or h.prove(f) for h in gs):
                        F.lin[k] = f
            for g in gs:
                for n, (lo, hi) in g.u.items():
                    if n.op not in ('s', 'lin', 'zext') or n.w > 64 or not old(n):
                        continue
                    l, h = F.u.get(n, (0, (1 << n.w) - 1))
                    if hi < h and all(x is g or x.ub(n)[1] <= hi or x.prove(fadd((hi, {}), x.uform(n), -1)) for x in gs):
                        F.u[n] = (l, hi)
        for r in f0.raw:
            if old(r[1]) and old(r[2]) and all(r in g.raw or g.decide(r[0], r[1], r[2]) for g in rest):
                F.raw.add(r)
        for p in f0.ne:
            if all(old(x) for x in p) and all(p in g.ne or g.decide('eq', *sorted(p)) is False for g in rest):
                F.ne.add(p)
        for a, bs in f0.eq.items():
            if not old(a): continue
            for b in bs:
                if old(b) and all(b in g.eq.get(a, ()) or g.wide_eq(a, b) for g in rest):
                    F.eq[a] = F.eq.get(a, frozenset()) | {b}
        F.touch()
        if ctx.shared:
            # facts about the generalised values of sibling partitions
            sh = ctx.shared - set(Ws)
            def hit(*ns):
                return any(leaves(n) & sh for n in ns)
            sig = (frozenset((n.id, iv) for n, iv in F.u.items() if hit(n)),
                   frozenset((n.id, iv) for n, iv in F.s.items() if hit(n)),
                   frozenset(k for k, f in F.lin.items() if hit(*f[1])),
                   frozenset(p for p in F.ne if hit(*p)),
                   frozenset((a.id, b.id) for a, bs in F.eq.items() for b in bs if hit(a, b)),
                   frozenset(r for r in F.raw if hit(r[1], r[2])))
            if sig != ctx.sig:
                ctx.sig = sig
                changed = True
        # intervals of the widened values
        wid = ctx.round >= 2
        for t, k, w in replist:
            W = ctx.W(k, w)
            if w == 0 or w > 64 or t[0].op == 'f':
                continue
            M = (1 << w) - 1
            H = 1 << (w - 1)
            us = [s.F.ub(v) for s, v in zip(srcs, t)]
            ss = [s.F.sb(v) for s, v in zip(srcs, t)]
            ul, uh = min(x[0] for x in us), max(x[1] for x in us)
            sl, sh = min(x[0] for x in ss), max(x[1] for x in ss)
            o = None if ctx.narrow else ctx.iv.get(W)
            if ctx.narrow and ctx.iv.get(W) != (ul, uh, sl, sh):
                ctx.narrowed = True
            if o is not None and uh > o[1]:
                if all(x[1] <= o[1] or s.F.prove(fadd((o[1], {}), s.F.uform(v), -1)) for s, v, x in zip(srcs, t, us)):
                    uh = o[1]
                    if uh < H: sh = uh
            if o is not None and ul < o[0]:
                if all(x[0] >= o[0] or s.F.prove(fadd((-o[0], {}), s.F.uform(v))) for s, v, x in zip(srcs, t, us)):
                    ul = o[0]
            if o is not None and wid:
                if ul < o[0]: ul = 0 if ctx.round > 8 or ul < 1 else min(1, ul)
                if uh > o[1]: uh = self.thr(uh, M, ctx, W)
                if sl < o[2]: sl = -1 if sl >= -1 and ctx.round < 8 else -H
                if sh > o[3]: sh = self.thr(sh, H - 1, ctx, (W,))
            if o is not None:
                ul, uh, sl, sh = min(ul, o[0]), max(uh, o[1]), min(sl, o[2]), max(sh, o[3])
            if o != (ul, uh, sl, sh):
                changed = True
            # one of few values: those in between are none of them
            gap = ctx.gaps.get(W)
            if gap is None and o is None and 1 < uh - ul < 64 and w in (8, 16, 32) and len(srcs) > 1:
                cs = [s.F.const(v) for s, v in zip(srcs, t)]
                if None not in cs and len(set(cs)) < 5 and len(set(cs)) < uh - ul:
                    gap = frozenset(range(ul + 1, uh)) - set(cs)
            if gap:
                keep = gap
                for s, v in zip(srcs, t):
                    keep = frozenset(k for k in keep if s.F.decide('eq', v, C(w, k)) is False)
                if keep != ctx.gaps.get(W):
                    changed = True
                ctx.gaps[W] = keep
                F.ne.update(frozenset((W, C(w, k))) for k in keep)
            ctx.iv[W] = (ul, uh, sl, sh)
            if (ul, uh) != (0, M): F.u[W] = (ul, uh)
            if (sl, sh) != (-H, H - 1): F.s[W] = (sl, sh)
        F.touch()
        # relational candidates
        maps = []
        for i, s in enumerate(srcs):
            maps.append({W: t[i] for W, t in Ws.items()})
        if ctx.round <= max(4, ctx.grown + 2):
            for i, s in enumerate(srcs):
                self.candidates(s, maps[i], Ws, outer, ctx)
            self.templates(J, Ws, maps, srcs, ctx)
        if ctx.round <= 2 and 1 < len(srcs):
            # values that are the same on all ways, for different reasons
            big = [W for W in Ws if W.w == 64 and not W.isptr and not any(t.op in ('c', 'f') for t in Ws[W][1:])][:24]
            for i, x in enumerate(big):
                for y in big[i + 1:]:
                    f = (0, {x: 1, y: -1})
                    if fkey(f) in ctx.rej or ('lin', fkey(f)) in ctx.cand or ('lin', fkey(f)) in ctx.rej:
                        continue
                    if all(g is h or s.F.decide('eq', g, h) is True for s, g, h in zip(srcs, Ws[x], Ws[y])):
                        for f in (f, (0, {x: -1, y: 1})):
                            if len(ctx.cand) < 160:
                                ctx.cand[('lin', fkey(f))] = ('lin', f)
        memos = [dict() for _ in srcs]
        for key in list(ctx.cand):
            kind, d = ctx.cand[key]
            ok = True
            for i, s in enumerate(srcs):
                if key in ctx.bold and i >= ctx.nE:
                    break
                g = s.F
                if kind == 'lin':
                    f = (d[0], {})
                    for v, k in d[1].items():
                        x = subst(v, maps[i], memos[i])
                        f = fadd(f, g.uform(x), k)
                    if not g.prove(f):
                        ok = False
                        break
                else:
                    a = subst(d[1], maps[i], memos[i])
                    b = subst(d[2], maps[i], memos[i])
                    if kind == 'eq':
                        if a.w != b.w or not (g.wide_eq(a, b) or (0 < a.w <= 64 and g.decide('eq', a, b))):
                            ok = False
                            break
                    elif kind == 'ne':
                        if g.decide('eq', a, b) is not False:
                            ok = False
                            break
                    elif kind == 'raw':
                        if not g.decide(d[0], a, b):
                            ok = False
                            break
                    elif kind == 'u':
                        l, h = g.ub(a)
                        if l < d[0][0] or h > d[0][1]:
                            ok = False
                            break
            if not ok:
                del ctx.cand[key]
                ctx.rej.add(key)
                if key in ctx.acc:
                    changed = True
                    ctx.acc.discard(key)
            elif key not in ctx.acc:
                ctx.acc.add(key)
                changed = True
        ctx.bold.clear()
        tight = []
        for key in ctx.acc:
            kind, d = ctx.cand[key]
            if kind == 'lin':
                F.lin[fkey(d)] = d
                tight.append(d)
            elif kind == 'eq':
                F.eq[d[1]] = F.eq.get(d[1], frozenset()) | {d[2]}
                F.eq[d[2]] = F.eq.get(d[2], frozenset()) | {d[1]}
            elif kind == 'ne':
                F.ne.add(frozenset((d[1], d[2])))
            elif kind == 'raw':
                F.raw.add((d[0], d[1], d[2]))
            elif kind == 'u':
                F.u[d[1]] = d[0]
        F.touch()
        for d in tight:
            F.add_lin(d)
        J.F = F
        J.fsh = False
        return changed

    def templates(self, J, Ws, maps, srcs, ctx):
        """order of two numeric fields of one structure, where it holds so far;
        values that depend on a counter and stay nonnegative"""
        def pos(v):
            if v.op != 'lin':
                return
            base, off = ptr_split(v)
            if base is None or base.op != 'a':
                return
            o = J.mem.get(base.aux)
            if o is None or o.size is None or o.size.op == 'c' and not o.nul or not (leaves(off) & set(Ws)):
                return
            for z, xs in [(o.size, (0, 1))] + [(k, (0,)) for k in o.nul]:
                if not (leaves(off) & set(Ws)):
                    continue
                c, d = lin_parts(sub(z, off))
                if any(abs(k) > 64 for k in d.values()):
                    continue
                for x in xs:
                    f = (c - x, dict(d))
                    key = ('lin', fkey(f))
                    if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                        ctx.cand[key] = ('lin', f)
        for v in J.env.values():
            if hasattr(v, 'op'):
                pos(v)
        # values that only grow, or only shrink, from what they were at first
        big = [W for W in Ws if W.w == 64 and not W.isptr] if ctx.nE else ()
        first = {}
        for W in big:
            first.setdefault(tuple(m.get(W) for m in maps[:ctx.nE]), []).append(W)
        for es, vs in first.items():
            if any(e is None or e.op == 'f' or e.isptr for e in es):
                continue
            rs = [W for W in vs if all(m.get(W) is W for m in maps[ctx.nE:])] if len(vs) > 4 else list(vs) if len(vs) > 1 else []
            if len(set(es)) == 1 and es[0].op != 'c' and not leaves(es[0]) & set(Ws):
                rs = rs + [es[0]]
            for e in rs[:5]:
                for W in vs:
                    if W is e:
                        continue
                    c, d = lin_parts(sub(W, e))
                    if len(d) > 4 or any(abs(k) > 64 for k in d.values()):
                        continue
                    for sg in (1, -1):
                        f = (sg * c, {v: sg * k for v, k in d.items()})
                        key = ('lin', fkey(f))
                        if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                            ctx.cand[key] = ('lin', f)
        for e in ctx.affd:
            c, d = lin_parts(e)
            if not any(v in Ws for v in d) or not any(k < 0 for k in d.values()) or any(abs(k) > 64 for k in d.values()):
                continue
            f = (c, dict(d))
            key = ('lin', fkey(f))
            if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                ctx.cand[key] = ('lin', f)
        for oid, o in J.mem.items():
            if o.kind not in 'hg' or o.freed:
                continue
            cs_ = [(c, v) for (b, c), (n, v, t) in o.cells.items() if b is None and n == 8 and t is not None
                   and v.op != 'f' and not v.isptr]
            for (b, c), (n, v, t) in o.cells.items():
                if b is None and n == 8 and v in Ws and v in self.maynull:
                    # a pointer that is only null while a size field is zero
                    for c2, x in cs_:
                        d = fadd((0, {v: 1 << 48}), lin_parts(x), -1)
                        if len(d[1]) < 2 or len(d[1]) > 8:
                            continue
                        key = ('lin', fkey(d))
                        if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                            ctx.cand[key] = ('lin', d)
            if len(cs_) < 2 or len(cs_) > 12 or not any(leaves(v) & set(Ws) for c, v in cs_):
                continue
            for c1, a in cs_:
                for c2, b in cs_:
                    if c1 == c2 or a.op == 'c' or b.op == 'c':
                        continue
                    d = fadd(lin_parts(b), lin_parts(a), -1)
                    if not any(v in Ws for v in d[1]) or any(abs(k) > 64 for k in d[1].values()) or len(d[1]) > 4:
                        continue
                    if d[0] < -64 or d[0] > 1 << 20:
                        continue
                    key = ('lin', fkey(d))
                    if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                        ctx.cand[key] = ('lin', d)

    def thr(self, v, M, ctx, W):
        k = ctx.ivn[W] = ctx.ivn.get(W, 0) + 1
        if k < 6 and ctx.round < 14:
            for t in ((1 << 31) - 1, (1 << 32) - 1, 1 << 47, (1 << 63) - 1):
                if v <= t < M:
                    return t
        return M

    def candidates(self, s, m, Ws, outer, ctx):
        """facts of a source state, rewritten over the generalised values"""
        g = s.F
        inv = {}      # node -> replacement node (for wide / opaque terms)
        finv = {}     # atom -> form
        for W, v in m.items():
            if v.op == 'c':
                continue
            if v.w == 0 or v.w > 64 or v.op == 'f':
                inv.setdefault(v, W)
                continue
            if v is W:
                finv.setdefault(W, (0, {W: 1}))
                continue
            if v.op != 'lin':
                inv.setdefault(v, W)
                finv.setdefault(v, (0, {W: 1}))
                if v.op == 'zext':
                    finv.setdefault(v.args[0], (0, {W: 1}))
                continue
            f = g.uform(v)
            # v = c + x + rest  ->  x = W - c - rest  for one in-loop atom x
            ins = [(a, k) for a, k in f[1].items() if not (outer(a) and not any(l in Ws for l in leaves(a)))]
            if len(ins) == 1 and ins[0][1] == 1:
                a = ins[0][0]
                r = (0, {W: 1})
                r = fadd(r, (f[0], {x: k for x, k in f[1].items() if x is not a}), -1)
                if a not in finv or len(finv[a][1]) > len(r[1]):
                    finv[a] = r
                # node level
                inv.setdefault(a, add(W, neg(sub(v, a)))) if v.w == a.w else None
        memo = {}
        def nsub(n):
            return subst(n, inv, memo)
        for k, f in list(g.lin.items()):
            hit = False
            r = (f[0], {})
            bad = False
            for v, kk in f[1].items():
                if v in finv:
                    r = fadd(r, finv[v], kk)
                    hit = True
                else:
                    x = nsub(v)
                    if x is not v:
                        hit = True
                        if x.op == 'lin':
                            bad = True
                            break
                    if not outer(x) or (x in Ws and v is x and x not in finv and m.get(x) is not x):
                        bad = True
                        break
                    r = fadd(r, (0, {x: 1}), kk)
            if bad or not hit or not r[1]:
                continue
            key = ('lin', fkey(r))
            if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 120:
                ctx.cand[key] = ('lin', r)
        done = set()
        for a, bs in list(g.eq.items()):
            for b in bs:
                if (b, a) in done: continue
                done.add((a, b))
                x, y = nsub(a), nsub(b)
                if (x is a and y is b) and not any(l in Ws for l in leaves(a) | leaves(b)):
                    continue
                if not outer(x) or not outer(y) or x is y: continue
                key = ('eq', min(x.id, y.id), max(x.id, y.id))
                if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                    ctx.cand[key] = ('eq', (None, x, y))
        for p in list(g.ne):
            a, b = tuple(p) if len(p) == 2 else (list(p)[0], list(p)[0])
            x, y = nsub(a), nsub(b)
            if x is a and y is b and not any(l in Ws for l in leaves(a) | leaves(b)): continue
            if not outer(x) or not outer(y) or x is y: continue
            key = ('ne', min(x.id, y.id), max(x.id, y.id))
            if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                ctx.cand[key] = ('ne', (None, x, y))
            # a counter that runs until it is equal to its limit: it may be
            # that it never passes it (kept only if later rounds confirm it)
            if x.w == 64 and ctx.nE and not ctx.narrow:
                c, d = lin_parts(sub(y, x))
                ks = {abs(k) for k in d.values()}
                if len(d) > 3 or len(ks) != 1 or not any(v in Ws for v in d):
                    continue
                q = ks.pop()
                for sg in (1, -1):
                    f = (sg * c // q - 1, {v: sg * k // q for v, k in d.items()})
                    key = ('lin', fkey(f))
                    if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 120:
                        ctx.cand[key] = ('lin', f)
                        ctx.bold.add(key)
        for n, iv in list(g.u.items()):
            if n.op in ('s', 'lin', 'zext') or n.w > 64: continue
            x = nsub(n)
            if x is n and not any(l in Ws for l in leaves(n)): continue
            if not outer(x) or x.op in ('c', 's'): continue
            key = ('u', x.id)
            if key not in ctx.rej and key not in ctx.cand and len(ctx.cand) < 160:
                ctx.cand[key] = ('u', (iv, x, x))

    # ------------------------------------------------------------ blocks
    def run_block(self, fn, b, st):
        """-> list of (state, target or None, return value)"""
        states = [st]
        out = []
        blk = fn.blocks[b]
        n = len(blk)
        for ix in range(n):
            i = blk[ix]
            op = i['op']
            if op == 'phi':
                continue
            if op == 'call':
                nxt = []
                for s in states:
                    self.cur = i
                    for s2, v in self.do_call(fn, i, s):
                        if i['t'] != 0:
                            s2.env[i['id']] = v if v is not None else sym(64 if i['t'] == 'p' else (i['t'] if isinstance(i['t'], int) else 64), 'r')
                        nxt.append(s2)
                states = nxt
                if not states:
                    return out
                continue
            if op == 'br':
                self.cur = i
                if 'cond' not in i or len(set(i['s'])) == 1:
                    for s in states:
                        out.append((s, i['s'][0], None))
                    return out
                for s in states:
                    c = self.val(s, i['cond'], 1)
                    d = self.decide(s, c)
                    if d is None:
                        self.logbr(fn, b, None, i)
                        t = s.fork()
                        if self.assume(s, c, True):
                            s.note('%s: %s' % (self.where(i), show(c)))
                            out.append((s, i['s'][0], None))
                        if self.assume(t, c, False):
                            t.note('%s: not %s' % (self.where(i), show(c)))
                            out.append((t, i['s'][1], None))
                    else:
                        # keep what the decision tells the monitors, and the
                        # relation as a candidate for loop invariants
                        if c.op == 'icmp' and c.aux in _ORD and c.args[1].op != 'c':
                            s.fw().hint(c.aux if d else _NEG[c.aux], c.args[0], c.args[1])
                        if c.op == 'icmp' and 'assume' in self.h:
                            p = c.aux if d else _NEG[c.aux]
                            self.emit('assume', s, pred=p, a=c.args[0], b=c.args[1])
                        t = i['s'][0] if d else i['s'][1]
                        self.logbr(fn, b, t, i)
                        out.append((s, t, None))
                return out
            if op == 'switch':
                self.cur = i
                for s in states:
                    v = self.val(s, i['cond'])
                    k = s.F.const(v)
                    if k is not None:
                        t = i['def']
                        for cv, tb in i['cases']:
                            if int(cv) == k:
                                t = tb
                        out.append((s, t, None))
                        continue
                    cur = s
                    dead = False
                    for cv, tb in i['cases']:
                        t = cur.fork()
                        if self.assume(t, mk('icmp', 1, (v, C(v.w, int(cv))), 'eq'), True):
                            t.note('%s: %s == %s' % (self.where(i), show(v), cv))
                            out.append((t, tb, None))
                        if not cur.assume('ne', v, C(v.w, int(cv))):
                            dead = True
                            break
                    if not dead:
                        out.append((cur, i['def'], None))
                return out
            if op == 'ret':
                self.cur = i
                for s in states:
                    v = self.val(s, i['ops'][0]) if i['ops'] else None
                    if v is not None and v.op != 'f':
                        v = s.F.norm(v) if v.w <= 64 else v
                    out.append((s, None, v))
                return out
            if op == 'unreachable':
                return out
            self.insts += len(states)
            if time.time() > self.deadline or self.reports and self.stop_on and time.time() > self.early and any(x.rule == self.stop_on for x in self.reports):
                raise Timeout('analysis stopped after %d s' % (time.time() - self.t0))
            for s in states:
                self.cur = i
                self.step(fn, i, s)
        raise EngineError('block without terminator in ' + fn.name)

    def logbr(self, fn, b, t, i):
        if self.brlog is None:
            return
        for L in fn.loops.values():
            if b in L.body:
                k = (id(L), b)
                stay = t is not None and t in L.body
                if k in self.brlog:
                    self.brlog[k] = self.brlog[k] and stay
                else:
                    self.brlog[k] = stay

    def step(self, fn, i, st):
        op = i['op']
        env = st.env
        if op == 'load':
            p = self.val(st, i['ops'][0])
            oid, off = self.resolve(st, p, i)
            t = i['t']
            n = i['size']
            if oid is None:
                env[i['id']] = sym(8 * n if t != 1 else 1, 'bad', t == 'p')
                return
            self.access(st, oid, off, n, False, i)
            v = self.load(st, oid, off, n, t == 'p')
            if t == 1:
                v = trunc(v, 1)
            elif t == 'd':
                v = F_(float('-inf'), float('inf'))
            elif t == 'p' and v.op not in ('c', 'lin', 'a') and not v.isptr:
                v.isptr = True
            env[i['id']] = v = st.F.norm(v) if v.op != 'f' and v.w <= 64 else v
            if 'loaded' in self.h:
                self.emit('loaded', st, oid=oid, off=off, n=n, val=v, inst=i)
            return
        if op == 'store':
            v = self.val(st, i['ops'][0], i['size'] * 8)
            p = self.val(st, i['ops'][1])
            oid, off = self.resolve(st, p, i)
            if oid is None:
                return
            n = i['size']
            if v.op == 'f':
                v = sym(64, 'fl')
            if v.w == 1:
                v = zext(v, 8)
            self.access(st, oid, off, n, True, i)
            if st.mem[oid].ro:
                self.emit('rowrite', st, oid=oid, inst=i)
            self.store(st, oid, off, n, v, self.P.store_tag.get((fn.name, i['id'])), i)
            self.emit('store', st, oid=oid, off=off, n=n, val=v, vol=i.get('vol', False), inst=i)
            return
        if op == 'getelementptr':
            b = self.val(st, i['b'])
            r = add(b, C(64, i['off']))
            for sc, o, w in i['var']:
                x = self.val(st, o)
                x = st.F.norm(x)
                if x.w < 64:
                    x = sext(x, 64) if st.F.sb(x)[0] < 0 else zext(x, 64)
                r = add(r, mulc(x, sc))
            env[i['id']] = r
            return
        if op == 'alloca':
            oid = 'l:%s:%d#%d' % (fn.name, i['id'], len(self.stack))
            if 'vla' in i:
                o = self.new_obj(st, oid, None, 'unk', 'l')
            else:
                o = self.new_obj(st, oid, C(64, i['size']), 'unk', 'l')
            o.x = {'name': i['name']} if 'name' in i else None
            st.frame = (st.frame or ()) + (oid,)
            env[i['id']] = addr(oid)
            return
        if op == 'icmp':
            a = self.val(st, i['ops'][0])
            b = self.val(st, i['ops'][1])
            env[i['id']] = icmp(i['pred'], a, b)
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = self.val(st, i['ops'][0])
            b = self.val(st, i['ops'][1])
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.emit('div', st, a=a, b=b, inst=i)
                if st.F.const(b) == 0:
                    env[i['id']] = sym(a.w, 'div0')
                    return
                st.assume('ne', b, C(b.w, 0))
                b = st.F.norm(b)
                a = st.F.norm(a)
            elif op in ('and', 'mul', 'shl', 'lshr'):
                a = st.F.norm(a)
                b = st.F.norm(b)
            env[i['id']] = binop(op, a, b)
            return
        if op == 'zext':
            env[i['id']] = zext(self.val(st, i['ops'][0]), i['t'])
            return
        if op == 'sext':
            v = self.val(st, i['ops'][0])
            if v.w > 1 and st.F.sb(v)[0] >= 0:
                env[i['id']] = zext(v, i['t'])
            else:
                env[i['id']] = sext(v, i['t'])
            return
        if op == 'trunc':
            v = self.val(st, i['ops'][0])
            v = st.F.norm(v)
            env[i['id']] = trunc(v, i['t'])
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            env[i['id']] = self.val(st, i['ops'][0])
            return
        if op == 'select':
            c = self.val(st, i['ops'][0], 1)
            d = self.decide(st, c)
            a = self.val(st, i['ops'][1])
            b = self.val(st, i['ops'][2])
            if d is None:
                env[i['id']] = mk('ite', a.w, (c, a, b))
            else:
                env[i['id']] = a if d else b
            return
        if op in ('uitofp', 'sitofp'):
            v = self.val(st, i['ops'][0])
            l, h = st.F.ub(v) if op == 'uitofp' else st.F.sb(v)
            env[i['id']] = F_(float(l), float(h))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            xs = [self.val(st, o) for o in i['ops']]
            env[i['id']] = self.fop(op, xs, st, i)
            return
        if op in ('fptoui', 'fptosi'):
            v = self.val(st, i['ops'][0])
            lo, hi = v.aux
            self.emit('fptoint', st, lo=lo, hi=hi, w=i['t'], inst=i)
            r = sym(i['t'], 'fp')
            if lo > -1 and hi < 2.0 ** i['t']:
                if int(lo) == int(hi):
                    r = C(i['t'], int(lo))
                else:
                    st.fw().set_u(r, max(int(lo), 0), int(hi))
            env[i['id']] = r
            return
        if op in ('fpext', 'fptrunc'):
            env[i['id']] = self.val(st, i['ops'][0])
            return
        if op == 'fcmp':
            env[i['id']] = sym(1, 'fcmp')
            return
        if op == 'extractvalue':
            env[i['id']] = sym(64 if i['t'] == 'p' else i['t'], 'ev', i['t'] == 'p')
            return
        if op == 'freeze':
            env[i['id']] = self.val(st, i['ops'][0])
            return
        if op == 'fence':
            return
        t = i['t']
        if t:
            env[i['id']] = sym(64 if t == 'p' else (t if isinstance(t, int) else 64), 'op_' + op, t == 'p')
        self.decl_unknown.add('op:' + op)

    def fop(self, op, xs, st, i):
        inf = float('inf')
        def iv(v):
            return v.aux if v.op == 'f' else (-inf, inf)
        a = iv(xs[0])
        if op == 'fneg':
            return F_(-a[1], -a[0])
        b = iv(xs[1])
        try:
            if op == 'fadd': r = (a[0] + b[0], a[1] + b[1])
            elif op == 'fsub': r = (a[0] - b[1], a[1] - b[0])
            elif op == 'fmul':
                p = [x * y for x in a for y in b]
                r = (min(p), max(p))
            else:
                if b[0] <= 0 <= b[1]:
                    r = (-inf, inf)
                else:
                    p = [x / y for x in a for y in b]
                    r = (min(p), max(p))
        except (OverflowError, ZeroDivisionError):
            r = (-inf, inf)
        if r[0] != r[0] or r[1] != r[1]:
            r = (-inf, inf)
        return F_(*r)

    # ------------------------------------------------------------ calls
    def do_call(self, fn, i, st):
        ce = i['callee']
        args = []
        for o, t in zip(i['ops'], i['ats']):
            v = self.val(st, o)
            if v.op != 'f' and 0 < v.w <= 64:
                v = st.F.norm(v)
            args.append(v)
        name = None
        if ce[0] == 'g':
            name = ce[1]
        elif ce[0] != 'asm':
            p = self.val(st, ce)
            b, off = ptr_split(p)
            if b is not None and b.op == 'a' and b.aux.startswith('f:') and off.op == 'c' and off.aux == 0:
                name = b.aux[2:]
            else:
                if st.F.const(p) is not None:
                    self.emit('null', st, inst=i, ptr=p)
                    return []
                self.emit('icall', st, ptr=p, args=args, inst=i)
                if self.icall:
                    r = self.icall(self, st, i, p, args)
                    if r is not None:
                        return r
                raise EngineError('unresolved indirect call at %s (%s)' % (self.where(i), show(p)))
        if name is None:
            self.decl_unknown.add('asm')
            return [(st, None)]
        return self.invoke(name, i, st, args)

    def callptr(self, st, p, args, inst):
        """call through a pointer value (callbacks of external functions)"""
        b, off = ptr_split(p)
        if b is not None and b.op == 'a' and b.aux.startswith('f:') and off.op == 'c' and off.aux == 0:
            return self.invoke(b.aux[2:], inst, st, args)
        if st.F.const(p) is not None:
            self.emit('null', st, inst=inst, ptr=p)
            return []
        self.emit('icall', st, ptr=p, args=args, inst=inst)
        if self.icall:
            r = self.icall(self, st, inst, p, args)
            if r is not None:
                return r
        raise EngineError('unresolved callback at %s (%s)' % (self.where(inst), show(p)))

    def invoke(self, name, i, st, args):
        h = self.summ.get(name)
        if h is not None:
            r = h(self, st, i, args)
            if r is not None:
                return r
        f = self.P.fns.get(name)
        if f is not None and not f.decl:
            if f.vararg:
                self.emit('log', st, fn=f, args=args, inst=i)
                return [(st, None)]
            self.emit('enter', st, fn=f, args=args, inst=i)
            return self.call_fn(f, args, st, i)
        self.emit('ext', st, name=name, args=args, inst=i)
        h = self.ext.get(name)
        if h is None:
            for pre, hh in self.ext['$prefix']:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None:
            self.decl_unknown.add(name)
            h = self.ext['$unknown']
        r = h(self, st, i, args, name)
        return r


BIG = 1 << 60

class Part:
    def __init__(self, ctx):
        self.ctx = ctx
        self.E = []
        self.inv = None
        self.first = []
        self.srcs = None
        self.extra = None
        self.cache = None

def common_syms(states, mark):
    """symbols created since mark that the facts of all states speak about"""
    out = None
    for s in states:
        x = set()
        F = s.F
        for d in (F.u, F.s, F.eq):
            for n in d:
                x |= leaves(n)
        for f in F.lin.values():
            for n in f[1]:
                x |= leaves(n)
        for p in F.ne:
            for n in p:
                x |= leaves(n)
        out = x if out is None else out & x
    return frozenset(n for n in out or () if n.id >= mark)

class GenCtx:
    def __init__(self, mark):
        self.mark = mark
        self.ws = {}
        self.own = {}
        self.aff = set()
        self.affd = {}
        self.ovr = {}
        self.last = {}
        self.iv = {}
        self.gaps = {}
        self.cand = {}
        self.rej = set()
        self.bold = set()       # candidates that later rounds have to confirm
        self.nE = 0
        self.acc = set()
        self.lossy = set()
        self.round = 0
        self.grown = 0
        self.ivn = {}
        self.changed = False
        self.shared = frozenset()
        self.sig = None
        self.narrow = self.narrowed = False

    def syms(self):
        return set(self.ws.values())

    def W(self, key, w):
        r = self.ws.get((key, w))
        if r is None:
            nm = 'W'
            if key[0] == 'e': nm = 'W%s' % (key[1],)
            elif key[0] in 'cgvzn': nm = 'W<%s>' % (key[1] if key[0] != 'c' else '%s+%s' % (key[1], key[2][1]))
            elif key[0] == 'G': nm = 'W{%s}' % (key[1],)
            r = self.ws[(key, w)] = sym(w, nm)
        return r

_leaves = {}
def leaves(n):
    r = _leaves.get(n)
    if r is None:
        if n.op == 's':
            r = frozenset((n,))
        elif not n.args:
            r = frozenset()
        elif len(n.args) == 1:
            r = leaves(n.args[0])
        else:
            r = frozenset().union(*[leaves(a) for a in n.args])
        _leaves[n] = r
    return r
