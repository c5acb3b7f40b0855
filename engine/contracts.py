"""Roles of functions, found by shape (types and what they reach, not names),
and the contracts used in place of their bodies.  Every contract used in one
run is the subject of a rule checked in another run."""
from nodes import *
import ae, ext

IO = {'read', 'pread', 'write', 'pwrite', 'pread64', 'pwrite64'}
OTHERIO = {'send', 'recv', 'fgets', 'open', 'open64', 'fstat', 'ioctl', 'lseek', 'malloc', 'calloc'}

class Roles:
    def __init__(self, P):
        self.P = P
        self.transfer = {}
        self.digest = set()
        self.get_impls = []
        self.free_impls = []
        self.constructors = []
        for f in P.fns.values():
            if f.decl or f.vararg:
                continue
            cl = self.externals(f.name)
            ios = cl & IO
            ty = [str(t) for t in f.params]
            if str(f.ret) == '32' and ty in (['32', 'p', '64'], ['32', 'p', '64', '64']) and len(ios) == 1 and not cl & OTHERIO:
                op = next(iter(ios)).replace('64', '')
                if (len(ty) == 4) == op.startswith('p'):
                    self.transfer[f.name] = op
            if str(f.ret) == '32' and ty == ['p', '64', 'p'] and 'SHA256' in cl and not ios and 'malloc' not in cl:
                self.digest.add(f.name)
            dt = [t.replace('const ', '') for t in f.dtypes]
            if f.name in P.addr_taken and str(f.ret) == '64' and ty == ['p', 'p', 'p', '64'] and dt[1:2] == ['store*']:
                self.get_impls.append(f.name)
            if f.name in P.addr_taken and str(f.ret) == '0' and ty == ['p'] and dt[1:2] == ['store*']:
                self.free_impls.append(f.name)
            if str(f.ret) == 'p' and dt[:2] == ['store*', 'char*']:
                self.constructors.append(f.name)
        # only the outermost digest function of a chain of wrappers
        for d in list(self.digest):
            if any(d in self.callees(x) and x != d for x in self.digest):
                pass

    def externals(self, name):
        out = set()
        for n in self.direct(name):
            for c, i in self.P.calls.get(n, ()):
                if c is not None and (c not in self.P.fns or self.P.fns[c].decl):
                    out.add(c)
        return out

    def direct(self, name):
        seen, todo = set(), [name]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.P.fns.get(x)
            if f is None or f.decl or f.vararg:
                continue
            for c, i in self.P.calls.get(x, ()):
                if c is not None:
                    todo.append(c)
        return seen

    def callees(self, name):
        return self.direct(name) - {name}

# ---------------------------------------------------------------- contracts
def transfer(op):
    """int f(fd, buf, len[, off]): everything transferred (>= 0) or failure (< 0)"""
    wr = 'write' in op
    def h(eng, st, i, a):
        fd, p, n = a[0], a[1], a[2]
        off = a[3] if len(a) > 3 else None
        oid, bo = ext.buf(eng, st, p, n, not wr, i, op + 'all')
        kw = dict(op=op + 'all', fd=fd, oid=oid, boff=bo, want=n, off=off, inst=i)
        eng.emit('iocall', st, **kw)
        t = st.fork()
        ext.errno_set(eng, t)
        if not wr and oid is not None:
            ext.put(eng, t, oid, bo, n)
        t.note('%s: %s fails' % (eng.where(i), op + 'all'))
        eng.emit('io', t, res='fail', got=None, **kw)
        r = ext.s32(-(1 << 31), -1, 'fail', t)
        if not wr and oid is not None:
            ext.put(eng, st, oid, bo, n)
        eng.emit('io', st, res='ok', got=n, **kw)
        return [(t, C(32, -1)), (st, C(32, 0))]
    return h

def digest(eng, st, i, a):
    """int f(data, len, out): 0 and the digest of all of data, or failure"""
    data, n, out = a
    oid, off = ext.buf(eng, st, data, n, False, i, 'digest')
    if st.F.const(n) == 0:
        v = mk('sha', 256, (ext.EMPTY,))
    elif oid is None:
        v = sym(256, 'digest')
    else:
        v = ext.sha_node(eng, st, oid, off, n)
    eng.emit('sha', st, data=data, n=n, oid=oid, off=off, val=v, inst=i)
    oo, of = ext.buf(eng, st, out, 32, True, i, 'digest')
    t = None
    if eng.opts.get('digest_fails'):
        t = st.fork()
        ext.put(eng, t, oo, of, 32)
    ext.put_content(eng, st, oo, of, 32, v)
    return [(st, C(32, 0))] + ([(t, C(32, -1))] if t else [])

def get_chunk(eng, st, i, args, store=None):
    """ssize_t f(store, id, out, max): <0 failed, 0 miss, n in 1..max: out[0..n)
    hashes to id"""
    s, idp, out, mx = args
    ido, idf = ext.buf(eng, st, idp, 32, False, i, 'get_chunk')
    idv = eng.content(st, ido, idf, 32) if ido is not None else sym(256, 'id')
    oo, of = ext.buf(eng, st, out, mx, True, i, 'get_chunk')
    ext.put(eng, st, oo, of, mx)
    eff = eng.opts.get('get_effects')
    if eff:
        eff(eng, st)
    eng.emit('get_chunk', st, store=s, id=idv, out=out, max=mx, inst=i, oo=oo)
    f, z = st.fork(), st.fork()
    f.note('%s: the store fails' % eng.where(i))
    z.note('%s: the store does not have the chunk' % eng.where(i))
    r = sym(64, 'gfail')
    f.fw().set_s(r, -(1 << 63), -1)
    eng.emit('get_chunk_res', f, res='fail', n=None, store=s, id=idv, inst=i, oo=oo, of=of)
    eng.emit('get_chunk_res', z, res='miss', n=None, store=s, id=idv, inst=i, oo=oo, of=of)
    n = sym(64, 'gotlen')
    st.fw().set_s(n, 1, (1 << 62))
    out_ = [(f, r), (z, C(64, 0))]
    if st.assume('ule', n, mx):
        v = ext.sha_node(eng, st, oo, of, n) if oo is not None else sym(256, 'x')
        st.assume('eq', v, idv)
        st.note('%s: the store delivers %s bytes' % (eng.where(i), show(n)))
        eng.emit('get_chunk_res', st, res='hit', n=n, store=s, id=idv, inst=i, oo=oo, of=of)
        out_.append((st, n))
    return out_

def store_icall(eng, st, i, p, args):
    """call through a function pointer of a store nothing else is known about"""
    ats = [str(x) for x in i['ats']]
    if ats == ['p', 'p', 'p', '64'] and i['t'] == 64:
        return get_chunk(eng, st, i, args)
    if ats == ['p'] and i['t'] == 0:
        eng.emit('store_free', st, store=args[0], inst=i)
        return [(st, None)]
    return None

def opaque_store(eng, st, i, a):
    """constructor of a store: NULL or a store of unknown kind"""
    for x in a:
        b, off = ae.ptr_split(x)
    t = st.fork()
    t.note('%s: the store cannot be created' % eng.where(i))
    eng.emit('store_new', t, ok=False, args=a, inst=i, ptr=NULL)
    oid = 'st:%s' % eng.where(i)
    k = 0
    while '%s#%d' % (oid, k) in st.mem and k < 1:
        k += 1
    oid = '%s#%d' % (oid, k)
    o = eng.new_obj(st, oid, None, 'unk', 'x')
    p = addr(oid)
    eng.emit('store_new', st, ok=True, args=a, inst=i, ptr=p)
    return [(t, NULL), (st, p)]

def effects(roles):
    """what a query of any store may change: for objects that carry a known
    get_chunk implementation, the fields that implementation may modify"""
    P = roles.P
    tags = {n: P.mod_tags([n]) for n in roles.get_impls}
    sorts = {n: 'qsort' in roles.externals(n) for n in roles.get_impls}
    def eff(eng, st):
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.kind != 'h' or not o.cells:
                continue
            impl = None
            for (b, c), (n, v, t) in o.cells.items():
                if v.op == 'a' and v.aux.startswith('f:') and v.aux[2:] in tags:
                    impl = v.aux[2:]
            if impl is None:
                continue
            if any(f.name == impl for f in eng.stack):
                continue
            w = st.w(oid)
            for k, (n, v, t) in list(w.cells.items()):
                if t in tags[impl]:
                    if t in P.flag_tags and n <= 4:
                        del w.cells[k]
                        w.cells[k] = (n, sym(8 * n, 'eff'), None)
                    elif not v.isptr:
                        w.cells[k] = (n, sym(8 * n, 'eff'), t)
                if v.op == 'a' and v.aux.startswith('h:') and sorts[impl]:
                    o2 = st.mem.get(v.aux)
                    if o2 is not None and not o2.freed:
                        eng.havoc(st, v.aux, NULL, C(64, 1 << 46))
            w.cver = newver_('c')
    return eff

def newver_(n):
    return sym(0, n)

def summaries(roles, transfer_=True, digest_=True, constructors=False):
    S = {}
    if transfer_:
        for n, op in roles.transfer.items():
            S[n] = transfer(op)
    if digest_:
        for n in roles.digest:
            S[n] = digest
    if constructors:
        for n in roles.constructors:
            S[n] = opaque_store
    return S

# ------------------------------------------------ exported functions as contracts
def entries(kind):
    """int f(fd, params[, n], cb, arg): calls cb(offset, len, id, arg) any
    number of times, stops and fails when it returns < 0 or on I/O failure"""
    def h(eng, st, i, a):
        fd, params = a[0], a[1]
        cb, arg = a[-2], a[-1]
        fn = eng.stack[-1].name if eng.stack else '?'
        eng.emit('entries', st, kind=kind, fd=fd, params=params, n=a[2] if len(a) == 5 else None, inst=i)
        b, off = ext.buf(eng, st, params, 12, False, i, kind)
        def body(states):
            backs, exits = [], []
            for s in states:
                exits.append((None, s.fork(), None))
                s.mem.pop('cb:id', None)
                eng.new_obj(s, 'cb:id', C(64, 32), 'unk', 'x')
                off, ln = sym(64, 'eoff'), sym(32, 'elen')
                s.fw().set_u(ln, 1, (1 << 32) - 1)
                if len(a) == 5 and not s.assume('ne', a[2], C(64, 0)):
                    continue
                eng.emit('entry', s, kind=kind, off=off, ln=ln, id=eng.content(s, 'cb:id', C(64, 0), 32), inst=i)
                s.note('%s: %s reports a chunk' % (eng.where(i), kind))
                for r, v in eng.callptr(s, cb, [off, ln, addr('cb:id'), arg], i):
                    r.mem.pop('cb:id', None)
                    t = r.fork()
                    if t.assume('sge', v, C(32, 0)):
                        eng.emit('entry_ret', t, kind=kind, ok=True, inst=i)
                        backs.append(t)
                    if r.assume('slt', v, C(32, 0)):
                        eng.emit('entry_ret', r, kind=kind, ok=False, inst=i)
                        exits.append((None, r, -1))
            return backs, exits, []
        exits, _ = eng.fix([st], body, (kind, eng.where(i)))
        out = []
        for _, s, f in exits:
            if f is None:
                t = s.fork()
                t.note('%s: %s fails' % (eng.where(i), kind))
                out.append((t, C(32, -1)))
                s.note('%s: %s is complete' % (eng.where(i), kind))
                out.append((s, C(32, 0)))
            else:
                out.append((s, C(32, -1)))
        groups = {}
        for s, v in out:
            groups.setdefault((eng.key(s), v.aux), []).append((s, v))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res += g
            else:
                res.append((eng.generalise([s for s, v in g], ae.GenCtx(ae.BIG), None), g[0][1]))
        for s, v in res:
            eng.emit('entries_ret', s, kind=kind, ok=v.aux == 0, inst=i)
        return res
    return h

def load_header(eng, st, i, a):
    """int f(fd, params*, n*): <0, or a valid index with n entries and valid
    chunk size parameters"""
    fd, pp, np_ = a
    oid, off = ext.buf(eng, st, pp, 12, True, i, 'load_header')
    no, nf = ext.buf(eng, st, np_, 8, True, i, 'load_header')
    t = st.fork()
    t.note('%s: the index is refused' % eng.where(i))
    ext.put(eng, t, oid, off, 12)
    ext.put(eng, t, no, nf, 8)
    eng.emit('header_bad', t, fd=fd, inst=i)
    mn, av, mx = sym(32, 'min'), sym(32, 'avg'), sym(32, 'max')
    st.fw().set_u(mn, 1, (1 << 32) - 1)
    st.fw().set_u(av, 1, (1 << 32) - 1)
    st.fw().set_u(mx, 1, (1 << 32) - 1)
    st.assume('ult', mn, av)
    st.assume('ult', av, mx)
    for k, v in enumerate((mn, av, mx)):
        eng.store(st, oid, add(off, C(64, 4 * k)), 4, v)
    n = sym(64, 'n_entries')
    st.fw().set_u(n, 0, 1 << 57)
    eng.store(st, no, nf, 8, n)
    st.note('%s: the index is valid' % eng.where(i))
    eng.emit('header_ok', st, fd=fd, n=n, inst=i, params=(oid, off))
    return [(t, C(32, -1)), (st, C(32, 0))]

def keyspec(eng, st, i, a):
    """int f(uint8_t key[32], const char *spec): 0 and a key, or < 0"""
    oid, off = ext.buf(eng, st, a[0], 32, True, i, 'keyspec')
    ext.slen(eng, st, a[1], i)
    t = st.fork()
    t.note('%s: the keyspec is refused' % eng.where(i))
    ext.put(eng, t, oid, off, 32)
    eng.emit('keyspec', t, ok=False, key=a[0], oid=oid, off=off, spec=a[1], inst=i)
    k = sym(256, 'KEY')
    ext.put_content(eng, st, oid, off, 32, k)
    st.note('%s: the keyspec yields a key' % eng.where(i))
    eng.emit('keyspec', st, ok=True, key=a[0], oid=oid, off=off, spec=a[1], inst=i, val=k)
    return [(t, C(32, -1)), (st, C(32, 0))]

def command(eng, st, i, a):
    """int f(int argc, char **argv): a benchmark, which computes and prints"""
    eng.emit('command', st, inst=i)
    r = sym(32, 'cmd')
    st.fw().set_u(r, 0, 1)
    return [(st, r)]

def hexparse(eng, st, i, a):
    """int f(uint8_t *out, const char *in): 0 and strlen(in)/2 bytes, or < 0
    when in has something else than hex digits"""
    so, sf, n = ext.slen(eng, st, a[1], i, 'hex string')
    k = st.F.const(n)
    if k is not None:
        m = C(64, (k + 1) // 2)
    else:
        m = sym(64, 'hexlen')
        hi = st.F.ub(n)[1]
        st.fw().set_u(m, 0, min((hi + 1) // 2, 1 << 60))
        st.assume('ule', mulc(m, 2), add(n, C(64, 1)))
    oo, of = ext.buf(eng, st, a[0], m, True, i, 'hexparse')
    t = st.fork()
    t.note('%s: not a hex string' % eng.where(i))
    if oo is not None:
        ext.put(eng, t, oo, of, m)
        ext.put(eng, st, oo, of, m)
    eng.emit('hex', t, ok=False, oid=oo, off=of, soid=so, soff=sf, n=n, inst=i, s=a[1])
    if oo is not None and so is not None and st.F.const(m) is not None:
        v = sym(8 * st.F.const(m), 'HEX')
        ext.put_content(eng, st, oo, of, st.F.const(m), v)
    st.note('%s: a hex string' % eng.where(i))
    eng.emit('hex', st, ok=True, oid=oo, off=of, soid=so, soff=sf, n=n, inst=i, s=a[1])
    return [(t, C(32, -1)), (st, C(32, 0))]

def hchacha(eng, st, i, a):
    """void f(out[32], key[32], in[16]): out is a function of key and in"""
    oo, of = ext.buf(eng, st, a[0], 32, True, i, 'hchacha20')
    ko, kf = ext.buf(eng, st, a[1], 32, False, i, 'hchacha20')
    no, nf = ext.buf(eng, st, a[2], 16, False, i, 'hchacha20')
    if None in (oo, ko, no):
        return [(st, None)]
    v = mk('hchacha', 256, (eng.content(st, ko, kf, 32), eng.content(st, no, nf, 16)))
    ext.put_content(eng, st, oo, of, 32, v)
    eng.emit('subkey', st, oid=oo, off=of, val=v, inst=i)
    return [(st, None)]

def wipe(eng, st, i, a):
    """void f(p, n): n bytes overwritten in a way that is not removed"""
    oid, off = ext.buf(eng, st, a[0], a[1], True, i, 'wipe')
    if oid is not None:
        ext.put(eng, st, oid, off, a[1])
        if st.F.const(a[1]) is not None and st.F.const(a[1]) <= 64:
            ext.put_content(eng, st, oid, off, st.F.const(a[1]), C(8 * st.F.const(a[1]), 0)) if st.F.const(a[1]) in (1, 2, 4, 8) else None
        eng.emit('wipe', st, oid=oid, off=off, n=a[1], inst=i)
    return [(st, None)]

def crypt(eng, st, i, a):
    """int f(ctx, out, in, len): all of in transformed in order, or failure"""
    n = a[3]
    so, sf = ext.buf(eng, st, a[2], n, False, i, 'crypt')
    do, df = ext.buf(eng, st, a[1], n, True, i, 'crypt')
    eo, ef = ext.buf(eng, st, a[0], 1, False, i, 'crypt')
    ctx = None
    if eo is not None:
        for (b, c), (k, v, t) in sorted(st.mem[eo].cells.items(), key=lambda x: str(x[0])):
            if v.op == 'a' and v.aux.startswith('ev:'):
                ctx = v
    kw = dict(ctx=ctx, oid=so, off=sf, do=do, df=df, n=n, n32=None, inst=i)
    f = st.fork()
    f.note('%s: the cipher fails' % eng.where(i))
    ext.put(eng, f, do, df, n) if do is not None else None
    eng.emit('cipher', f, ok=False, **kw)
    ext.put(eng, st, do, df, n) if do is not None else None
    eng.emit('cipher', st, ok=True, **kw)
    return [(f, C(32, -1)), (st, C(32, 0))]

def opaque(ev, ok_ret='obj', kind='chain'):
    def h(eng, st, i, a):
        t = st.fork()
        t.note('%s: %s fails' % (eng.where(i), ev))
        eng.emit(ev, t, ok=False, args=a, inst=i, ptr=NULL)
        oid = 'st:%s:%s' % (kind, eng.where(i))
        o = eng.new_obj(st, oid, None, 'unk', 'x')
        p = addr(oid)
        st.note('%s: %s' % (eng.where(i), ev))
        eng.emit(ev, st, ok=True, args=a, inst=i, ptr=p)
        return [(t, NULL), (st, p)]
    return h

def chain_append(eng, st, i, a):
    t = st.fork()
    t.note('%s: appending fails' % eng.where(i))
    eng.emit('chain_append', t, ok=False, chain=a[0], store=a[1], inst=i)
    eng.emit('chain_append', st, ok=True, chain=a[0], store=a[1], inst=i)
    return [(t, C(32, -1)), (st, C(32, 0))]

def target_check(eng, st, i, a):
    """int f(t, tmp, len, off, id): 1: the target's bytes at off hash to id
    (and are in tmp), 0: they do not, < 0: not readable"""
    t_, p, n, off, idp = a
    oo, of = ext.buf(eng, st, p, n, True, i, 'target_check_chunk')
    ido, idf = ext.buf(eng, st, idp, 32, False, i, 'target_check_chunk')
    idv = eng.content(st, ido, idf, 32) if ido is not None else sym(256, 'id')
    if oo is not None:
        ext.put(eng, st, oo, of, n)
    kw = dict(target=t_, oid=oo, boff=of, n=n, off=off, id=idv, inst=i)
    f, z = st.fork(), st.fork()
    f.note('%s: the target cannot be read' % eng.where(i))
    z.note('%s: the target holds something else' % eng.where(i))
    st.note('%s: the target already holds the chunk' % eng.where(i))
    eng.emit('target_check', f, res='fail', **kw)
    eng.emit('target_check', z, res='no', **kw)
    if oo is not None:
        st.assume('eq', ext.sha_node(eng, st, oo, of, n), idv)
    eng.emit('target_check', st, res='yes', **kw)
    r = ext.s32(-(1 << 31), -1, 'fail', f)
    return [(f, C(32, -1)), (z, C(32, 0)), (st, C(32, 1))]

def target_write(eng, st, i, a):
    t_, p, n, off, idp = a
    oo, of = ext.buf(eng, st, p, n, False, i, 'target_write')
    ido, idf = ext.buf(eng, st, idp, 32, False, i, 'target_write')
    idv = eng.content(st, ido, idf, 32) if ido is not None else sym(256, 'id')
    kw = dict(target=t_, oid=oo, boff=of, n=n, off=off, id=idv, inst=i)
    eng.emit('target_writing', st, **kw)
    t = st.fork()
    t.note('%s: writing to the target fails' % eng.where(i))
    eng.emit('target_write', t, ok=False, **kw)
    eng.emit('target_write', st, ok=True, **kw)
    return [(t, C(32, -1)), (st, C(32, 0))]

def target_sync(eng, st, i, a):
    t = st.fork()
    t.note('%s: syncing the target fails' % eng.where(i))
    eng.emit('target_sync', t, ok=False, target=a[0], inst=i)
    eng.emit('target_sync', st, ok=True, target=a[0], inst=i)
    return [(t, C(32, -1)), (st, C(32, 0))]

def target_as_store(eng, st, i, a):
    t = st.fork()
    t.note('%s: target cannot be made a store' % eng.where(i))
    eng.emit('target_as_store', t, ok=False, target=a[0], inst=i)
    eng.emit('target_as_store', st, ok=True, target=a[0], inst=i)
    return [(t, NULL), (st, a[0])]

EXTRA = {}

def exported(P, what):
    """contracts for functions of the public headers, where the signature is the expected one"""
    tab = {'chunker_scan_fd': (['32', 'p', 'p', 'p'], entries('chunker_scan_fd')),
           'caibx_iterate_entries': (['32', 'p', '64', 'p', 'p'], entries('caibx_iterate_entries')),
           'caibx_load_header': (['32', 'p', 'p'], load_header),
           'encrypt_parse_keyspec': (['p', 'p'], keyspec),
           'encrypt_do': (['p', 'p', 'p', '64'], crypt),
           'parse_hex': (['p', 'p'], hexparse),
           'store_chain_new': (['64'], opaque('chain_new', kind='chain'), 'p'),
           'store_chain_append': (['p', 'p'], chain_append),
           'target_new': (['p'], opaque('target_new', kind='target'), 'p'),
           'target_check_chunk': (['p', 'p', '64', '64', 'p'], target_check),
           'target_write': (['p', 'p', '64', '64', 'p'], target_write),
           'target_sync': (['p'], target_sync),
           'target_as_store': (['p', '64'], target_as_store, 'p'),
           'hchacha20': (['p', 'p', 'p'], hchacha, '0'),
           'crypto_wipe': (['p', '64'], wipe, '0')}
    tab.update(EXTRA)
    S = {}
    for n in what:
        f = P.fns.get(n)
        ty, h, rt = (tab[n] + ('32',))[:3]
        if f is not None and not f.decl and [str(t) for t in f.params] == ty and str(f.ret) == rt:
            S[n] = h
    return S
