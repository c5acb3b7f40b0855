"""Functions on their own, called with any arguments their callers may use:
the rules that make the contracts in contracts.py true."""
from nodes import *
import ae, ext, runs, contracts
from ae import zext
from runs import need, Broken, buffer_arg, string_arg, size_arg, scenario, params_arg
from p_main import same, setts

def fd_arg(st):
    fd = sym(32, 'fd')
    st.fw().set_s(fd, 0, 1 << 20)
    return fd

def opaque_cb(eng, st, types, name, ev):
    """a callback nothing is known about: fails or not, changes nothing of ours"""
    p = addr('f:' + name)
    old = eng.icall
    def icall(e, st, i, q, args):
        if [str(x) for x in i['ats']] != types or i['t'] != 32:
            return None
        e.emit('cb', st, args=args, inst=i)
        r = sym(32, 'cb')
        f = st.fork()
        fr = sym(32, 'cbfail')
        f.fw().set_s(fr, -(1 << 31), -1)
        f.note('%s: the callback fails' % e.where(i))
        e.emit('cb_ret', f, ok=False, args=args, inst=i)
        st.fw().set_s(r, 0, (1 << 31) - 1)
        st.note('%s: callback' % e.where(i))
        e.emit('cb_ret', st, ok=True, args=args, inst=i)
        return [(f, fr), (st, r)]
    eng.icall = icall
    return mkptr(st)

def mkptr(st):
    p = sym(64, 'callback')
    p.isptr = True
    st.fw().set_u(p, 4096, 1 << 47)
    return p

# ---------------------------------------------------------------- C05
def sc_xfer(eng):
    """every function that transfers a whole buffer, for every length"""
    R = eng.roles
    if not {'read', 'pread', 'write', 'pwrite'} <= set(R.transfer.values()):
        raise Broken('transfer functions found: %s' % sorted(R.transfer.items()))
    for name, op in sorted(R.transfer.items()):
        st = ae.State()
        fd = fd_arg(st)
        n = size_arg(st, 'len', 0, 1 << 40)
        b = buffer_arg(eng, st, 'buf', n)
        off = sym(64, 'off')
        st.fw().set_s(off, 0, 1 << 60)
        a = [fd, b, n] + ([off] if op.startswith('p') else [])
        st.ts = dict(st.ts, op=op)
        st.ghost.update({'X.fd': fd, 'X.n': n, 'X.off': off, 'X.done': C(64, 0), 'X.pos': off})
        st.note('-- %s' % name)
        for s, v in eng.call_fn(eng.P.fns[name], a, st):
            eng.emit('xfer_ret', s, fn=name, op=op, ret=v)

class Xfer:
    def rep(self, st, msg, inst=None):
        self.eng.report(st, 'C05', msg, inst)
    def on_iocall(self, st, op, fd, oid, boff, want, off, inst):
        e, F, g = self.eng, st.F, st.ghost
        e.site('transfer', inst)
        want_op = st.ts['op']
        d = g['X.done']
        if op != want_op or not same(F, fd, g['X.fd']):
            self.rep(st, 'another operation or file than asked for', inst)
        if oid != 'x:buf' or F.decide('eq', boff, d) is not True:
            self.rep(st, 'the transfer is not continued at the first byte of the buffer that is still missing', inst)
        elif not F.decide('ule', want, sub(g['X.n'], d)):
            self.rep(st, 'more is transferred than is left', inst)
        if off is not None and F.decide('eq', off, g['X.pos']) is not True:
            self.rep(st, 'the transfer is not continued at the right position of the file', inst)
        setts(st, eintr=None)
    def on_io(self, st, op, res, got=None, inst=None, **_):
        if res == 'ok':
            st.ghost['X.done'] = add(st.ghost['X.done'], got)
            st.ghost['X.pos'] = add(st.ghost['X.pos'], got)
        elif res == 'eintr':
            setts(st, eintr=1)
        else:
            setts(st, failed=res)
    def on_xfer_ret(self, st, fn, op, ret):
        e, F, g = self.eng, st.F, st.ghost
        f = e.P.fns[fn]
        e.sites.setdefault('function', set()).add('%s (%s)' % (fn, op))
        neg = F.sb(ret)[1] < 0
        nonneg = F.sb(ret)[0] >= 0
        fl = st.ts.get('failed')
        if fl and not neg:
            e.report(st, 'C04', '%s reports success after its %s %s' % (fn, op, 'failed' if fl == 'fail' else 'reached the end of the file'), None)
            self.rep(st, '%s reports success after its %s %s' % (fn, op, 'failed' if fl == 'fail' else 'reached the end of the file'))
        if fl:
            return
        if st.ts.get('eintr') and not neg and F.decide('eq', g['X.done'], g['X.n']) is not True or st.ts.get('eintr') and neg:
            self.rep(st, '%s does not retry after an interruption' % fn)
            return
        if not nonneg:
            self.rep(st, '%s fails although no transfer failed' % fn)
        elif F.decide('eq', g['X.done'], g['X.n']) is not True:
            self.rep(st, '%s reports success before everything was transferred' % fn)
            e.report(st, 'C04', '%s reports success before everything was transferred' % fn, None)

# ---------------------------------------------------------------- C02, C03, C04: the index file
def setpos(st, v):
    st.ghost['R.pos'] = v

class Reader:
    """position of the index file, and the words read from known positions"""
    MAXR = 8
    def on_io(self, st, op, res, fd=None, inst=None, **kw):
        e, g = self.eng, st.ghost
        if 'H.fd' not in g:
            return
        if res not in ('ok', 'eintr'):
            setts(st, iofail='%s of the index' % op)
        if op == 'lseek' and res == 'ok':
            e.site('seek', inst)
            setts(st, pos=1)
            setpos(st, kw['pos'])
        if op in ('readall', 'preadall') and res == 'ok':
            e.site('read', inst)
            if not same(st.F, fd, g['H.fd']):
                return
            if op == 'preadall':
                p = kw['off']
            else:
                p = g.get('R.pos') if st.ts.get('pos') else None
            n = st.F.const(kw['want'])
            if p is None or n is None or kw['oid'] is None:
                return
            if op == 'readall':
                setpos(st, add(p, kw['want']))
            self.got(st, p, n, kw['oid'], kw['boff'], inst)
    def got(self, st, p, n, oid, boff, inst):
        pass

def word(eng, st, oid, boff, n=8):
    return eng.content(st, oid, boff, n)

class Header(Reader):
    """C03: what makes an index acceptable"""
    def on_start_header(self, st, fd, params, n):
        st.ghost['H.fd'] = fd
    def got(self, st, p, n, oid, boff, inst):
        e, g = self.eng, st.ghost
        k = st.F.const(p)
        for j in range(0, n - 7, 8):
            v = word(e, st, oid, add(boff, C(64, j)))
            if k is not None:
                g['w.%d' % (k + j)] = v
            else:
                g['f.%d' % j] = v
        if k is None:
            g['f.pos'] = p
    def on_header_ret(self, st, ret, params, n):
        e, F, g = self.eng, st.F, st.ghost
        lo, hi = F.sb(ret)
        if hi < 0:
            return
        e.sites.setdefault('accept', set()).add('caibx_load_header')
        def rep(m):
            e.report(st, 'C03', 'an index is accepted %s' % m, None)
        if st.ts.get('iofail'):
            e.report(st, 'C04', 'an index is accepted although %s failed' % st.ts['iofail'], None)
            e.report(st, 'C03', 'an index is accepted although %s failed' % st.ts['iofail'], None)
            return
        nv = e.content(st, 'x:nout', C(64, 0), 8)
        size = None
        for nm in ('fsize', 'bsize'):
            z = mk(nm, 64, (g['H.fd'],))
            for t in (z, mk(nm, 64, (F.norm(g['H.fd']),))):
                if F.decide('eq', add(mulc(nv, 40), C(64, 104)), t) is True:
                    size = nm
        if size is None:
            rep('whose number of entries does not follow from its size')
        W = lambda k: g.get('w.%d' % k)
        def isconst(v, c):
            return v is not None and F.decide('eq', v, C(64, c)) is True
        v = W(0)
        if v is None or F.decide('ult', v, C(64, 0x30)) is not False:
            rep('without its header being checked to be long enough')
        if not isconst(W(8), 0x96824d9c7b129ff9):
            rep('without the index magic being checked')
        v = W(16)
        if v is None or not self.flags(F, v):
            rep('without unsupported feature flags being refused')
        names = ('minimum', 'average', 'maximum')
        vals = []
        for k, nm in enumerate(names):
            v = W(24 + 8 * k)
            o = e.content(st, 'x:hparams', C(64, 4 * k), 4)
            if v is None or F.ub(v)[1] >= 1 << 32 or not same(F, ae.trunc(v, 32), o):
                rep('with another %s chunk size than it declares' % nm)
            vals.append(v if v is not None else zext(o, 64))
        mn, av, mx = vals
        if not (F.decide('ult', mn, av) and F.decide('ult', av, mx)):
            rep('whose chunk sizes are not increasing')
        if F.decide('ult', mx, C(64, 48)) is not False or F.decide('ult', av, C(64, 2)) is not False or F.decide('ugt', av, C(64, 9324556)) is not False:
            rep('whose chunk sizes are outside of what the chunker supports')
        if not isconst(W(56), 0xe75b9e112f17417d):
            rep('without the table magic being checked')
        fp = g.get('f.pos')
        if fp is None or F.decide('eq', fp, add(mulc(nv, 40), C(64, 64))) is not True:
            rep('without the table footer being read')
        else:
            f = lambda k: g.get('f.%d' % k)
            if not isconst(f(0), 0) or not isconst(f(8), 0):
                rep('without the zero fill of the footer being checked')
            if not isconst(f(16), 0x30):
                rep('without the index offset of the footer being checked')
            v = f(24)
            if v is None or F.decide('eq', v, add(mulc(nv, 40), C(64, 56))) is not True:
                rep('without the table size of the footer being checked')
            if not isconst(f(32), 0x4b4f050e5549ecd1):
                rep('without the tail marker being checked')
    def flags(self, F, v):
        bad = C(64, ~0xd000000000000000 & (1 << 64) - 1)
        for n in (ae.binop('and', v, bad), ae.binop('and', bad, v)):
            if F.const(n) == 0:
                return True
        return F.const(v) is not None and F.const(v) & bad.aux == 0

def sc_header(eng):
    st = ae.State()
    fd = fd_arg(st)
    p = buffer_arg(eng, st, 'hparams', 12)
    n = buffer_arg(eng, st, 'nout', 8)
    eng.emit('start_header', st, fd=fd, params=p, n=n)
    for s, v in eng.call_fn(need(eng.P, 'caibx_load_header'), [fd, p, n], st):
        eng.emit('header_ret', s, ret=v, params=p, n=n)

class Entries(Reader):
    """C02: the callback sees every entry of the table, in order, exactly"""
    def on_start_entries(self, st, fd, n):
        st.ghost['H.fd'] = fd
        st.ghost['N.n'] = n
        st.ghost['N.k'] = C(64, 0)
        st.ghost['N.end'] = C(64, 0)
    def got(self, st, p, n, oid, boff, inst):
        e, g = self.eng, st.ghost
        if n < 40:
            return
        g['E.pos'] = p
        g['E.w'] = word(e, st, oid, boff)
        g['E.id'] = word(e, st, oid, add(boff, C(64, 8)), 32)
        setts(st, have=1)
    def on_cb(self, st, args, inst):
        e, F, g = self.eng, st.F, st.ghost
        e.site('callback', inst)
        off, ln, idp, _ = args
        def rep(m, p='C02'):
            e.report(st, p, m, inst)
        if st.ts.get('iofail'):
            rep('an entry is passed on although %s failed' % st.ts['iofail'], 'C04')
        if not st.ts.get('have') or F.decide('eq', g['E.pos'], add(C(64, 64), mulc(g['N.k'], 40))) is not True:
            rep('the entry passed on is not the next one of the table')
            return
        if F.decide('ult', g['N.k'], g['N.n']) is not True:
            rep('more entries are passed on than the table has')
        ido, idf = ext.buf(e, st, idp, 32, False, inst, 'callback')
        if ido is None or not same(F, e.content(st, ido, idf, 32), g['E.id']):
            rep('another chunk ID than that of the entry is passed on')
        if F.decide('eq', off, g['N.end']) is not True:
            rep('a chunk is not placed where the previous one ended')
        if F.decide('eq', zext(ln, 64), sub(g['E.w'], g['N.end'])) is not True:
            rep('the length passed on is not the distance of the two chunk ends')
        if F.decide('eq', ln, C(32, 0)) is not False:
            rep('an entry without data is passed on')
    def on_cb_ret(self, st, ok, args, inst):
        g = st.ghost
        if ok:
            g['N.k'] = add(g['N.k'], C(64, 1))
            g['N.end'] = g.get('E.w', sym(64, 'x'))
            setts(st, have=None)
        else:
            setts(st, cbfail=1)
    def on_entries_fret(self, st, ret):
        e, F, g = self.eng, st.F, st.ghost
        lo, hi = F.sb(ret)
        if hi < 0:
            return
        e.sites.setdefault('complete', set()).add('caibx_iterate_entries')
        def rep(m, p='C02'):
            e.report(st, p, m, None)
        if st.ts.get('iofail'):
            rep('the iteration reports success although %s failed' % st.ts['iofail'], 'C04')
            rep('the iteration reports success although %s failed' % st.ts['iofail'])
        if st.ts.get('cbfail'):
            rep('the iteration reports success although an entry failed')
            rep('the iteration reports success although an entry failed', 'C04')
        elif F.decide('eq', g['N.k'], g['N.n']) is not True:
            rep('the iteration reports success before every entry was passed on')

def sc_entries(eng):
    for st, pp in params_arg(eng, ae.State()):
        fd = fd_arg(st)
        n = size_arg(st, 'n_entries', 0, 1 << 57)
        cb = opaque_cb(eng, st, ['64', '32', 'p', 'p'], 'cb', 'entry')
        eng.emit('start_entries', st, fd=fd, n=n)
        for s, v in eng.call_fn(need(eng.P, 'caibx_iterate_entries'), [fd, pp, n, cb, NULL], st):
            eng.emit('entries_fret', s, ret=v)

# ---------------------------------------------------------------- C20
def scan_contract(eng, st, i, a):
    """size_t f(chunker, buf, n): everything is added to the chunk (-1), or the
    chunk ends after that many bytes"""
    c, p, n = a
    oid, off = ext.buf(eng, st, p, n, False, i, 'chunker_scan')
    eng.emit('scan', st, c=c, oid=oid, off=off, n=n, inst=i)
    co, cf = ext.buf(eng, st, c, 1, True, i, 'chunker_scan')
    if co is not None:
        st.w(co)
        o = st.mem[co]
        if o.size is not None:
            ext.put(eng, st, co, cf, sub(o.size, cf))
    t = st.fork()
    t.note('%s: no chunk boundary' % eng.where(i))
    eng.emit('scan_res', t, n=n, used=None, inst=i)
    k = sym(64, 'used')
    out = [(t, C(64, (1 << 64) - 1))]
    st.fw().set_u(k, 0, 1 << 40)
    if st.assume('ule', k, n):
        st.note('%s: the chunk ends after %s bytes' % (eng.where(i), show(k)))
        eng.emit('scan_res', st, n=n, used=k, inst=i)
        out.append((st, k))
    return out

class ScanBase:
    def rep(self, st, m, inst=None, p='C20'):
        self.eng.report(st, p, m, inst)

class Scan1(ScanBase):
    """one chunk after the other, fed in pieces of any size"""
    def on_scan1(self, st):
        g = st.ghost
        st.ts = dict(st.ts, scan=1)
        for k, nm in enumerate(('min', 'avg', 'max')):
            g['S.' + nm] = self.eng.content(st, 'x:params', C(64, 4 * k), 4)
        g['S.size'] = C(64, 0)
    def on_feed(self, st, n):
        st.ghost['S.n'] = n
        st.ghost['S.up'] = C(64, 0)
    def on_sha_init(self, st, ctx, inst):
        if st.ts.get('scan') != 1:
            return
        if F0(st, st.ghost['S.size']) and not st.ts.get('fin'):
            setts(st, started=1)
        else:
            setts(st, started=1, fin=None)
        st.ghost['S.size'] = C(64, 0)
        setts(st, fresh=1, upd=None)
    def on_sha_update(self, st, ctx, oid, off, n, inst):
        e, g, F = self.eng, st.ghost, st.F
        if not st.ts.get('scan') or 'S.n' not in g:
            return
        e.site('hash', inst)
        if F.decide('eq', n, C(64, 0)) is True:
            return
        if oid != 'x:data' or F.decide('eq', off, g['S.up']) is not True:
            self.rep(st, 'the data hashed does not continue the chunk', inst)
        elif not (F.decide('ule', off, g['S.n']) and F.decide('ule', n, sub(g['S.n'], off))):
            self.rep(st, 'more data is hashed than is there', inst)
        g['S.up'] = add(g['S.up'], n)
        setts(st, upd=1)
    def on_fed(self, st, n, ret):
        e, g, F = self.eng, st.ghost, st.F
        e.sites.setdefault('piece', set()).add('chunker_scan')
        none = F.const(ret) == (1 << 64) - 1
        used = n if none else ret
        if not none and F.decide('ule', ret, n) is not True:
            self.rep(st, 'a chunk ends after the data that was given')
        if F.decide('eq', g['S.up'], used) is not True:
            self.rep(st, 'other data than that of the chunk was hashed')
        size = add(g['S.size'], used)
        g['S.size'] = size
        mx, mn = zext(g['S.max'], 64), zext(g['S.min'], 64)
        if none:
            if F.decide('ult', size, mx) is not True:
                self.rep(st, 'a chunk is continued although it has reached the maximum chunk size')
        else:
            setts(st, fin=1)
            e.sites.setdefault('boundary', set()).add('chunker_scan')
            if F.decide('ule', size, mx) is not True:
                self.rep(st, 'a chunk may be larger than the maximum chunk size')
            if F.decide('uge', size, mn) is not True:
                self.rep(st, 'a chunk may be smaller than the minimum chunk size')
            if F.decide('ne', size, C(64, 0)) is not True:
                self.rep(st, 'a chunk without data')
        g.pop('S.n', None)
        g.pop('S.up', None)
    def on_restarted(self, st):
        """scalar fields must be what they were for the first chunk"""
        e, g, F = self.eng, st.ghost, st.F
        o = st.mem['h:chunker#0']
        e.sites.setdefault('restart', set()).add('chunker_reset')
        cur = {'S0.%d.%d' % (c, n): v for (bb, c), (n, v, t) in o.cells.items()
               if bb is None and t is not None and v.op != 'f' and 4 <= n <= 8}
        if 'S0.end' not in g:
            g.update(cur)
            g['S0.end'] = C(64, 0)
            return
        for k, v in cur.items():
            if k not in g or not same(F, v, g[k]):
                self.rep(st, 'a chunk starts with state left over from the previous one (field at offset %s)' % k.split('.')[1])
        if not st.ts.get('started'):
            self.rep(st, 'the digest of the previous chunk is continued')

def F0(st, v):
    return st.F.const(v) == 0

def sc_scan1(eng):
    """a chunker fed with pieces of any size, restarted after every boundary"""
    P = eng.P
    ini, scn, gid, rst = [need(P, 'chunker_' + x) for x in ('init', 'scan', 'get_id', 'reset')]
    for st, pp in params_arg(eng, ae.State()):
        eng.new_obj(st, 'h:chunker#0', C(64, 4096), 'unk', 'h')
        c = addr('h:chunker#0')
        eng.emit('scan1', st)
        for s, v in eng.call_fn(ini, [c, pp], st):
            if s.F.sb(v)[1] < 0:
                continue
            eng.emit('restarted', s)
            def body(states):
                backs, exits = [], []
                for s in states:
                    exits.append((None, s.fork(), None))
                    n = size_arg(s, 'n', 1, 1 << 31)
                    d = buffer_arg(eng, s, 'data', n)
                    s.note('-- chunker_scan')
                    eng.emit('feed', s, n=n)
                    for r, v in eng.call_fn(scn, [c, d, n], s):
                        k = r.F.const(v)
                        rs = []
                        if k is None and r.F.decide('eq', v, C(64, (1 << 64) - 1)) is None:
                            t = r.fork()
                            if t.assume('eq', v, C(64, (1 << 64) - 1)):
                                rs.append((t, C(64, (1 << 64) - 1)))
                            if r.assume('ne', v, C(64, (1 << 64) - 1)):
                                rs.append((r, v))
                        else:
                            rs.append((r, v))
                        for r, v in rs:
                            eng.emit('fed', r, n=n, ret=v)
                            r.mem.pop('x:data', None)
                            if r.F.const(v) == (1 << 64) - 1:
                                # the hash is rolled from here on
                                t = r.fork()
                                if t.assume('ult', t.ghost['S.size'], C(64, 48)):
                                    setts(t, small=1)
                                    backs.append(t)
                                if r.assume('uge', r.ghost['S.size'], C(64, 48)):
                                    setts(r, small=None)
                                    backs.append(r)
                                continue
                            r.note('-- chunker_get_id, chunker_reset')
                            o = buffer_arg(eng, r, 'id', 32)
                            for q, _ in eng.call_fn(gid, [c, o], r):
                                q.mem.pop('x:id', None)
                                setts(q, started=None, small=None)
                                for w, _ in eng.call_fn(rst, [c], q):
                                    eng.emit('restarted', w)
                                    backs.append(w)
                return backs, exits, []
            eng.fix([s], body, ('pieces',))

class Scan(ScanBase):
    """chunks are contiguous, within bounds, hashed exactly, and start afresh"""
    def on_start_scan(self, st, fd, params):
        e, g = self.eng, st.ghost
        z = C(64, 0)
        g.update({'S.fd': fd, 'S.read': z, 'S.end': z, 'S.base': z})
        st.ts = dict(st.ts, scan=1)
        for k, nm in enumerate(('min', 'avg', 'max')):
            g['S.' + nm] = e.content(st, 'x:params', C(64, 4 * k), 4)
    def on_io(self, st, op, res, fd=None, inst=None, **kw):
        e, g, F = self.eng, st.ghost, st.F
        if not st.ts.get('scan'):
            return
        if op == 'lseek':
            if res == 'ok':
                if F.const(kw['pos']) != 0 or F.const(g['S.read']) != 0:
                    self.rep(st, 'the store is not scanned from its start', inst)
                setts(st, sought=1)
            else:
                setts(st, iofail=op)
            return
        if op not in ('read', 'pread'):
            return
        e.site('read', inst)
        if res == 'fail':
            setts(st, iofail=op, last=res)
        elif res in ('eof', 'eintr'):
            setts(st, last=res)
        else:
            setts(st, last='ok')
            if op == 'pread' and F.decide('eq', kw['off'], g['S.read']) is not True or op == 'read' and not st.ts.get('sought'):
                self.rep(st, 'data is read from another position than where the last read stopped', inst)
            # buffer position -> position in the store
            g['S.base'] = sub(g['S.read'], kw['boff'])
            g['S.read'] = add(g['S.read'], kw['got'])
            # there are no positions beyond what off_t can hold
            st.assume('ule', g['S.read'], C(64, (1 << 63) - 1))
            st.ts = dict(st.ts, buf=kw['oid'])
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        g = st.ghost
        if st.ts.get('scan') and src == dst and src == st.ts.get('buf'):
            g['S.base'] = add(g['S.base'], sub(soff, doff))
    def on_sha_init(self, st, ctx, inst):
        if not st.ts.get('scan'):
            return
        g = st.ghost
        g['S.hs'] = g['S.end']
        g['S.he'] = g['S.end']
        setts(st, fin=None, bnd=None)
    def on_scan(self, st, c, oid, off, n, inst):
        e, g, F = self.eng, st.ghost, st.F
        e.site('scan', inst)
        if 'S.hs' not in g or st.ts.get('bnd') or st.ts.get('fin'):
            self.rep(st, 'the chunker is not restarted for a new chunk', inst)
            return
        if oid != st.ts.get('buf') or F.decide('eq', add(g['S.base'], off), g['S.he']) is not True:
            self.rep(st, 'the data scanned does not continue the chunk', inst)
        if F.decide('ule', add(g['S.he'], n), g['S.read']) is not True:
            self.rep(st, 'more data is scanned than was read', inst)
        if F.decide('eq', g['S.he'], g['S.hs']) is True and e.started_over:
            b, cf = ae.ptr_split(c)
            for (k, m), x in e.started_over if b is not None and b.op == 'a' else ():
                if F.const(e.content(st, b.aux, add(cf, C(64, k)), m)) != x:
                    self.rep(st, 'a chunk starts with state left over from the previous one (field at offset %d)' % k, inst)
    def on_scan_res(self, st, n, used, inst):
        g = st.ghost
        if 'S.he' not in g:
            return
        g['S.he'] = add(g['S.he'], n if used is None else used)
        d = sub(g['S.he'], g['S.hs'])
        mx, mn = zext(g['S.max'], 64), zext(g['S.min'], 64)
        st.fw().set_u(d, 0, (1 << 32) - 1)
        if used is None:
            st.assume('ult', d, mx)
        else:
            st.assume('ule', d, mx)
            st.assume('uge', d, mn)
            st.assume('ne', d, C(64, 0))
            g['S.bnd'] = g['S.he']
        setts(st, bnd=1 if used is not None else None)
    def on_sha_final(self, st, ctx, out, val, inst):
        if st.ts.get('scan'):
            st.ghost['S.id'] = val
            setts(st, fin=1)
    def on_cb(self, st, args, inst):
        e, g, F = self.eng, st.ghost, st.F
        e.site('callback', inst)
        off, ln, idp, _ = args
        if st.ts.get('iofail'):
            self.rep(st, 'a chunk is reported after %s failed' % st.ts['iofail'], inst, 'C04')
        if not st.ts.get('bnd') and st.ts.get('last') != 'eof':
            self.rep(st, 'a chunk is reported where none ends', inst)
        if F.decide('eq', off, g['S.end']) is not True:
            self.rep(st, 'a chunk does not start where the previous one ended', inst)
        if F.decide('eq', ln, C(32, 0)) is not False:
            self.rep(st, 'a chunk without data is reported', inst)
        io, jf = ext.buf(e, st, idp, 32, False, inst, 'callback')
        if not st.ts.get('fin') or io is None or not same(F, e.content(st, io, jf, 32), g['S.id']):
            self.rep(st, 'the ID reported is not the digest of the chunk', inst)
        elif F.decide('eq', g['S.hs'], off) is not True or F.decide('eq', g['S.he'], add(off, zext(ln, 64))) is not True:
            self.rep(st, 'the digest covers something else than the chunk', inst)
    def on_cb_ret(self, st, ok, args, inst):
        if ok:
            st.ghost['S.end'] = st.ghost.get('S.he', sym(64, 'x'))
        else:
            setts(st, cbfail=1)
    def on_scan_ret(self, st, ret):
        e, g, F = self.eng, st.ghost, st.F
        if F.sb(ret)[1] < 0:
            return
        e.sites.setdefault('complete', set()).add('chunker_scan_fd')
        if st.ts.get('iofail'):
            self.rep(st, 'the scan reports success although %s failed' % st.ts['iofail'], None, 'C04')
            self.rep(st, 'the scan reports success although %s failed' % st.ts['iofail'])
            return
        if st.ts.get('cbfail'):
            self.rep(st, 'the scan reports success although the callback failed')
            return
        if st.ts.get('last') != 'eof':
            self.rep(st, 'the scan ends before the end of the store')
        if F.decide('eq', g['S.end'], g['S.read']) is not True:
            self.rep(st, 'data at the end of the store is in no chunk')

def sc_scanfd(eng):
    for st, pp in params_arg(eng, ae.State()):
        fd = fd_arg(st)
        cb = opaque_cb(eng, st, ['64', '32', 'p', 'p'], 'cb', 'entry')
        # what a chunker is like when it starts over
        eng.started_over = None
        if 'chunker_reset' in eng.P.fns and len(eng.P.fns['chunker_reset'].params) == 1:
            t = st.fork()
            eng.new_obj(t, 'h:probe', C(64, 4096), 'unk', 'h')
            rs = eng.call_fn(eng.P.fns['chunker_reset'], [addr('h:probe')], t)
            cs = [{(c, n): t.F.const(v) for (b, c), (n, v, ty) in t.mem['h:probe'].cells.items()
                   if b is None and n <= 8 and v.op == 'c'} for t, _ in rs]
            eng.started_over = [x for x in cs[0].items() if all(y.get(x[0]) == x[1] for y in cs)]
        eng.emit('start_scan', st, fd=fd, params=pp)
        for s, v in eng.call_fn(need(eng.P, 'chunker_scan_fd'), [fd, pp, cb, NULL], st):
            eng.emit('scan_ret', s, ret=v)

# ---------------------------------------------------------------- C19
def sc_index(eng):
    """an index: any sequence of insertions and lookups, then discarded"""
    P = eng.P
    ini, ins, qry, cln = [need(P, 'index_' + x) for x in ('init', 'insert', 'query', 'cleanup')]
    sz = {str(t): t for t in ini.params}
    st = ae.State()
    hint = size_arg(st, 'hint', 0, 1 << 57)
    eng.new_obj(st, 'h:idx#0', C(64, 64), 'unk', 'h')
    ix = addr('h:idx#0')
    for s, v in eng.call_fn(ini, [ix, hint], st):
        if s.F.sb(v)[1] < 0:
            continue
        eng.emit('index_new', s)
        def body(states):
            backs, exits = [], []
            for s in states:
                exits.append((None, s.fork(), None))
                t = s.fork()
                idp = buffer_arg(eng, t, 'id', 32)
                off, ln = sym(64, 'off'), sym(32, 'len')
                t.fw().set_u(ln, 1, (1 << 32) - 1)
                t.note('-- index_insert')
                eng.emit('index_op', t, op='insert', off=off, ln=ln)
                for r, v in eng.call_fn(ins, [ix, off, ln, idp], t):
                    eng.emit('index_ret', r, op='insert', off=off, ln=ln, ret=v)
                    r.mem.pop('x:id', None)
                    backs.append(r)
                t = s
                idp = buffer_arg(eng, t, 'id', 32)
                t.note('-- index_query')
                eng.emit('index_op', t, op='query', off=None, ln=None)
                for r, v in eng.call_fn(qry, [ix, idp], t):
                    eng.emit('index_ret', r, op='query', off=None, ln=None, ret=v)
                    r.mem.pop('x:id', None)
                    backs.append(r)
            return backs, exits, []
        exits, _ = eng.fix([s], body, ('index ops',))
        for _, r, _ in exits:
            r.note('-- index_cleanup')
            for q, v in eng.call_fn(cln, [ix], r):
                eng.emit('index_gone', q)

class Index:
    """C19"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C19', m, inst)
    def arr(self, oid):
        return oid is not None and oid.startswith('h:') and oid != 'h:idx#0'
    def on_index_new(self, st):
        st.ghost['K.n'] = C(64, 0)
        st.ts = dict(st.ts, idx=1)
    def on_index_op(self, st, op, off, ln):
        setts(st, op=op, full=None, hit=None, moved=None, fail=None)
    def on_access(self, st, oid, off, n, write, inst, what):
        if not st.ts.get('idx') or not write or not self.arr(oid):
            return
        e = self.eng
        e.site('entry written', inst)
        if what == 'qsort':
            return
        setts(st, sorted=None)
        if st.ts.get('op') != 'insert':
            self.rep(st, 'a lookup changes entries', inst)
            return
        if not any(v.op == 'a' and v.aux == oid for n_, v, t in st.mem['h:idx#0'].cells.values()):
            return
        if st.F.decide('uge', off, mulc(st.ghost['K.n'], self.ES)) is not True:
            self.rep(st, 'adding an entry overwrites existing ones', inst)
    ES = 48
    def on_qsort(self, st, base, n, size, cmp, inst):
        e, F, g = self.eng, st.F, st.ghost
        if not st.ts.get('idx'):
            return
        e.site('sort', inst)
        if F.decide('eq', n, g['K.n']) is not True:
            self.rep(st, 'not all entries are sorted', inst)
        b, o = ae.ptr_split(base)
        if F.const(o) != 0:
            self.rep(st, 'not all entries are sorted', inst)
        g['K.size'], g['K.cmp'] = size, cmp
        setts(st, sorted=1)
    def on_bsearch(self, st, key, base, n, size, cmp, inst):
        e, F, g = self.eng, st.F, st.ghost
        if not st.ts.get('idx'):
            return
        e.site('search', inst)
        b, o = ae.ptr_split(base)
        if F.decide('eq', n, C(64, 0)) is True:
            pass
        elif not st.ts.get('sorted'):
            self.rep(st, 'entries are searched that were not sorted after the last one was added', inst)
        elif not same(F, size, g['K.size']) or not same(F, cmp, g['K.cmp']):
            self.rep(st, 'entries are searched in another order than they were sorted in', inst)
        if F.const(o) != 0 or F.decide('eq', n, g['K.n']) is not True:
            self.rep(st, 'not all entries are searched', inst)
        st.ts = dict(st.ts, searching=1)
        st.ghost['K.key'] = key
        setts(st, searched=1)
    def on_memcmp_at(self, st, a, b, n, inst):
        e, F, g = self.eng, st.F, st.ghost
        if not st.ts.get('searching'):
            return
        e.site('comparison', inst)
        v = e.content(st, a[0], a[1], 32) if F.const(n) == 32 and a[0] is not None else None
        if v is None or not same(F, v, e.content(st, 'x:id', C(64, 0), 32)):
            self.rep(st, 'entries are not compared with the ID asked for', inst)
        g['K.coff'] = b[1]
    def on_bsearch_res(self, st, found, key, base, n, inst):
        if st.ts.get('idx'):
            setts(st, searching=None, hit=1 if found is not None else 0)
            if found is not None:
                st.ghost['K.hit'] = found
                b, o = ae.ptr_split(found)
                d = sub(st.ghost.get('K.coff', sym(64, 'x')), o)
                if st.F.const(d) is None or self.IDO is not None and st.F.const(d) not in self.IDO:
                    self.rep(st, 'entries are not compared by their IDs', inst)
    def on_allocfail(self, st, inst):
        if st.ts.get('idx'):
            setts(st, fail=1)
    def on_index_ret(self, st, op, off, ln, ret):
        e, F, g = self.eng, st.F, st.ghost
        null = F.const(ret) == 0
        if op == 'insert':
            if null:
                if not st.ts.get('fail'):
                    self.rep(st, 'an entry is refused although memory is available')
                return
            e.sites.setdefault('inserted', set()).add('index_insert')
            b, o = ae.ptr_split(ret)
            if b is None or b.op != 'a' or F.decide('eq', o, mulc(g['K.n'], self.ES)) is not True:
                self.rep(st, 'a new entry is not the next one of the array')
            else:
                for nm, n, want in (('offset', 8, off), ('length', 4, ln), ('ID', 32, e.content(st, 'x:id', C(64, 0), 32))):
                    at = [c for c in range(0, self.ES - n + 1, 4) if same(F, e.content(st, b.aux, add(o, C(64, c)), n), want)]
                    if not at:
                        self.rep(st, 'a new entry does not have the %s that was added' % nm)
                    elif nm == 'ID':
                        self.IDO = set(at)
            g['K.n'] = add(g['K.n'], C(64, 1))
        else:
            e.sites.setdefault('looked up', set()).add('index_query')
            if not st.ts.get('searched'):
                self.rep(st, 'a lookup answers without searching the entries')
            elif null and st.ts.get('hit') or not null and not same(F, ret, g.get('K.hit')):
                self.rep(st, 'a lookup does not return the entry that was found')
        setts(st, searched=None, op=None)
    IDO = None
    def on_ext(self, st, name, args, inst):
        if st.ts.get('idx') is None and name == 'calloc' and st.F.const(args[1]):
            self.ES = st.F.const(args[1])
    def on_realloc(self, st, old, new, n, inst):
        if st.ts.get('idx') and st.F.decide('uge', n, mulc(st.ghost['K.n'], self.ES)) is not True:
            self.rep(st, 'growing the array loses entries', inst)

scenario('xfer', 'csn', sc_xfer, tr=False)
scenario('header', 'csn', sc_header, opts={'merge_at': 500, 'block_merge': 500})
scenario('entries', 'csn', sc_entries)
contracts.EXTRA['chunker_scan'] = (['p', 'p', '64'], scan_contract, '64')
scenario('scanfd', 'csn', sc_scanfd, exp=('chunker_scan',))
scenario('scan1', 'csn', sc_scan1, opts={'merge_at': 500, 'block_merge': 500})
scenario('index', 'csn', sc_index)
