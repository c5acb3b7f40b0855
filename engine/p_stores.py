"""Rules for the life of stores and of the target: opened, asked and changed
any number of times in any order, then released."""
from nodes import *
import ae, ext
from ae import zext
from p_main import same, setts, hash_of

def cond(st, pred, a, b):
    """copy of the state in which a pred b holds, or None"""
    t = st.fork()
    return t if t.assume(pred, a, b) else None

def ids(eng, st):
    return eng.content(st, 'x:qid', C(64, 0), 32)

class Held:
    """C22: descriptors and heap blocks are released once, and not forgotten"""
    MAXFD = 4
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C22', m, inst)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if fd is None:
            return
        self.eng.site('acquired', inst)
        k = st.ts.get('fds', ())
        n = next((i for i in range(self.MAXFD) if i not in k), None)
        if n is None:
            self.rep(st, 'descriptors pile up', inst)
            return
        st.ghost['FD.%d' % n] = fd
        setts(st, fds=tuple(sorted(k + (n,))))
    def on_close(self, st, fd, inst):
        k = st.ts.get('fds', ())
        F = st.F
        hit = [i for i in k if same(F, fd, st.ghost.get('FD.%d' % i))]
        self.eng.site('released', inst)
        if not hit:
            if F.const(fd) in (0, 1, 2):
                return
            self.rep(st, 'a descriptor is closed that is not open', inst)
            return
        st.ghost.pop('FD.%d' % hit[0])
        setts(st, fds=tuple(i for i in k if i != hit[0]) or None)
    def on_alloc(self, st, oid, n, inst):
        self.eng.site('acquired', inst)
    def on_free(self, st, oid, inst):
        self.eng.site('released', inst)
    # res: cipher contexts and so on
    def on_res_new(self, st, kind, oid, inst):
        self.eng.site('acquired', inst)
        r = st.ts.get('res', ())
        if len(r) > 6:
            self.rep(st, 'objects of external libraries pile up', inst)
            return
        setts(st, res=tuple(sorted(r + (oid,))))
    def on_res_free(self, st, kind, ptr, inst):
        r = st.ts.get('res', ())
        b, off = ae.ptr_split(ptr)
        self.eng.site('released', inst)
        if st.F.const(ptr) == 0:
            return
        if b is None or b.op != 'a' or b.aux not in r:
            self.rep(st, 'an object of an external library is released that does not exist (any more)', inst)
            return
        l = list(r)
        l.remove(b.aux)
        setts(st, res=tuple(l) or None)
    def live(self, st):
        return {oid for oid, o in st.mem.items() if oid.startswith('h:') and not o.freed}
    def reach(self, st, roots):
        e = self.eng
        seen, todo = set(), []
        for r in roots:
            todo += list(e.addrs(r))
        for oid in st.mem:
            if oid.startswith('g:'):
                todo.append(oid)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            o = st.mem.get(x)
            if o is None or o.freed:
                continue
            for n, v, t in o.cells.values():
                todo += list(e.addrs(v))
        return seen
    def leaks(self, st, roots, when):
        r = self.reach(st, roots)
        for oid in sorted(self.live(st) - r):
            self.rep(st, 'the block allocated at %s is lost %s' % (oid[2:], when))
        for oid in st.ts.get('res', ()):
            if oid not in r:
                self.rep(st, 'the object allocated at %s is lost %s' % (oid, when))
    def on_ctor_ret(self, st, fn, ret):
        if st.F.const(ret) != 0:
            st.ts = dict(st.ts, base=st.ts.get('fds', ()))
            self.leaks(st, [ret], 'when %s returns' % fn)
    def settled(self, st, when):
        self.eng.sites.setdefault('balance', set()).add(when)
        if st.ts.get('fds', ()) != st.ts.get('base', ()):
            self.rep(st, 'descriptors are not released %s' % when)
        p = st.env.get('$store')
        self.leaks(st, [p] if p is not None else [], when)
    def on_query_ret(self, st, fn, **_):
        self.settled(st, 'when %s returns' % fn)
    def on_target_op_ret(self, st, op, **_):
        self.settled(st, 'when %s returns' % op)
    def on_life_end(self, st, how):
        if how == 'kept':
            return
        self.eng.sites.setdefault('balance', set()).add('store ' + how)
        w = {'refused': 'when the store cannot be created', 'freed': 'when the store is freed'}[how]
        if st.ts.get('fds'):
            self.rep(st, 'descriptors are not released %s' % w)
        for oid in sorted(self.live(st)):
            self.rep(st, 'the block allocated at %s is not released %s' % (oid[2:], w))
        for oid in st.ts.get('res', ()):
            self.rep(st, 'the object allocated at %s is not released %s' % (oid, w))

class Answer:
    """C01 (C09, C26): a chunk that is delivered is the one asked for"""
    def on_assume(self, st, pred, a, b):
        if pred == 'eq' and a.op == 'memcmp' and st.F.const(b) == 0 and 'x:qout' in st.mem and 'x:qid' in st.mem:
            e = self.eng
            for x in a.args:
                if x.op == 'sha' and x.args[0].op == 'reg':
                    n = x.args[0].args[2]
                    if hash_of(e, st, 'x:qout', C(64, 0), n, ids(e, st)):
                        st.ghost['V.len'] = n
                        setts(st, match=1)
    def on_access(self, st, oid, off, n, write, inst, what):
        if write and oid == 'x:qout' and st.ts.get('match'):
            setts(st, match=None)
    def verified(self, st, out, n):
        if st.ts.get('match') and out == 'x:qout' and same(st.F, n, st.ghost.get('V.len')):
            return True
        return hash_of(self.eng, st, out, C(64, 0), n, ids(self.eng, st))
    def gone(self, st):
        setts(st, match=None)
        st.ghost.pop('V.len', None)
    def on_query_ret(self, st, store, id, out, max, ret, fn):
        e = self.eng
        t = cond(st, 'sgt', ret, C(64, 0))
        if t is None:
            return
        e.sites.setdefault('delivered', set()).add(fn)
        if t.F.decide('ule', ret, max) is not True:
            e.report(t, 'C01', '%s claims to have delivered more than there is room for' % fn)
            e.report(t, 'C18', '%s claims to have delivered more than there is room for' % fn)
        if not self.verified(t, out, ret):
            for p in self.ps:
                e.report(t, p, '%s delivers data whose hash was not found equal to the chunk ID' % fn)
        if t.ts.get('qio'):
            e.report(t, 'C04', '%s delivers a chunk although %s failed' % (fn, t.ts['qio']))
    ps = ('C01',)

class ReadOnly:
    """C11: nothing but reading"""
    def rep(self, st, m, inst):
        self.eng.report(st, 'C11', m, inst)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via is not None:
            return
        self.eng.site('open', inst)
        if flags is None or flags & 3 or flags & 0o1100:
            self.rep(st, 'a file of a store is opened for more than reading', inst)
    def on_iocall(self, st, op, fd, inst, **_):
        if 'write' in op:
            self.rep(st, 'a store writes to a file', inst)
    def on_unlink(self, st, inst, **_):
        self.rep(st, 'a file is removed', inst)

class Local(Answer):
    ps = ('C01', 'C09')
    def __init__(self):
        self.rel = {}           # loaded value -> offset in the entry
        self.marks = []         # (offset, mask, state) of failures because of a marked entry
        self.given = {}         # offset -> values of new side-loaded entries
    def on_loaded(self, st, oid, off, n, val, inst):
        h = st.ghost.get('L.hit')
        if h is not None and n == 4 and oid.startswith('h:') and st.ts.get('inq'):
            b, o = ae.ptr_split(h)
            if b is not None and b.op == 'a' and b.aux == oid:
                d = st.F.const(sub(off, o))
                if d is not None:
                    self.rel[val] = d
    def on_assume(self, st, pred, a, b):
        Answer.on_assume(self, st, pred, a, b)
        if st.ts.get('inq') and pred == 'ne' and a.op == 'and' and st.F.const(b) == 0:
            for x, m in (a.args, a.args[::-1]):
                if x in self.rel and st.F.const(m):
                    setts(st, marked=(self.rel[x], st.F.const(m)))
    def on_frame_exit(self, st, fn, ret, locals):
        if fn.name == 'index_insert' and st.ts.get('ins') and st.F.const(ret) != 0:
            st.ghost['E.new'] = ret
    def finish(self):
        for d, m, st in self.marks:
            vs = self.given.get(d, {None})
            if any(v is None or v & m for v in vs):
                self.rep(st, 'the store fails because of its side-loaded index without being scanned')
                break
    def rep(self, st, m, inst=None, p='C09'):
        self.eng.report(st, p, m, inst)
    def note_io(self, st, w):
        setts(st, qio=w)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via is not None:
            return
        F = st.F
        if same(F, path, addr('x:path')):
            if fd is None:
                setts(st, why='the store cannot be opened')
            else:
                st.ghost['L.fd'] = fd
                setts(st, opened=1)
        elif fd is not None:
            st.ghost['X.fd'] = fd
            if not same(F, path, addr('x:index')):
                self.rep(st, 'another file than the store and its index is opened', inst, 'C27')
    def on_allocfail(self, st, inst):
        setts(st, why='memory')
    def on_header_ok(self, st, fd, n, inst, params=None):
        e = self.eng
        st.ghost['X.hfd'] = fd
        st.ghost['X.n'] = n
        if params is not None:
            for k in range(3):
                st.ghost['X.p%d' % k] = e.content(st, params[0], add(params[1], C(64, 4 * k)), 4)
        setts(st, shdr=1)
    def on_header_bad(self, st, fd, inst):
        setts(st, shdr=0)
    def on_io(self, st, op, res, fd=None, inst=None, **kw):
        if op == 'fstat':
            # for the size of what is about to be scanned
            setts(st, tried=1, rd=None, qio=None, look=None, val=None, why=None, match=None, marked=None)
        if res in ('ok', 'eintr'):
            if op == 'preadall':
                setts(st, rd=1)
            return
        if op != 'close' and (fd is None or 'L.fd' in st.ghost and same(st.F, fd, st.ghost['L.fd'])):
            setts(st, qio=op, why='%s of the store failed' % op)
    def params_same(self, st):
        g, e = st.ghost, self.eng
        return all('X.p%d' % k in g and same(st.F, g['X.p%d' % k], e.content(st, 'x:params', C(64, 4 * k), 4)) for k in range(3))
    def on_entries(self, st, kind, fd, params, n, inst):
        e, g, F = self.eng, st.ghost, st.F
        e.site(kind, inst)
        if kind == 'chunker_scan_fd':
            if st.ts.get('ent'):
                self.rep(st, 'the store is scanned while entries of a previous index are still there', inst)
            if st.ts.get('inq'):
                if st.ts.get('scanned'):
                    self.rep(st, 'the store is scanned more than once for a query', inst)
                setts(st, scanned=1)
            if not same(F, fd, g.get('L.fd')):
                self.rep(st, 'something else than the store is scanned', inst)
                self.rep(st, 'something else than the store is scanned', inst, 'C20')
            o, of = ext.buf(e, st, params, 12, False, inst, 'params')
            if o is None or not all(same(F, e.content(st, o, add(of, C(64, 4 * k)), 4), e.content(st, 'x:params', C(64, 4 * k), 4)) for k in range(3)):
                self.rep(st, 'the store is scanned with other parameters than asked for', inst, 'C20')
            setts(st, ix='scan', ent=None, why=None, qio=None, rd=None, look=None, val=None, tried=None, shdr=None, sbad=None)
            for k in [k for k in st.ghost if k.startswith('X.')]:
                st.ghost.pop(k)
        else:
            if st.ts.get('shdr') != 1 or not same(F, fd, g.get('X.hfd')) or n is not None and not same(F, n, g.get('X.n')) or not same(F, fd, g.get('X.fd')):
                self.rep(st, 'entries are taken from something else than a valid index', inst)
            if st.ts.get('ent'):
                self.rep(st, 'an index is loaded while entries of another one are still there', inst)
            setts(st, ix='side', sbad=None if self.params_same(st) else 1)
    def on_entry(self, st, kind, off, ln, id, inst):
        g = st.ghost
        g['E.off'], g['E.len'], g['E.id'] = off, ln, id
        setts(st, ins=None)
    def on_enter(self, st, fn, args, inst):
        if fn.name == 'index_insert' and len(args) == 4 and 'E.off' in st.ghost:
            e, g, F = self.eng, st.ghost, st.F
            o, of = ext.buf(e, st, args[3], 32, False, inst, 'index_insert')
            ok = same(F, args[1], g['E.off']) and same(F, args[2], g['E.len']) and o is not None and same(F, e.content(st, o, of, 32), g['E.id'])
            e.site('insert', inst)
            if not ok:
                self.rep(st, 'a chunk is added to the index with another position, length or ID than it has', inst, 'C20')
            setts(st, ins=1, ent=1)
    def on_entry_ret(self, st, kind, ok, inst):
        e = st.ghost.pop('E.new', None)
        if ok and e is not None and kind == 'caibx_iterate_entries':
            b, o = ae.ptr_split(e)
            if b is not None and b.op == 'a' and b.aux in st.mem:
                for d in range(0, 64, 4):
                    v = self.eng.content(st, b.aux, add(o, C(64, d)), 4)
                    self.given.setdefault(d, set()).add(st.F.const(v))
        if ok and not st.ts.get('ins'):
            self.rep(st, 'a chunk of the store is not added to the index', inst, 'C20')
        for k in ('E.off', 'E.len', 'E.id'):
            st.ghost.pop(k, None)
        setts(st, ins=None)
    def on_entries_ret(self, st, kind, ok, inst):
        if kind == 'chunker_scan_fd':
            setts(st, ix='scan' if ok else None, tried=1, why=None if ok else 'scanning the store failed')
        else:
            setts(st, ix='side' if ok and not st.ts.get('sbad') else 'bad')
    def on_free(self, st, oid, inst):
        setts(st, ent=None)
    def on_ctor_ret(self, st, fn, ret):
        F = st.F
        if F.const(ret) == 0:
            if not st.ts.get('why') and (st.ts.get('ix') in ('scan', 'side') or not st.ts.get('tried')):
                self.rep(st, 'the store is refused although it can be opened and scanned')
        else:
            self.eng.sites.setdefault('created', set()).add(fn)
            if not st.ts.get('opened'):
                self.rep(st, 'a store is created without its file', None, 'C04')
            ix = st.ts.get('ix')
            if ix == 'bad':
                self.rep(st, 'a side-loaded index is used although it is malformed or for other chunk size parameters')
            elif ix not in ('side', 'scan'):
                self.rep(st, 'a store is created although %s' % (st.ts.get('why') or 'it was neither scanned nor an index loaded'), None, 'C04')
                self.rep(st, 'a store is created that was neither scanned successfully nor given an index')
        setts(st, why=None, qio=None, opened=None, shdr=None, sbad=None, tried=None)
    # ------------------------------------------------------------ queries
    def on_query(self, st, **_):
        setts(st, inq=1, scanned=None, qio=None, look=None, rd=None, why=None, tried=None)
    def on_bsearch_res(self, st, found, key, base, n, inst):
        setts(st, look='hit' if found is not None else 'miss', rd=None, marked=None)
        if found is not None:
            st.ghost['L.hit'] = found
            if 'E.off' in st.ghost:
                setts(st, ins=1)        # already there
        else:
            st.ghost.pop('L.hit', None)
    def on_query_ret(self, st, store, id, out, max, ret, fn):
        Answer.on_query_ret(self, st, store, id, out, max, ret, fn)
        ts = st.ts
        hit = cond(st, 'sgt', ret, C(64, 0))
        neg = cond(st, 'slt', ret, C(64, 0))
        zero = cond(st, 'eq', ret, C(64, 0))
        if neg is not None and not ts.get('scanned') and not ts.get('tried'):
            if ts.get('rd') == 1 and not ts.get('qio') and not ts.get('match'):
                self.rep(neg, 'the store fails on content that differs from its index without being scanned again')
            elif ts.get('ix') == 'side' and not ts.get('val') and ts.get('look') == 'hit':
                if ts.get('marked'):
                    self.marks.append(ts['marked'] + (neg,))
                else:
                    self.rep(neg, 'the store fails because of its side-loaded index without being scanned')
        if zero is not None and ts.get('look') == 'hit' and not ts.get('match'):
            self.rep(zero, 'the store denies having a chunk its index lists, without %s' % ('hashing it' if not ts.get('rd') else 'scanning again'))
        setts(st, inq=None, scanned=None, qio=None, look=None, rd=None, why=None, tried=None, marked=None)
        st.ghost.pop('L.hit', None)
        self.gone(st)
        if ts.get('match'):
            setts(st, val=1)

class Target(Answer):
    """C01, C04, C10, C11, C23, C26: the operations of the target"""
    ps = ('C01', 'C26')
    def rep(self, st, p, m, inst=None):
        self.eng.report(st, p, m, inst)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via is not None:
            return
        e, F = self.eng, st.F
        e.site('open', inst)
        if flags is None or flags & 0o1300:
            self.rep(st, 'C11', 'the target is opened with flags that create or truncate it', inst)
        if not same(F, path, addr('x:path')):
            self.rep(st, 'C11', 'another file than the target is opened', inst)
        if fd is None:
            setts(st, noopen=1)
        else:
            st.ghost['T.fd'] = fd
            setts(st, opened=1)
    def on_allocfail(self, st, inst):
        setts(st, nomem=1)
    def on_ctor_ret(self, st, fn, ret):
        if st.F.const(ret) != 0 and not st.ts.get('opened'):
            self.rep(st, 'C04', 'a target is created without its file')
        setts(st, opened=None, noopen=None, nomem=None)
    def on_unlink(self, st, inst, **_):
        self.rep(st, 'C11', 'a file is removed', inst)
    # ------------------------------------------------------------ transfers
    def on_iocall(self, st, op, fd, oid, boff, want, off, inst):
        e, g, F = self.eng, st.ghost, st.F
        if 'write' not in op:
            return
        e.site('write', inst)
        if not same(F, fd, g.get('T.fd')):
            self.rep(st, 'C11', 'something else than the target is written to', inst)
        if st.ts.get('op') != 'target_write':
            self.rep(st, 'C11', 'the target is written to by something else than a write operation', inst)
            return
        if oid != 'x:qout' or F.const(boff) != 0 or not same(F, want, g['O.len']) or op != 'pwriteall' or not same(F, off, g['O.off']):
            self.rep(st, 'C01', 'what is written is not exactly the given data at the given position', inst)
        setts(st, wrote=None)
    def on_io(self, st, op, res, fd=None, inst=None, oid=None, boff=None, want=None, off=None, **kw):
        e, g, F = self.eng, st.ghost, st.F
        o = st.ts.get('op')
        mine = 'T.fd' in g and fd is not None and same(F, fd, g['T.fd'])
        if res not in ('ok', 'eintr'):
            setts(st, qio=op)
        elif 'write' in op and mine:
            setts(st, wrote=1, synced=None)
        elif op == 'fsync':
            e.site('sync', inst)
            if mine:
                setts(st, synced=1)
        elif 'pread' in op:
            if mine and o == 'target_check_chunk' and op == 'preadall' and oid == 'x:qout' and F.const(boff) == 0 and same(F, want, g['O.len']) and same(F, off, g['O.off']):
                setts(st, rd=1)
            elif not mine:
                self.rep(st, 'C10', 'something else than the target is read', inst)
    # ------------------------------------------------------------ operations
    def clear(self, st, **kw):
        setts(st, wrote=None, rd=None, qio=None, synced=None, kept=None, nomem=None, look=None, **kw)
        self.gone(st)
    def on_target_op(self, st, op, id, buf, len, off):
        g = st.ghost
        g['O.len'], g['O.off'] = len, off
        self.clear(st, op=op)
    def on_enter(self, st, fn, args, inst):
        if fn.name == 'index_insert' and st.ts.get('op') and len(args) == 4:
            e, g, F = self.eng, st.ghost, st.F
            e.site('offered', inst)
            o, of = ext.buf(e, st, args[3], 32, False, inst, 'index_insert')
            if st.ts['op'] == 'query':
                self.rep(st, 'C26', 'a query adds chunks', inst)
                return
            ok = same(F, args[1], g['O.off']) and same(F, zext(args[2], 64), g['O.len']) and o is not None and same(F, e.content(st, o, of, 32), ids(e, st))
            if not ok:
                self.rep(st, 'C26', 'a chunk is offered at another position, length or ID than it has', inst)
            setts(st, kept=1)
    def on_bsearch_res(self, st, found, key, base, n, inst):
        setts(st, look='hit' if found is not None else 'miss')
        if found is not None and st.ts.get('op') != 'query':
            setts(st, kept=1)
    def offered(self, st, op):
        if st.ts.get('store') and not st.ts.get('kept') and not st.ts.get('nomem'):
            self.rep(st, 'C26', '%s does not offer the chunk to later queries although the target is a store' % op)
    def on_target_op_ret(self, st, op, id, buf, len, off, ret):
        e, g = self.eng, st.ghost
        z = C(32, 0)
        ts = st.ts
        e.sites.setdefault('operation', set()).add(op)
        if op == 'target_check_chunk':
            yes, no = cond(st, 'sgt', ret, z), cond(st, 'eq', ret, z)
            if yes is not None:
                if not ts.get('rd') or ts.get('qio'):
                    self.rep(yes, 'C10', 'a chunk is said to be on the target that was not read from there')
                    if ts.get('qio'):
                        self.rep(yes, 'C04', 'a chunk is said to be on the target although %s failed' % ts['qio'])
                elif not self.verified(yes, buf, len):
                    self.rep(yes, 'C10', 'a chunk is said to be on the target whose hash was not found equal to its ID')
                    self.rep(yes, 'C01', 'a chunk is said to be on the target whose hash was not found equal to its ID')
                self.offered(yes, op)
            if no is not None:
                if ts.get('rd') and self.verified(no, buf, len):
                    self.rep(no, 'C10', 'a chunk on the target is not recognised')
                if ts.get('kept'):
                    self.rep(no, 'C26', 'a chunk is offered that is not on the target')
            neg = cond(st, 'slt', ret, z)
            if neg is not None:
                if not ts.get('qio'):
                    self.rep(neg, 'C10', 'checking a chunk fails although the target was read')
                if ts.get('kept'):
                    self.rep(neg, 'C26', 'a chunk is offered that is not on the target')
        elif op == 'target_write':
            ok, neg = cond(st, 'sge', ret, z), cond(st, 'slt', ret, z)
            if ok is not None:
                if ts.get('qio'):
                    self.rep(ok, 'C04', 'writing to the target is said to have succeeded although %s failed' % ts['qio'])
                if not ts.get('wrote'):
                    self.rep(ok, 'C01', 'writing to the target is said to have succeeded although nothing was written')
                    self.rep(ok, 'C02', 'writing to the target is said to have succeeded although nothing was written')
                self.offered(ok, op)
            if neg is not None:
                if not ts.get('qio'):
                    self.rep(neg, 'C02', 'writing to the target is said to have failed although it was written')
                if ts.get('kept'):
                    self.rep(neg, 'C26', 'a chunk is offered that was not written')
        elif op == 'target_sync':
            ok = cond(st, 'sge', ret, z)
            if ok is not None:
                if ts.get('qio'):
                    self.rep(ok, 'C04', 'a failed sync of the target is said to have succeeded')
                if not ts.get('synced'):
                    self.rep(ok, 'C23', 'the target is said to be synced although it was not')
        self.clear(st, op=None)
    def on_as_store_ret(self, st, ret):
        p = st.env.get('$store')
        c = st.F.const(ret)
        if c == 0:
            if not st.ts.get('nomem'):
                self.rep(st, 'C26', 'the target cannot be used as a store although memory is available')
        else:
            b, o = ae.ptr_split(ret)
            b2, o2 = ae.ptr_split(p)
            if b is not b2:
                self.rep(st, 'C26', 'another store than the target stands for the target')
            setts(st, store=1)
        self.clear(st)
    def on_query(self, st, **_):
        self.clear(st, op='query')
    def on_query_ret(self, st, store, id, out, max, ret, fn):
        Answer.on_query_ret(self, st, store, id, out, max, ret, fn)
        ts = st.ts
        z = C(64, 0)
        if ts.get('store'):
            if not ts.get('look') and not cond(st, 'slt', ret, z):
                n = st.ts
                self.rep(st, 'C26', 'the target is asked as a store and does not look for the chunk')
        if ts.get('look') == 'hit' and not ts.get('qio'):
            neg = cond(st, 'slt', ret, z)
            if neg is not None and not self.toobig(neg):
                self.rep(neg, 'C26', 'the target as a store fails although it could be read')
        self.clear(st, op=None)
    def toobig(self, st):
        return not st.ts.get('anyread')

class Chain:
    """C06: each store once, in order, until one has the chunk"""
    def __init__(self):
        self.live = {}          # offset in the element -> (size, value given to it when a store is added)
        self.ES = None          # size of an element
        self.p0 = 0             # offset of the pointer in it
        self.tested = None      # offset of the flag
        self.weird = set()      # offsets of what is not always the same when a store is added
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C06', m, inst)
    def on_ctor_ret(self, st, fn, ret):
        if st.F.const(ret) != 0:
            st.ghost['C.n'] = C(64, 0)
            b = ae.ptr_split(ret)[0]
            st.ts = dict(st.ts, made=1, self=b.aux if b.op == 'a' else '')
    def on_allocfail(self, st, inst):
        setts(st, nomem=1)
    def on_ext(self, st, name, args, inst):
        # the size of an element is what the number of elements is multiplied with
        if self.ES is None and name in ('calloc', 'reallocarray'):
            c = [st.F.const(a) for a in args[-2:]]
            if None in c and c != [None, None]:
                self.ES = c[0] or c[1]
        elif self.ES is None and name == 'malloc':
            c, d = lin_parts(st.F.norm(args[0]))
            if len(d) == 1:
                self.ES = abs(list(d.values())[0])
    def isarr(self, st, oid):
        return oid.startswith('h:') and oid != st.ts.get('self')
    def stride(self):
        return self.ES or 1 << 20
    def at(self, st, off, i):
        """offset within element i, or None"""
        d = st.F.const(sub(off, mulc(i, self.stride())))
        return d if d is not None and 0 <= d < self.stride() else None
    def on_store(self, st, oid, off, n, val, vol, inst):
        g, F = st.ghost, st.F
        if not st.ts.get('made') or not oid.startswith('h:'):
            return
        if val.op == 'a' and val.aux == 'x:sub' and n == 8:
            self.eng.site('append', inst)
            c, d = lin_parts(off)
            if len(d) == 1:
                self.ES = abs(list(d.values())[0])
                self.p0 = c % self.ES
            if self.at(st, off, g['C.n']) != self.p0:
                self.rep(st, 'a store is not added at the end of the chain', inst)
            g['C.at'] = off
            if st.ts.get('stray') == oid:
                self.rep(st, 'adding a store changes those added before', inst)
            setts(st, apd=oid, stray=None)
            return
        if not st.ts.get('inq'):
            self.stray(st, oid, off, inst)
        elif n == 8 and self.ES and self.isarr(st, oid) and not st.ts.get('failed'):
            k, ds = lin_parts(off)
            if k % self.ES == self.p0 and all(x % self.ES == 0 for x in ds.values()):
                self.rep(st, 'a query changes the order of the stores', inst)
        if not self.isarr(st, oid) or n > 4:
            return
        c = F.const(val)
        if st.ts.get('apd') and c is None:
            d = F.const(sub(off, g['C.at']))
            if d is not None:
                self.weird.add(self.p0 + (((d + (1 << 63)) % (1 << 64)) - (1 << 63)))
        if st.ts.get('inq') and self.ES:
            k, ds = lin_parts(off)
            d = k % self.ES
            if d == self.tested and d in self.live and all(x % self.ES == 0 for x in ds.values()) and \
               F.decide('eq', val, C(val.w, self.live[d][1])) is not False:
                # that of the store just asked, which did not fail, is set already
                if 'C.last' not in g or self.at(st, off, g['C.last']) != d or st.ts.get('failed'):
                    self.rep(st, 'a store that failed before may be asked again', inst)
        if st.ts.get('inq') and c is None and not st.ts.get('failed') and 'C.last' in g:
            d = self.at(st, off, g['C.last'])
            if d in self.live and self.tested == d and F.decide('eq', val, C(val.w, self.live[d][1])) is not True:
                self.rep(st, 'a store that did not fail may be dropped', inst)
            return
        if st.ts.get('apd') and c is not None:
            d = F.const(sub(off, g['C.at']))
            if d is not None:
                d = ((d + (1 << 63)) % (1 << 64)) - (1 << 63)
                self.live[self.p0 + d] = (n, c)
        if not st.ts.get('inq') or c is None or 'C.last' not in g:
            return
        d = self.at(st, off, g['C.last'])
        if d in self.live and self.live[d][1] != c:
            if st.ts.get('failed'):
                setts(st, failed=None)
                self.eng.site('drop', inst)
            elif self.tested is d:
                self.rep(st, 'a store that did not fail is dropped', inst)
    def stray(self, st, oid, off, inst):
        g, F = st.ghost, st.F
        if oid == st.ts.get('self') or self.ES is None:
            return
        if F.decide('uge', off, mulc(g['C.n'], self.ES)) is True:
            return
        if st.ts.get('apd') == oid:
            self.rep(st, 'adding a store changes those added before', inst)
        elif not st.ts.get('apd'):
            setts(st, stray=oid)
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if not st.ts.get('made') or not dst.startswith('h:'):
            return
        if st.ts.get('inq'):
            if self.isarr(st, dst) and not st.ts.get('failed') and not (src == dst and st.F.decide('eq', soff, doff) is True):
                self.rep(st, 'a query changes the order of the stores', inst)
            return
        k = st.F.const(n)
        if k is not None and k <= 256 and not src.startswith('h:'):
            # an element that was put together elsewhere
            for j in range(0, k - 7, 8):
                v = self.eng.content(st, src, add(soff, C(64, j)), 8)
                if v is not None and v is addr('x:sub'):
                    self.on_store(st, dst, add(doff, C(64, j)), 8, v, False, inst)
                    for i in range(k):
                        if not j <= i < j + 8:
                            v = self.eng.content(st, src, add(soff, C(64, i)), 1)
                            if v is not None:
                                self.on_store(st, dst, add(doff, C(64, i)), 1, v, False, inst)
                    return
        # moving all of them to a new array is not a change
        if st.F.decide('eq', soff, doff) is not True or src == dst:
            self.stray(st, dst, doff, inst)
    def on_append_ret(self, st, ret):
        g = st.ghost
        if 'C.at' in g:
            g.pop('C.at')
        if st.F.sb(ret)[0] >= 0:
            if not st.ts.get('apd'):
                self.rep(st, 'a store is said to be added that was not')
            else:
                g['C.n'] = add(g['C.n'], C(64, 1))
        elif not st.ts.get('nomem'):
            self.rep(st, 'a store is not added')
        setts(st, apd=None, nomem=None, stray=None)
    # ------------------------------------------------------------ queries
    def on_query(self, st, **_):
        for k in ('C.last', 'C.ret', 'C.fl', 'C.floff', 'C.ptr', 'C.poff'):
            st.ghost.pop(k, None)
        st.ghost['C.i'] = C(64, 0)
        setts(st, inq=1, failed=None, hit=None)
    def on_loaded(self, st, oid, off, n, val, inst):
        g, F = st.ghost, st.F
        if not st.ts.get('inq') or not self.isarr(st, oid):
            return
        if n == 8:
            g['C.ptr'], g['C.poff'] = val, off
        elif n <= 4 and not st.ts.get('failed'):
            d = self.at(st, off, g['C.i'])
            if d in self.live:
                if st.F.decide('eq', val, C(val.w, self.live[d][1])) is False:
                    self.skip(st, d, inst)
                else:
                    g['C.fl'], g['C.floff'] = val, off
            elif d in self.weird:
                g['C.fl'], g['C.floff'] = val, off
    def on_assume(self, st, pred, a, b):
        g = st.ghost
        if not st.ts.get('inq') or 'C.fl' not in g or st.ts.get('failed'):
            return
        d = self.at(st, g['C.floff'], g['C.i'])
        if d is None:
            return
        if d in self.weird and self.without(a, b, g['C.fl'], 1) is not None:
            self.rep(st, 'a store may be left out although it did not fail')
        if d not in self.live:
            return
        n, c = self.live[d]
        if st.F.decide('eq', g['C.fl'], C(g['C.fl'].w, c)) is False or \
           pred in ('eq', 'ne') and self.without(a, b, g['C.fl'], c) == (pred == 'ne'):
            self.skip(st, d, None)
    def without(self, a, b, fl, c):
        """are a and b equal when fl is c? None: not known"""
        def ev(n):
            if n is fl:
                return c
            if n.op == 'c':
                return n.aux
            if n.op in ('trunc', 'zext'):
                v = ev(n.args[0])
                return None if v is None else v & ((1 << n.w) - 1)
            if n.op == 'and':
                x, y = ev(n.args[0]), ev(n.args[1])
                return None if x is None or y is None else x & y
        a, b = ev(a), ev(b)
        return None if a is None or b is None else a == b
    def skip(self, st, d, inst):
        g = st.ghost
        self.eng.site('skip', inst)
        self.tested = d
        g.pop('C.fl', None)
        g.pop('C.floff', None)
        g['C.i'] = add(g['C.i'], C(64, 1))
    def undropped(self, st, inst=None):
        if st.ts.get('failed'):
            self.rep(st, 'a store that failed is not dropped', inst)
            setts(st, failed=None)
    def on_get_chunk(self, st, store, id, out, max, inst, oo):
        e, g, F = self.eng, st.ghost, st.F
        e.site('get_chunk', inst)
        self.undropped(st, inst)
        if st.ts.get('hit'):
            self.rep(st, 'another store is asked although one had the chunk', inst)
        if 'C.ptr' not in g or not same(F, store, g['C.ptr']) or self.at(st, g['C.poff'], g['C.i']) != self.p0:
            self.rep(st, 'a store is asked out of order or another one is left out', inst)
        if not same(F, id, ids(e, st)) or not same(F, out, addr('x:qout')) or F.decide('ule', max, st.mem['x:qout'].size) is not True:
            self.rep(st, 'a store is not asked for the chunk the chain was asked for', inst)
    def on_get_chunk_res(self, st, res, n, store, id, inst, oo, of):
        g = st.ghost
        g['C.last'] = g['C.i']
        g['C.i'] = add(g['C.i'], C(64, 1))
        for k in ('C.fl', 'C.floff', 'C.ptr', 'C.poff'):
            g.pop(k, None)
        if res == 'fail':
            setts(st, failed=1)
        elif res == 'hit':
            g['C.ret'] = n
            setts(st, hit=1)
    def on_query_ret(self, st, store, id, out, max, ret, fn):
        e, g, F = self.eng, st.ghost, st.F
        self.undropped(st)
        pos = cond(st, 'sgt', ret, C(64, 0))
        if pos is not None:
            if not st.ts.get('hit') or not same(F, ret, g.get('C.ret')):
                self.rep(pos, 'the chain delivers something else than what a store delivered')
                e.report(pos, 'C01', 'the chain delivers something else than what a store delivered')
        elif st.ts.get('hit'):
            self.rep(st, 'the chain does not deliver the chunk although a store had it')
        elif F.decide('eq', g['C.i'], g['C.n']) is not True:
            self.rep(st, 'the chain gives up before all stores were asked')
        for k in ('C.last', 'C.ret', 'C.fl', 'C.floff', 'C.ptr', 'C.poff'):
            g.pop(k, None)
        g['C.i'] = C(64, 0)
        setts(st, inq=None, failed=None, hit=None)
    def on_store_free(self, st, store, inst):
        self.eng.site('release', inst)
