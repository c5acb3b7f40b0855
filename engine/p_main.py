"""Rules for the extraction program as a whole (scenario main): the operations
of the target, the stores and the index file are contracts, each of which is
checked against its implementation in another scenario."""
from nodes import *
import ae, ext
from ae import sext, zext

def wide_ne(F, a, b):
    if F.decide('eq', a, b) is False:
        return True
    if a.w <= 64:
        return False
    ca, cb = F.wide_class(a), F.wide_class(b)
    for x in ca:
        for y in cb:
            if frozenset((x, y)) in F.ne:
                return True
            for p, q in ((x, y), (y, x)):
                if F.decide('eq', mk('memcmp', 32, (p, q)), C(32, 0)) is False:
                    return True
    return False

def same(F, a, b):
    if a is None or b is None:
        return False
    if a is b:
        return True
    if a.w > 64:
        return F.wide_eq(a, b)
    if a.w != b.w:
        w = max(a.w, b.w)
        a, b = zext(a, w), zext(b, w)
    return F.decide('eq', a, b) is True

def hash_of(eng, st, oid, boff, n, idv):
    """the digest of these n bytes is known to equal idv"""
    if oid is None:
        return False
    F = st.F
    v = ext.sha_node(eng, st, oid, boff, n)
    if F.wide_eq(v, idv):
        return True
    r = v.args[0]
    for x in F.wide_class(idv):
        if x.op == 'sha':
            q = x.args[0]
            if q.args[0] is r.args[0] and same(F, q.args[1], r.args[1]) and same(F, q.args[2], r.args[2]):
                return True
    return False

def setts(st, **kw):
    st.ts = dict(st.ts)
    for k, v in kw.items():
        if v is None:
            st.ts.pop(k, None)
        else:
            st.ts[k] = v

class Main:
    def rep(self, st, p, msg, inst=None):
        self.eng.report(st, p, msg, inst)

    # ------------------------------------------------------------ set-up
    def on_start(self, st, **_):
        st.ts['ph'] = 'start'
        st.ghost['next'] = C(32, 3)

    def on_streq(self, st, a, b, ca, cb, n, eq, inst):
        c = ca if ca is not None else cb
        if c in (b'csn', b'casync') and st.ts.get('ph') == 'start' and 'app' not in st.ts and n is None:
            if eq:
                setts(st, app=c.decode())
        if c == b'extract' and n is None:
            self.eng.site('extract', inst)
            setts(st, extract=1 if eq else 0)

    def argpos(self, v):
        return self.eng.argv.pos.get(v)

    def is_arg(self, st, v, k):
        """v is argv[k] (k >= 0) or argv[argc+k]"""
        off = self.argpos(v)
        if off is None:
            return False
        w = C(64, 8 * k) if k >= 0 else mulc(add(zext(self.eng.argv.argc, 64), C(64, k)), 8)
        return same(st.F, off, w)

    def role(self, st, v):
        app = st.ts.get('app')
        if app == 'csn':
            return {'index': self.is_arg(st, v, 1), 'target': self.is_arg(st, v, 2)}
        if app == 'casync':
            return {'index': self.is_arg(st, v, -2), 'target': self.is_arg(st, v, -1)}
        return {}

    def on_open(self, st, fd, path, flags, inst, via=None):
        e = self.eng
        e.site('open', inst)
        if via is None and (flags is None or flags & 3 != 0 or flags & 0o1100):
            self.rep(st, 'C11', 'a file other than the target is opened for writing, created or truncated', inst)
        if via is not None:
            return
        if self.role(st, path).get('index'):
            if fd is None:
                setts(st, bad='the index cannot be opened')
            else:
                st.ghost['I.fd'] = fd

    def on_iocall(self, st, op, fd, inst, **_):
        if 'write' in op:
            self.rep(st, 'C11', 'data is written outside of the operations of the target', inst)

    def on_unlink(self, st, inst, **_):
        self.rep(st, 'C11', 'a file is removed', inst)

    def on_header_ok(self, st, fd, n, inst, params=None):
        e = self.eng
        e.site('header', inst)
        if not same(st.F, fd, st.ghost.get('I.fd')):
            self.rep(st, 'C27', 'the loaded index is not the one named on the command line', inst)
        st.ghost['H.fd'] = fd
        st.ghost['H.n'] = n
        setts(st, hdr=1)

    def on_header_bad(self, st, fd, inst):
        setts(st, bad='the index was refused')

    def on_target_new(self, st, ok, args, inst, ptr):
        e = self.eng
        e.site('target_new', inst)
        if not st.ts.get('hdr'):
            self.rep(st, 'C03', 'the target is opened before the index was found to be valid', inst)
        if not self.role(st, args[0]).get('target'):
            self.rep(st, 'C27', 'the target is not the one named on the command line', inst)
        if ok:
            st.ghost['T'] = ptr
            setts(st, tgt=1)
        else:
            setts(st, bad='the target cannot be opened')

    # ------------------------------------------------------------ stores
    def made(self, st, ok, arg, ptr, inst, what):
        e = self.eng
        e.site('store', inst)
        if not ok:
            setts(st, bad='a store cannot be created')
            return
        st.ghost['S.ptr'] = ptr
        if arg is not None:
            st.ghost['S.arg'] = arg
        setts(st, made=1)

    def on_store_new(self, st, ok, args, inst, ptr):
        if st.ts.get('ph') != 'start':
            self.rep(st, 'C27', 'a store is created after extraction has started', inst)
        if st.ts.get('tgt') != 1:
            self.rep(st, 'C27', 'a store is created before the target was opened', inst)
        self.made(st, ok, args[0], ptr, inst, 'store')

    def on_target_as_store(self, st, ok, target, inst):
        if not same(st.F, target, st.ghost.get('T')):
            self.rep(st, 'C26', 'another object than the target is used as its store', inst)
        st.ghost.pop('S.arg', None)
        self.made(st, ok, None, target, inst, 'target')
        # which argument it was for is only known from the comparison
        a = st.ghost.get('cmp.arg')
        if a is not None:
            st.ghost['S.arg'] = a

    def on_strcmp(self, st, a, b, eq, inst):
        pass

    def on_option(self, st, opt, val, arg, inst):
        e = self.eng
        e.site('option', inst)
        if st.ts.get('pend'):
            for p in ('C06', 'C27'):
                self.rep(st, p, 'a store given on the command line is not added', inst)
        if opt == '?':
            setts(st, reject='an unknown option')
        elif opt in ('h', 'help'):
            setts(st, help=1)
        elif opt in ('store', 'seed'):
            setts(st, pend=1)
            st.ghost['O.arg'] = arg
        if opt is None:
            setts(st, opts_done=1)
            oi = self.eng.global_obj(st, 'optind')
            st.ghost['optind'] = self.eng.load(st, oi, NULL, 4)

    def on_chain_new(self, st, ok, args, inst, ptr):
        if ok:
            st.ghost['chain'] = ptr
        else:
            setts(st, bad='no store chain')

    def on_chain_append(self, st, ok, chain, store, inst):
        e = self.eng
        e.site('append', inst)
        if not ok:
            setts(st, bad='a store cannot be added')
            return
        if not same(st.F, chain, st.ghost.get('chain')):
            for p in ('C06', 'C27'):
                self.rep(st, p, 'a store is added to another chain', inst)
        if st.ts.get('made') != 1 or not same(st.F, store, st.ghost.get('S.ptr')):
            for p in ('C06', 'C27'):
                self.rep(st, p, 'what is added to the chain is not the store created for this argument', inst)
            return
        arg = st.ghost.get('S.arg')
        if st.ts.get('app') == 'csn':
            nx = st.ghost.get('next')
            if arg is not None:
                pos = self.argpos(arg)
                if pos is None or not same(st.F, pos, mulc(zext(nx, 64), 8)):
                    for p in ('C06', 'C27'):
                        self.rep(st, p, 'the stores are not added in the order of the command line', inst)
            st.ghost['next'] = add(nx, C(32, 1))
        else:
            if not st.ts.get('pend'):
                self.rep(st, 'C27', 'a store is added that was not given as an option', inst)
            elif arg is not None and not same(st.F, arg, st.ghost.get('O.arg')):
                for p in ('C06', 'C27'):
                    self.rep(st, p, 'the store added is not the one given as an option', inst)
            setts(st, pend=None)
        setts(st, made=None)
        st.ghost.pop('S.ptr', None)
        st.ghost.pop('S.arg', None)

    # ------------------------------------------------------------ extraction
    def on_entries(self, st, kind, fd, params, n, inst):
        e = self.eng
        e.site('entries', inst)
        g = st.ghost
        F = st.F
        if not st.ts.get('hdr') or not st.ts.get('tgt'):
            self.rep(st, 'C27', 'extraction starts without a valid index and an open target', inst)
        if not same(F, fd, g.get('H.fd')) or n is not None and not same(F, n, g.get('H.n')):
            self.rep(st, 'C02', 'the entries iterated over are not all entries of the index', inst)
        b = st.ts.get('bad')
        if b:
            self.rep(st, 'C04' if 'opened' in b else 'C27', 'extraction starts although %s' % b, inst)
        if st.ts.get('reject') or st.ts.get('help'):
            self.rep(st, 'C27', 'extraction starts although %s was given' % (st.ts.get('reject') or 'the help option'), inst)
        if st.ts.get('app') == 'casync':
            if st.ts.get('extract') != 1:
                self.rep(st, 'C27', 'extraction starts without the extract command', inst)
            if not st.ts.get('opts_done') or st.ts.get('pend'):
                self.rep(st, 'C27', 'extraction starts before all options are handled', inst)
            elif F.decide('slt', sub(e.argv.argc, g['optind']), C(32, 3)) is not False:
                self.rep(st, 'C27', 'extraction starts although an argument is missing', inst)
        elif st.ts.get('app') == 'csn':
            nx = g.get('next')
            if nx is None or not same(F, nx, e.argv.argc):
                for p in ('C06', 'C27'):
                    self.rep(st, p, 'extraction starts before all stores given on the command line were added', inst)
            if F.decide('sle', e.argv.argc, C(32, 3)) is not False:
                self.rep(st, 'C27', 'extraction starts although an argument is missing', inst)
        else:
            self.rep(st, 'C27', 'extraction starts for an unknown command line', inst)
        if st.ts.get('ph') == 'ran':
            self.rep(st, 'C02', 'the entries are iterated over twice', inst)
        setts(st, ph='run', resume=1)

    def on_entry(self, st, kind, off, ln, id, inst):
        st.ghost['E.off'], st.ghost['E.len'], st.ghost['E.id'] = off, ln, id
        setts(st, done=None, chk=None, got=None)

    def cur(self, st, n, off, idv):
        g, F = st.ghost, st.F
        if 'E.off' not in g:
            return 'outside of the handling of an index entry'
        if not same(F, off, g['E.off']):
            return 'at another offset than the index entry has'
        if not same(F, n, g['E.len']):
            return 'with another length than the index entry has'
        if idv is not None and not same(F, idv, g['E.id']):
            return 'under another chunk ID'
        return None

    def on_target_check(self, st, res, target, oid, boff, n, off, id, inst):
        e = self.eng
        e.site('target_check', inst)
        if not same(st.F, target, st.ghost.get('T')):
            self.rep(st, 'C10', 'something else than the target is checked', inst)
        bad = self.cur(st, n, off, id)
        if st.ts.get('resume') == 0:
            self.rep(st, 'C10', 'an entry after the verified prefix is skipped by looking at the target', inst)
        if res == 'yes':
            setts(st, chk='yes')
            if bad is None:
                setts(st, done='found')
            else:
                setts(st, bad_chk=bad)
        else:
            setts(st, chk=res, resume=0)

    def on_get_chunk(self, st, store, id, out, max, inst, oo):
        e = self.eng
        e.site('get_chunk', inst)
        g, F = st.ghost, st.F
        if not same(F, store, g.get('chain')):
            self.rep(st, 'C06', 'something else than the chain of all stores is asked', inst)
        if 'E.id' not in g:
            self.rep(st, 'C01', 'a chunk is requested outside of the handling of an index entry', inst)
            return
        if not same(F, id, g['E.id']):
            self.rep(st, 'C01', 'another chunk than the one of the entry is requested', inst)
        if st.ts.get('chk') == 'yes':
            self.rep(st, 'C10', 'a chunk that was found on the target is requested', inst)
        if st.ts.get('resume') == 1:
            self.rep(st, 'C10', 'a chunk is requested while resuming without looking at the target first', inst)
        if st.ts.get('fetched') and 'P.id' in g:
            if not (wide_ne(F, g['E.id'], g['P.id']) or F.decide('eq', g['E.len'], g['P.len']) is False):
                self.rep(st, 'C26', 'a chunk that may repeat the previous one is requested again', inst)

    def on_get_chunk_res(self, st, res, n, store, id, inst, oo, of):
        if res == 'hit':
            setts(st, got='hit')
        else:
            setts(st, got=res)

    def on_target_writing(self, st, target, oid, boff, n, off, id, inst):
        e = self.eng
        e.site('target_write', inst)
        g, F = st.ghost, st.F
        if not same(F, target, g.get('T')):
            self.rep(st, 'C11', 'something else than the target is written to', inst)
        bad = self.cur(st, n, off, id)
        if bad:
            self.rep(st, 'C01', 'the target is written %s' % bad, inst)
        elif not hash_of(e, st, oid, boff, n, g['E.id']):
            self.rep(st, 'C01', 'data is written whose hash was not found equal to the ID of the index entry', inst)
        if st.ts.get('chk') == 'yes':
            self.rep(st, 'C10', 'a chunk that was found on the target is written again', inst)
        if st.ts.get('resume') == 1:
            self.rep(st, 'C10', 'the target is written while resuming without looking at it first', inst)
        if st.ts.get('ph') != 'run':
            self.rep(st, 'C01', 'the target is written outside of extraction', inst)
        setts(st, dirty=1, sync=None)

    def on_target_write(self, st, ok, target, oid, boff, n, off, id, inst):
        if not ok:
            setts(st, wfail=1)
            return
        if self.cur(st, n, off, id) is None:
            setts(st, done='written')
            if st.ts.get('got') == 'hit':
                st.ghost['P.id'], st.ghost['P.len'] = st.ghost['E.id'], st.ghost['E.len']
                setts(st, fetched=1)

    def on_entry_ret(self, st, kind, ok, inst):
        e = self.eng
        if ok:
            e.site('entry', inst)
            if not st.ts.get('done'):
                why = {'fail': 'the stores failed', 'miss': 'no store has its chunk'}.get(st.ts.get('got'), '')
                if st.ts.get('wfail'):
                    why = 'writing it failed'
                self.rep(st, 'C04' if st.ts.get('wfail') or st.ts.get('got') == 'fail' else 'C02', 'an index entry is treated as done although it was neither found on the target nor written' + (' (%s)' % why if why else ''))
                if st.ts.get('wfail') or st.ts.get('got') == 'fail':
                    self.rep(st, 'C02', 'an index entry is treated as done although %s' % why)
        for k in ('E.off', 'E.len', 'E.id'):
            st.ghost.pop(k, None)
        setts(st, done=None, chk=None, got=None, wfail=None, bad_chk=None)

    def on_entries_ret(self, st, kind, ok, inst):
        setts(st, ph='ran', ran=1 if ok else 0)

    def on_target_sync(self, st, ok, target, inst):
        self.eng.site('sync', inst)
        if same(st.F, target, st.ghost.get('T')):
            setts(st, sync=1 if ok else 0)

    # ------------------------------------------------------------ the end
    def on_exit(self, st, code, inst):
        e = self.eng
        e.site('exit', inst)
        F = st.F
        c8 = F.const(code)
        zero = c8 is not None and c8 & 255 == 0
        if c8 is None:
            lo, hi = F.ub(code)
            zero = not (0 < lo and hi < 256)
        if st.ts.get('help'):
            return
        if not zero:
            return
        b = st.ts.get('bad')
        if st.ts.get('ph') != 'ran':
            self.rep(st, 'C27', 'exit status 0 without an extraction', inst)
            self.rep(st, 'C02', 'exit status 0 without an extraction', inst)
            if b:
                self.rep(st, 'C04', 'exit status 0 although %s' % b, inst)
            return
        if b:
            self.rep(st, 'C04', 'exit status 0 although %s' % b, inst)
        if st.ts.get('ran') != 1:
            self.rep(st, 'C02', 'exit status 0 although iterating over the index entries failed', inst)
            self.rep(st, 'C04', 'exit status 0 although iterating over the index entries failed', inst)
        if st.ts.get('sync') != 1:
            self.rep(st, 'C23', 'exit status 0 without a successful sync of the target after the last write', inst)
            if st.ts.get('sync') == 0:
                self.rep(st, 'C04', 'exit status 0 although syncing the target failed', inst)
        e.site('success', inst)

    def on_life_end(self, st, how):
        pass
