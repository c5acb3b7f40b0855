"""Rules for csn-tool as a whole (scenario tool)."""
from nodes import *
import ae, ext
from ae import zext, sext
from p_main import same, setts
from p_stores import cond
import p_crypt

BADCALLS = ('rename', 'renameat', 'renameat2', 'truncate', 'truncate64', 'creat', 'creat64', 'ftruncate', 'ftruncate64',
            'link', 'linkat', 'symlink', 'rmdir', 'mkdir', 'chmod', 'chown', 'mkfifo', 'freopen', 'freopen64', 'tmpfile')
ARG_SPEC, ARG_IN = 16, 24

class Tool:
    """C12: existing files are left alone, nothing broken is left behind,
    success means complete.  C04: no failure is taken for success.  C16: no
    command without an accepted key."""
    def rep(self, st, p, m, inst=None):
        self.eng.report(st, p, m, inst)
    # -- one chunk
    def fresh(self, st):
        setts(st, rd=None, ci=None, wr=None, out=None, done=None, cb=None, tb=None)
        for k in ('T.in', 'T.out', 'T.path', 'T.n'):
            st.ghost.pop(k, None)
    def complete(self, st):
        t = st.ts
        if t.get('done') == 'exists':
            return True
        return t.get('rd') == t.get('ci') == t.get('wr') == 'all' and t.get('out') in (None, 'closed')
    def boundary(self, st, inst, claim):
        t = st.ts
        if t.get('out') in ('open', 'closed', 'closefail', 'unchecked') and not (t.get('wr') == 'all' and t.get('ci') == 'all' and t.get('rd') == 'all' and t['out'] in ('closed', 'unchecked')):
            self.rep(st, 'C12', 'an output file that is not complete is left behind', inst)
        if claim and t.get('chunk') and not self.complete(st):
            setts(st, miss=1)
        self.fresh(st)
        setts(st, chunk=None)
    def on_start(self, st):
        setts(st, chunk=None, miss=None, bad=None, key=None, line=None)
    def on_hex(self, st, **_):
        setts(st, chunk=1)
    def bad(self, st):
        setts(st, bad=1, cb=1)
    # -- events
    def on_keyspec(self, st, ok, inst, **_):
        self.eng.site('key', inst)
        setts(st, key='ok' if ok and st.ts.get('key') != 'refused' else 'refused')
    def on_cipher_init(self, st, ok, inst, **_):
        if st.ts.get('key') != 'ok':
            self.rep(st, 'C16', 'the cipher is used although no key was accepted', inst)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via:
            return
        w = flags is None or flags & 3
        if w:
            self.eng.site('create', inst)
            if flags is None or flags & 0o300 != 0o300:
                self.rep(st, 'C12', 'a file is opened for writing that may have existed before', inst)
            if st.ts.get('key') != 'ok':
                self.rep(st, 'C16', 'output is produced although no key was accepted', inst)
            if fd is None:
                self.bad(st)
            else:
                st.ghost['T.out'], st.ghost['T.path'] = fd, path
                setts(st, out='open', wr=None, chunk=1)
        else:
            self.eng.site('open', inst)
            if flags & 0o1100:
                self.rep(st, 'C12', 'the input is created or truncated', inst)
            if fd is None:
                self.bad(st)
            else:
                st.ghost['T.in'] = fd
                setts(st, rd=None, chunk=1)
    def on_access_(self, st, res, path, inst):
        if res == 'ok' and not self.is_input(st, path):
            setts(st, done='exists', chunk=1)
    def is_input(self, st, path):
        b, off = ae.ptr_split(path)
        av = self.eng.argv
        for x in (path, b):
            o = av.pos.get(x)
            if o is not None:
                return st.F.decide('ne', o, C(64, ARG_IN)) is not True
        if b is not None and b.op == 'a':
            return b.aux == st.ts.get('lbuf')
        return False
    def on_io(self, st, op, res, fd, inst, oid=None, boff=None, want=None, **_):
        F = st.F
        if op == 'fgets':
            self.boundary(st, inst, res != 'fail')
            setts(st, line=res, lbuf=oid if res == 'ok' else None)
            if res == 'fail':
                self.bad(st)
            elif res == 'ok':
                setts(st, chunk=1)
            return
        isout = same(F, fd, st.ghost.get('T.out'))
        if op == 'close':
            if isout and st.ts.get('out') == 'unchecked':
                setts(st, out='closed' if res == 'ok' else 'closefail')
                if res == 'fail':
                    self.bad(st)
            return
        if res == 'fail':
            self.eng.site('failure', inst)
            self.bad(st)
        if op in ('readall', 'read', 'preadall', 'pread'):
            self.eng.site('read', inst)
            if res == 'ok' and F.const(want) == 0 and same(F, fd, st.ghost.get('T.in')) and any(same(F, want, mk(k, 64, (fd,))) for k in ('fsize', 'bsize')):
                setts(st, rd='all', ci='all')
                st.ghost['T.n'] = want
            elif res == 'ok' and op == 'readall' and oid is not None and same(F, fd, st.ghost.get('T.in')):
                z = [mk(k, 64, (fd,)) for k in ('fsize', 'bsize')]
                all_ = not st.ts.get('rd') and F.const(boff) == 0 and any(same(F, want, x) for x in z)
                setts(st, rd='all' if all_ else 'part', tb=oid, ci=None)
                st.ghost['T.n'] = want
            elif res != 'eintr':
                setts(st, rd='part')
        elif op in ('writeall', 'write', 'pwriteall', 'pwrite'):
            self.eng.site('write', inst)
            if not isout and F.const(fd) not in (1, 2):
                self.rep(st, 'C12', 'something else than the file created for the output is written to', inst)
            if F.const(fd) == 2:
                return
            n = st.ghost.get('T.n')
            if res == 'ok' and op == 'writeall' and not st.ts.get('wr') and n is not None and oid is not None and oid == st.ts.get('tb') and F.const(boff) == 0 and same(F, want, n):
                setts(st, wr='all')
            elif res == 'ok' and n is not None and F.const(n) == 0:
                setts(st, wr='all')
            elif res != 'eintr':
                setts(st, wr='part')
    def on_close(self, st, fd, inst):
        if st.ts.get('out') == 'open' and same(st.F, fd, st.ghost.get('T.out')):
            setts(st, out='unchecked')
    def on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst):
        F = st.F
        self.eng.site('cipher', inst)
        g = st.ghost.get('T.n')
        if not ok:
            self.bad(st)
        elif F.const(n) == 0:
            return
        if ok and not st.ts.get('ci') and g is not None and oid is not None and oid == st.ts.get('tb') and F.const(off) == 0 and F.const(df) == 0 and do is not None and same(F, n, g):
            setts(st, ci='all', tb=do)
        else:
            setts(st, ci='part')
    def on_allocfail(self, st, inst):
        self.bad(st)
    def on_renamed(self, st, map):
        for k in ('tb', 'lbuf'):
            if st.ts.get(k) in map:
                setts(st, **{k: map[st.ts[k]]})
    def on_unlink(self, st, path, inst):
        self.eng.site('remove', inst)
        o = st.ts.get('out')
        if o not in ('open', 'closed', 'closefail', 'unchecked') or not same(st.F, path, st.ghost.get('T.path')):
            self.rep(st, 'C12', 'a file is removed that was not created in this run', inst)
        elif self.complete(st):
            self.rep(st, 'C12', 'a complete output file is removed', inst)
        setts(st, out='gone')
    def on_ext(self, st, name, args, inst):
        if name in BADCALLS:
            self.rep(st, 'C12', '%s may change existing files' % name, inst)
        elif name in ('fopen', 'fopen64'):
            m = ext.cstr(self.eng, st, args[1])
            if m is None or (m[:1] != b'r' if isinstance(m, bytes) else m[:1] != 'r') or '+' in str(m):
                self.rep(st, 'C12', 'a file is opened for writing that may have existed before', inst)
    def on_exit(self, st, code, inst):
        e = self.eng
        e.site('exit', inst) if inst is not None else e.sites.setdefault('exit', set()).add('main')
        z, nz = cond(st, 'eq', code, C(32, 0)), cond(st, 'ne', code, C(32, 0))
        if nz is not None:
            self.boundary(nz, inst, False)
        if z is not None:
            t = z.ts
            if t.get('key') == 'refused':
                self.rep(z, 'C16', 'success is reported although the key was refused', inst)
            if t.get('bad'):
                self.rep(z, 'C04', 'success is reported although something that was needed failed', inst)
            if t.get('line') == 'ok':
                self.rep(z, 'C12', 'success is reported although not all paths were processed', inst)
            if t.get('line') == 'fail':
                for p in ('C04', 'C12'):
                    self.rep(z, p, 'success is reported although the paths could not be read', inst)
            self.boundary(z, inst, True)
            if z.ts.get('miss'):
                self.rep(z, 'C12', 'success is reported although the complete result was not written', inst)

class Cipher(p_crypt.Cipher):
    """C13 in csn-tool: the ID is the one in the name of the input"""
    def chunk(self, st):
        a, b = st.ghost.get('C.id0'), st.ghost.get('C.id1')
        return (a, b) if a is not None else None
    def new(self, st):
        setts(st, init=None, cbad=None, idsrc=None, copied=None)
        for k in ('C.id0', 'C.id1'):
            st.ghost.pop(k, None)
    def on_io(self, st, op, res, fd, inst, **_):
        if op == 'fgets':
            self.new(st)
        if op in ('writeall', 'write') and res != 'fail' and st.F.const(fd) != 2:
            if st.ts.get('init') != 'used' or st.ts.get('cbad'):
                self.rep(st, 'data is written that did not pass through the cipher', inst)
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if dst.startswith('l:') and not src.startswith('l:encrypt') and st.F.const(n) == 64:
            setts(st, copied=src)
    def on_hex(self, st, ok, oid, off, soid, soff, n, s, inst):
        e = self.eng
        if not ok or oid is None:
            return
        st.ghost['C.id0'] = e.content(st, oid, off, 16)
        st.ghost['C.id1'] = e.content(st, oid, add(off, C(64, 16)), 8)
        setts(st, init=None, idsrc=st.ts.get('copied'))
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via or fd is None or flags is None or flags & 3:
            return
        b, off = ae.ptr_split(path)
        o = self.eng.obj_of(st, b) if b is not None and b.op != 'c' else None
        s = st.ts.get('idsrc')
        if s is not None and o is not None and o != s:
            self.rep(st, 'the chunk ID is not taken from the name of the file that is read', inst)
    def on_renamed(self, st, map):
        for k in ('idsrc', 'copied'):
            if st.ts.get(k) in map:
                setts(st, **{k: map[st.ts[k]]})
    def on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst):
        if st.ts.get('init') == 'used':
            self.rep(st, 'data passes through the cipher after the stream has moved on', inst)
        p_crypt.Cipher.on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst)

class Quiet(p_crypt.Quiet):
    """C14: the keyspec argument and what is made of it"""
    def bad_ptr(self, st, p):
        m = p_crypt.Quiet.bad_ptr(self, st, p)
        if m:
            return m
        b, off = ae.ptr_split(p)
        pos = self.eng.argv.pos
        for x in (p, b):
            o = pos.get(x)
            if o is not None and st.F.decide('ne', o, C(64, ARG_SPEC)) is not True:
                return 'the keyspec may be printed'
        return None
