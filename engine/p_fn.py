"""Scenarios and rules for single functions with contracts: key specifications,
the cipher loop, key derivation, wiping, digests."""
from nodes import *
import ae, ext, runs
from ae import zext, sext
from runs import scenario, buffer_arg, string_arg, size_arg, need
from p_main import same, setts
from p_stores import cond
import p_crypt

# ------------------------------------------------------------ key specification
def sc_keyspec(eng):
    f = need(eng.P, 'encrypt_parse_keyspec')
    st = ae.State()
    k = buffer_arg(eng, st, 'key', 32)
    s = string_arg(eng, st, 'spec')
    eng.emit('start', st)
    for r, v in eng.call_fn(f, [k, s], st):
        eng.emit('keyspec_ret', r, ret=v)

scenario('keyspec', 'csn', sc_keyspec, exp=('parse_hex', 'crypto_wipe'))

class Prefix:
    """which kind of keyspec it is known to be"""
    def on_streq(self, st, a, b, ca, cb, n, eq, inst):
        c, p = (cb, a) if cb is not None else (ca, b)
        if not eq or c is None or n is None or n != len(c):
            return
        q, off = ae.ptr_split(p)
        if q is not None and q.op == 'a' and q.aux == 'x:spec' and st.F.const(off) == 0:
            c = c.decode('latin1') if isinstance(c, bytes) else c
            setts(st, pre={'key:': 'key', 'env:': 'env', 'file:': 'file'}.get(c, 'other'))
    def at(self, st, p, k):
        """p is the spec from byte k on"""
        q, off = ae.ptr_split(p)
        return q is not None and q.op == 'a' and q.aux == 'x:spec' and st.F.const(st.F.norm(off)) == k

class KeySpec(Prefix):
    """C16: what is accepted, and as which key"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C16', m, inst)
    def on_getenv(self, st, name_, oid, arg, inst):
        if st.ts.get('pre') == 'env' and self.at(st, arg, 4):
            setts(st, src=oid)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if fd is not None and st.ts.get('pre') == 'file' and path is not None and self.at(st, path, 5):
            st.ghost['K.fd'] = fd
    def on_io(self, st, op, res, fd, inst, oid=None, boff=None, want=None, **_):
        if op in ('readall', 'read') and res == 'ok' and same(st.F, fd, st.ghost.get('K.fd')):
            all_ = op == 'readall' and st.F.const(boff) == 0 and any(same(st.F, want, mk(k, 64, (fd,))) for k in ('fsize', 'bsize'))
            setts(st, src=oid if all_ else None)
    def on_hex(self, st, ok, oid, off, soid, soff, n, s, inst):
        e, F = self.eng, st.F
        e.site('decode', inst)
        setts(st, hex=None)
        if not ok:
            setts(st, hex='bad')
            return
        pre = st.ts.get('pre')
        where = {'key': ('x:spec', 4), 'env': (st.ts.get('src'), 0), 'file': (st.ts.get('src'), 0)}.get(pre)
        if where is None:
            self.rep(st, 'a key is decoded although the keyspec names no documented source', inst)
        elif where[0] is None or soid != where[0] or F.const(F.norm(soff)) != where[1]:
            self.rep(st, 'what is decoded is not the text the keyspec names', inst)
        elif F.const(F.norm(n)) != 64:
            self.rep(st, 'the text of the key need not be 64 characters long', inst)
        elif oid != 'x:key' or F.const(F.norm(off)) != 0:
            self.rep(st, 'the key is not decoded to where the caller wants it', inst)
        setts(st, hex='ok')
        if oid is not None:
            st.ghost['K.val'] = e.content(st, 'x:key', C(64, 0), 32)
    def on_keyspec_ret(self, st, ret):
        e = self.eng
        e.sites.setdefault('verdict', set()).add('encrypt_parse_keyspec')
        s = cond(st, 'sge', ret, C(32, 0))
        if s is None:
            return
        if s.ts.get('hex') != 'ok':
            self.rep(s, 'a keyspec is accepted although no key was decoded from it')
        elif not same(s.F, e.content(s, 'x:key', C(64, 0), 32), s.ghost['K.val']):
            self.rep(s, 'the key is changed after it was decoded')

class KeyWipe(Prefix, p_crypt.Wiped):
    """C15: the text of a key file and a key that is refused are wiped"""
    def on_keyspec(self, st, **_):
        pass
    def on_io(self, st, op, res, fd, inst, oid=None, boff=None, want=None, **_):
        if op in ('readall', 'read', 'preadall', 'pread') and oid is not None and res != 'eintr':
            self.eng.site('key', inst)
            self.mark(st, oid, None, None, inst)
            st.ghost['W.n'] = add(boff, want)
            self.eng.site('key in a buffer', inst)
    def on_hex(self, st, oid, off, inst, **_):
        self.mark(st, oid, off, C(64, 32), inst)
    def on_renamed(self, st, map):
        p_crypt.Wiped.on_renamed(self, st, map)
    def whole(self, st, oid, n):
        w = st.ghost.get('W.n')
        return w is not None and st.F.decide('uge', n, w) is True or p_crypt.Wiped.whole(self, st, oid, n)
    def on_keyspec_ret(self, st, ret):
        for x in st.ts.get('sec', ()):
            if x[0] != 'x:key':
                self.rep(st, 'the text of a key is left in memory')
                return
        if self.dirty(st, 'x:key'):
            s = cond(st, 'slt', ret, C(32, 0))
            if s is not None:
                self.rep(s, 'part of a key that was refused is left in memory')

class KeyQuiet(Prefix, p_crypt.Quiet):
    """C14: no part of the key is printed"""
    def __init__(self):
        p_crypt.Quiet.__init__(self)
    def on_keyspec(self, st, **_):
        pass
    def on_getenv(self, st, name_, oid, arg, inst):
        self.heat(st, oid)
    def on_io(self, st, op, res, fd, inst, oid=None, **_):
        if op in ('readall', 'read', 'preadall', 'pread') and oid is not None:
            self.heat(st, oid)
    def on_hex(self, st, oid, off, inst, **_):
        if oid is not None:
            self.heat(st, oid)
    def on_loaded(self, st, oid, off, n, val, inst):
        if oid == 'x:spec' and val.op != 'c' and st.ts.get('pre') not in ('env', 'file'):
            self.taint(val)
        p_crypt.Quiet.on_loaded(self, st, oid, off, n, val, inst)
    def bad_ptr(self, st, p):
        m = p_crypt.Quiet.bad_ptr(self, st, p)
        if m:
            return m
        q, off = ae.ptr_split(p)
        if q is not None and q.op == 'a' and q.aux == 'x:spec' and st.ts.get('pre') not in ('env', 'file'):
            return 'a keyspec that may contain the key is printed'
        return None

# ------------------------------------------------------------ cipher loop
def sc_encdo(eng):
    f = need(eng.P, 'encrypt_do')
    ini = need(eng.P, 'encrypt_init')
    st = ae.State()
    n = size_arg(st, 'len', 0, 1 << 40)
    ctx = buffer_arg(eng, st, 'ctx', 4096)
    key = buffer_arg(eng, st, 'key', 32)
    for s, v in eng.call_fn(ini, [ctx, key], st):
        if s.F.sb(v)[0] < 0:
            continue
        a = buffer_arg(eng, s, 'in', n)
        for inplace in (False, True):
            t = s.fork()
            o = a if inplace else buffer_arg(eng, t, 'out', n)
            t.ghost.update({'E.n': n, 'E.pos': C(64, 0), 'E.rem': n})
            setts(t, eout='x:in' if inplace else 'x:out', efail=None)
            for r, v in eng.call_fn(f, [ctx, o, a, n], t):
                eng.emit('encdo_ret', r, ret=v)

scenario('encdo', 'csn', sc_encdo)

class EncDo:
    """C13: each byte passes once, in order; failure is not success"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C13', m, inst)
    def on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst):
        g, F = st.ghost, st.F
        if 'E.n' not in g:
            return
        self.eng.site('cipher', inst)
        if oid != 'x:in' or F.decide('eq', off, g['E.pos']) is not True:
            self.rep(st, 'what passes through the cipher is not the next byte of the input', inst)
        elif do != st.ts['eout'] or F.decide('eq', df, g['E.pos']) is not True:
            self.rep(st, 'the result is not put at the position of the input', inst)
        elif F.decide('ule', n, g['E.rem']) is not True:
            self.rep(st, 'more than what is left passes through the cipher', inst)
        elif n32 is not None and (F.ub(n32)[1] > 0x7fffffff or same(F, zext(n32, 64), n) is False):
            self.rep(st, 'the cipher is asked for more than it can do at once', inst)
        if not ok:
            setts(st, efail=1)
        else:
            g['E.pos'] = add(g['E.pos'], n)
            g['E.rem'] = sub(g['E.rem'], n)
    def on_encdo_ret(self, st, ret):
        self.eng.sites.setdefault('cipher', set()).add('encrypt_do')
        s = cond(st, 'eq', ret, C(32, 0))
        if s is not None:
            if s.ts.get('efail'):
                self.rep(s, 'encrypt_do succeeds although the cipher failed')
            elif s.F.decide('eq', s.ghost['E.rem'], C(64, 0)) is not True:
                self.rep(s, 'encrypt_do succeeds although not all data passed through the cipher')
        p = cond(st, 'sgt', ret, C(32, 0))
        if p is not None and p.ts.get('efail'):
            self.rep(p, 'encrypt_do does not report that the cipher failed')

# ------------------------------------------------------------ key derivation
def sc_hchacha(eng):
    f = need(eng.P, 'hchacha20')
    st = ae.State()
    o = buffer_arg(eng, st, 'out', 32)
    k = buffer_arg(eng, st, 'key', 32)
    i = buffer_arg(eng, st, 'in', 16)
    for s, v in eng.call_fn(f, [o, k, i], st):
        eng.emit('derive_ret', s)

scenario('hchacha', 'csn', sc_hchacha, exp=('crypto_wipe',))

class Derive(p_crypt.Wiped):
    """C15: what the derivation keeps in arrays of its own is wiped"""
    MIN = 16
    def on_store(self, st, oid, off, n, val, vol, inst):
        if oid.startswith('l:') and val.op not in ('c', 'a') and st.F.const(val) is None:
            z = st.mem[oid].size
            if z is not None and st.F.ub(z)[1] >= self.MIN:
                self.eng.site('key', inst)
                self.mark(st, oid, None, None, inst)
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if src in ('x:key', 'x:out') or self.dirty(st, src):
            self.mark(st, dst, None, None, inst)
    def on_frame_exit(self, st, fn, ret, locals):
        p_crypt.Wiped.on_frame_exit(self, st, fn, ret, locals)

# ------------------------------------------------------------ wiping
def sc_wipe(eng):
    f = need(eng.P, 'crypto_wipe')
    st = ae.State()
    n = size_arg(st, 'len', 0, 1 << 40)
    b = buffer_arg(eng, st, 'buf', n)
    st.ghost.update({'P.n': n, 'P.pos': C(64, 0), 'P.rem': n})
    for s, v in eng.call_fn(f, [b, n], st):
        eng.emit('wipe_ret', s)

scenario('wipefn', 'csn', sc_wipe)

class WipeFn:
    """C15: every byte is overwritten by a store the compiler may not remove"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C15', m, inst)
    def on_store(self, st, oid, off, n, val, vol, inst):
        if oid != 'x:buf':
            return
        g, F = st.ghost, st.F
        self.eng.site('wiped', inst)
        if not vol:
            self.rep(st, 'the compiler may remove the store that wipes', inst)
        if F.decide('ule', off, g['P.pos']) is True and F.decide('ule', g['P.pos'], add(off, C(64, n))) is True:
            d = sub(add(off, C(64, n)), g['P.pos'])
            g['P.pos'] = add(g['P.pos'], d)
            g['P.rem'] = sub(g['P.rem'], d)
        elif F.decide('eq', add(off, C(64, n)), g['P.rem']) is True and F.decide('eq', g['P.pos'], C(64, 0)) is True:
            # from the end to the start
            g['P.rem'] = sub(g['P.rem'], C(64, n))
    def on_wipe(self, st, oid, off, n, inst):
        if oid == 'x:buf' and st.F.const(off) == 0 and st.F.decide('eq', n, st.ghost['P.n']) is True:
            self.eng.site('wiped', inst)
            st.ghost['P.rem'] = C(64, 0)
    def on_wipe_ret(self, st):
        if st.F.decide('eq', st.ghost['P.rem'], C(64, 0)) is not True:
            self.rep(st, 'crypto_wipe does not overwrite all of the memory')

# ------------------------------------------------------------ digests
def sc_sha(eng):
    f = need(eng.P, 'sha_once')
    ini = need(eng.P, 'sha_kcapi_init')
    st = ae.State()
    starts = [st.fork()]
    for s, v in eng.call_fn(ini, [NULL], st):
        setts(s, kfd='live' if s.ghost.get('S.fd') is not None else None)
        starts.append(s)
    def body(states):
        backs, exits = [], []
        for s in states:
            exits.append((None, s.fork(), None))
            n = size_arg(s, 'len', 0, 1 << 40)
            d = buffer_arg(eng, s, 'data', n)
            o = buffer_arg(eng, s, 'out', 32)
            s.note('-- sha_once')
            eng.emit('digest_start', s, n=n)
            for r, v in eng.call_fn(f, [d, n, o], s):
                eng.emit('digest_ret', r, ret=v, n=n)
                for k in ('x:data', 'x:out'):
                    r.mem.pop(k, None)
                backs.append(r)
        return backs, exits, []
    eng.fix(starts, body, ('digests',))

scenario('sha', 'csn', sc_sha, dg=False)

class Sha:
    """C17"""
    MSG_MORE = 0x8000
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C17', m, inst)
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via == 'accept':
            st.ghost['S.fd'] = fd
            setts(st, kfd='live')
    def on_digest_start(self, st, n):
        st.ghost.update({'S.n': n, 'S.pos': C(64, 0), 'S.rem': n})
        setts(st, kern=None, kopen=None)
        st.ghost.pop('S.got', None)
    def on_iocall(self, st, op, fd, oid, boff, want, off, inst):
        g, F = st.ghost, st.F
        if op not in ('send', 'write', 'recv', 'read') or 'S.n' not in g:
            return
        if st.ts.get('kfd') == 'failed':
            self.rep(st, 'the kernel interface is used again after it failed', inst)
        if op in ('send', 'write'):
            self.eng.site('data', inst)
            if oid != 'x:data' or F.decide('eq', boff, g['S.pos']) is not True:
                self.rep(st, 'what is sent to the kernel is not the next part of the data', inst)
            elif F.decide('ule', want, g['S.rem']) is not True:
                self.rep(st, 'more than the rest of the data is sent to the kernel', inst)
        else:
            self.eng.site('result', inst)
            if F.decide('eq', g['S.rem'], C(64, 0)) is not True:
                self.rep(st, 'the digest is taken from the kernel before all data was sent', inst)
            if oid != 'x:out' or F.const(F.norm(boff)) != 0:
                setts(st, kern='elsewhere')
    def on_io(self, st, op, res, fd, inst, got=None, **_):
        g = st.ghost
        if 'S.n' not in g or op not in ('send', 'write', 'recv', 'read'):
            return
        if res == 'fail':
            setts(st, kfd='failed', kern=None)
        elif res in ('ok', 'eof'):
            if op in ('send', 'write'):
                g['S.pos'], g['S.rem'] = add(g['S.pos'], got), sub(g['S.rem'], got)
            else:
                g['S.got'] = got
                if st.F.decide('eq', got, C(64, 32)) is False:
                    setts(st, kfd='failed', kern=None)
                elif st.ts.get('kern') != 'elsewhere':
                    setts(st, kern='got')
    def on_assume(self, st, pred, a, b):
        g = st.ghost.get('S.got')
        if g is not None and st.ts.get('kern') == 'got' and (a is g or b is g) and st.F.decide('eq', g, C(64, 32)) is False:
            setts(st, kfd='failed', kern=None)
    def on_sha(self, st, data, n, oid, off, val, inst):
        self.eng.site('software', inst)
    def on_digest_ret(self, st, ret, n):
        e, F, g = self.eng, st.F, st.ghost
        s = cond(st, 'sge', ret, C(32, 0))
        if s is not None:
            e.sites.setdefault('digest', set()).add('sha_once')
            want = ext.sha_node(e, s, 'x:data', C(64, 0), n) if F.const(n) != 0 else mk('sha', 256, (ext.EMPTY,))
            have = e.content(s, 'x:out', C(64, 0), 32)
            soft = same(s.F, have, want) or s.F.const(n) == 0 and have.op == 'sha' and have.args[0] is ext.EMPTY
            kern = s.ts.get('kern') == 'got' and s.F.decide('eq', s.ghost.get('S.got', C(64, 0)), C(64, 32)) is True \
                and s.ts.get('kfd') == 'live'
            if not soft and not kern:
                self.rep(s, 'success is reported although the result is not the digest of all of the data')
        if st.ts.get('kern') == 'got' and F.decide('eq', g.get('S.got', C(64, 32)), C(64, 32)) is not True:
            setts(st, kfd='failed')
        setts(st, kern=None)
        for k in ('S.n', 'S.pos', 'S.rem', 'S.got'):
            g.pop(k, None)
