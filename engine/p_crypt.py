"""Rules about keys and ciphers: the HTTP store, csn-tool and the functions of
encrypt.h themselves."""
from nodes import *
import ae, ext
from ae import zext, sext
from p_main import same, setts
from p_stores import cond

def has(t, marked, memo):
    """some value of the set occurs in the term"""
    r = memo.get(t)
    if r is None:
        memo[t] = False
        r = t in marked or any(has(x, marked, memo) for x in t.args if hasattr(x, 'args'))
        memo[t] = r
    return r

class Cipher:
    """C13: the key stream of each chunk starts at block zero of the stream of
    that very chunk; every byte passes through it once"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C13', m, inst)
    def on_keyspec(self, st, ok, inst, val=None, **_):
        if ok:
            st.ghost['C.key'] = val
            setts(st, key=1)
    def chunk(self, st):
        """the ID of the chunk at hand: two parts, or None"""
        e = self.eng
        if 'x:qid' in st.mem:
            return e.content(st, 'x:qid', C(64, 0), 16), e.content(st, 'x:qid', C(64, 16), 8)
        return None
    def on_query(self, st, **_):
        setts(st, init=None)
    def on_query_ret(self, st, **_):
        setts(st, init=None)
    def on_perform(self, st, h, inst):
        if st.ts.get('key'):
            self.eng.site('request', inst)
            if st.ts.get('init') != 'new':
                self.rep(st, 'a chunk is requested although the cipher was not restarted for it', inst)
        setts(st, cbad=None)
    def on_cipher_reset(self, st, ctx, ok, inst):
        setts(st, init=None)
    def on_cipher_init(self, st, ok, ctx, key, iv, type, inst):
        e, F = self.eng, st.F
        if not ok:
            setts(st, init=None)
            return
        e.site('restart', inst)
        why = None
        if not st.ts.get('key'):
            why = 'the cipher is set up without a key'
        elif not (type.op == 'a' and type.aux == 'f:EVP_chacha20'):
            why = 'the cipher is not ChaCha20'
        else:
            ko, kf = e.resolve(st, key, inst)
            io, jf = e.resolve(st, iv, inst)
            c = self.chunk(st)
            if None in (ko, io):
                why = 'the cipher is set up without key or nonce'
            elif c is None:
                why = 'the cipher is set up although no chunk is at hand'
            else:
                want = mk('hchacha', 256, (st.ghost['C.key'], c[0]))
                if not same(F, e.content(st, ko, kf, 32), want):
                    why = 'the key of the cipher is not derived from the configured key and the first 16 bytes of the chunk ID'
                elif F.const(e.content(st, io, jf, 8)) != 0:
                    why = 'the block counter does not start at zero'
                elif not same(F, e.content(st, io, add(jf, C(64, 8)), 8), c[1]):
                    why = 'the nonce is not taken from bytes 16 to 23 of the chunk ID'
        if why:
            self.rep(st, why, inst)
        setts(st, init='new')
    def on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst):
        self.eng.site('cipher', inst)
        if not st.ts.get('key'):
            self.rep(st, 'data is decrypted although no key is configured', inst)
        if not st.ts.get('init'):
            self.rep(st, 'the cipher is used although it was not restarted', inst)
        if not ok:
            setts(st, cbad=1, init='used')
        else:
            setts(st, init='used')
    # the HTTP store
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if src == 'cb:data' and st.ts.get('key'):
            self.rep(st, 'received data does not pass through the cipher', inst)
    def on_zstd(self, st, src, inst, **_):
        b, off = ae.ptr_split(src)
        if st.ts.get('key') and b is not None and b.op == 'a' and b.aux == 'cb:data':
            self.rep(st, 'received data is decoded without being decrypted', inst)
    def on_body_ret(self, st, oid, n, ok, inst):
        if ok and st.ts.get('cbad'):
            self.rep(st, 'received data is accepted although it could not be decrypted', inst)

class Wiped:
    """C15: key material in buffers of a function is wiped before it returns"""
    SEED = ()
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C15', m, inst)
    def mark(self, st, oid, off, n, inst, kind=None):
        if oid is None:
            return
        o = st.mem.get(oid)
        k, c = st.F.const(off) if off is not None else None, st.F.const(n) if n is not None else None
        if k is None or c is None:
            k = c = None
        d = tuple(x for x in st.ts.get('sec', ()) if not (x[0] == oid and (x[1] is None or k is not None and x[1] <= k and k + c <= x[1] + x[2])))
        setts(st, sec=tuple(sorted(d + ((oid, k, c),), key=str)))
        if oid.startswith('l:') or oid.startswith('s:'):
            self.eng.site('key in a buffer', inst)
    def dirty(self, st, oid):
        return any(x[0] == oid for x in st.ts.get('sec', ()))
    def local(self, oid):
        return oid is not None
    def on_keyspec(self, st, ok, oid, off, inst, **_):
        if ok:
            self.eng.site('key', inst)
            self.mark(st, oid, off, C(64, 32), inst)
    def on_subkey(self, st, oid, off, val, inst):
        self.eng.site('key', inst)
        self.mark(st, oid, off, C(64, 32), inst)
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if self.dirty(st, src):
            self.mark(st, dst, doff, n, inst)
    def on_renamed(self, st, map):
        d = st.ts.get('sec')
        if d and any(x[0] in map for x in d):
            setts(st, sec=tuple(sorted(((map.get(a, a), b, c) for a, b, c in d), key=str)))
    def on_wipe(self, st, oid, off, n, inst):
        d = st.ts.get('sec', ())
        F = st.F
        keep = []
        for x in d:
            if x[0] == oid:
                if x[1] is not None:
                    done = F.decide('ule', off, C(64, x[1])) is True and F.decide('uge', add(off, n), C(64, x[1] + x[2])) is True
                else:
                    done = F.const(off) == 0 and self.whole(st, oid, n)
                if done:
                    self.eng.site('wiped', inst)
                    continue
            keep.append(x)
        setts(st, sec=tuple(keep) or None)
    def whole(self, st, oid, n):
        z = st.mem[oid].size
        return z is not None and st.F.decide('uge', n, z) is True
    def on_frame_exit(self, st, fn, ret, locals):
        d = st.ts.get('sec', ())
        for x in d:
            if x[0] in locals:
                self.rep(st, '%s returns without having wiped the key material in one of its buffers' % fn.name, None)
        if any(x[0] in locals for x in d):
            setts(st, sec=tuple(x for x in d if x[0] not in locals) or None)
    def on_free(self, st, oid, inst):
        if self.dirty(st, oid) and self.heap(st, oid):
            self.rep(st, 'memory is released without having wiped the key material in it', inst)
            setts(st, sec=tuple(x for x in st.ts['sec'] if x[0] != oid) or None)
    def heap(self, st, oid):
        return True

class Quiet:
    """C14: nothing that is printed comes from a key"""
    def __init__(self):
        self.tainted = set()    # values read from key material
        self.memo = {}
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C14', m, inst)
    # where key material lies: ts 'hot' = (object, offset, length) or (object, None, None)
    def hot(self, st, oid, off=None, n=1):
        if oid is None:
            return False
        for x, lo, k in st.ts.get('hot', ()):
            if x == oid:
                if lo is None or off is None:
                    return True
                c = st.F.const(off)
                if c is None:
                    l, h = st.F.ub(off)
                    if h >= lo and l < lo + k:
                        return True
                elif c < lo + k and c + n > lo:
                    return True
        return False
    def heat(self, st, oid, off=None, n=None):
        if oid is None:
            return
        F = st.F
        lo = F.const(off) if off is not None else None
        k = F.const(n) if n is not None else None
        if lo is None or k is None:
            lo = k = None
        h = st.ts.get('hot', ())
        if any(x[0] == oid and (x[1] is None or x[1:] == (lo, k)) for x in h):
            return
        setts(st, hot=tuple(sorted(h + ((oid, lo, k),), key=str)))
    def on_renamed(self, st, map):
        d = st.ts.get('hot')
        if d and any(x[0] in map for x in d):
            setts(st, hot=tuple(sorted(((map.get(x[0], x[0]),) + x[1:] for x in d), key=str)))
    def on_keyspec(self, st, ok, oid, off, inst, val=None, **_):
        if ok:
            self.taint(val)
            self.heat(st, oid, off, C(64, 32))
    def on_subkey(self, st, oid, off, val, inst):
        self.taint(val)
        self.heat(st, oid, off, C(64, 32))
    def on_frame_exit(self, st, fn, ret, locals):
        h = st.ts.get('hot', ())
        if any(x[0] in locals for x in h):
            setts(st, hot=tuple(x for x in h if x[0] not in locals) or None)
    def on_free(self, st, oid, inst):
        h = st.ts.get('hot', ())
        if any(x[0] == oid for x in h):
            setts(st, hot=tuple(x for x in h if x[0] != oid) or None)
    def taint(self, v):
        if v not in self.tainted:
            self.tainted.add(v)
            self.memo.clear()
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if self.hot(st, src, soff, st.F.ub(n)[1]):
            self.heat(st, dst, doff, n)
    def on_loaded(self, st, oid, off, n, val, inst):
        if n <= 8 and val.op not in ('c', 'a') and self.hot(st, oid, off, n):
            self.taint(val)
    def bad_ptr(self, st, p):
        b, off = ae.ptr_split(p)
        if b is None or b.op == 'c':
            return None
        oid = self.eng.obj_of(st, b)
        if oid is not None and self.hot(st, oid, st.F.norm(off)):
            return 'key material is printed'
        return None
    def printed(self, st, args, inst):
        self.eng.site('printed', inst)
        for a in args:
            if a is None or a.op == 'c':
                continue
            m = self.bad_ptr(st, a) if a.w == 64 else None
            if m is None and self.tainted and has(a, self.tainted, self.memo):
                m = 'a value computed from key material is printed'
            if m:
                self.rep(st, m, inst)
                return
    def on_log(self, st, fn, args, inst):
        self.printed(st, args, inst)
    def on_format(self, st, name, fmt, cfmt, args, inst, dst):
        if dst is None:
            self.printed(st, [fmt] + list(args), inst)
        else:
            for a in args:
                if a.w == 64 and self.bad_ptr(st, a) or self.tainted and has(a, self.tainted, self.memo):
                    b, off = ae.ptr_split(dst)
                    if b is not None:
                        self.heat(st, self.eng.obj_of(st, b))
                    return
    def on_output(self, st, name, arg, inst):
        self.printed(st, [arg], inst)
    def on_output_char(self, st, arg, inst, **_):
        self.printed(st, [arg], inst)
    def on_iocall(self, st, op, fd, oid, inst, **_):
        if 'write' in op and self.hot(st, oid):
            self.rep(st, 'key material is written to a file', inst)

class QuietUrl(Quiet):
    """the URL of a store: what follows the # is secret"""
    def url(self, st, oid):
        return oid == 'x:url' or oid in st.ts.get('urls', ())
    def on_strchr(self, st, oid, off, ch, at, name, inst):
        if ch == 35 and self.url(st, oid) and st.F.const(off) == 0:
            if at is None:
                setts(st, hash='no')
            elif st.ts.get('hash') != 'no':
                setts(st, hash='yes')
                st.ghost['Q.at'] = at
    def safe(self, st, oid, off):
        if st.ts.get('hash') == 'no':
            return True
        if st.ts.get('hash') != 'yes':
            return False
        n = self.eng.strlen_node(st, oid, off)
        return st.F.decide('ule', add(off, n), st.ghost['Q.at']) is True
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        Quiet.on_copy(self, st, src, soff, dst, doff, n, inst)
        if self.url(st, src) and not self.url(st, dst) and st.F.const(soff) == 0 and st.F.const(doff) == 0:
            setts(st, urls=tuple(sorted(st.ts.get('urls', ()) + (dst,))))
    def on_renamed(self, st, map):
        Quiet.on_renamed(self, st, map)
        d = st.ts.get('urls')
        if d and any(x in map for x in d):
            setts(st, urls=tuple(sorted(map.get(x, x) for x in d)))
    def bad_ptr(self, st, p):
        m = Quiet.bad_ptr(self, st, p)
        if m:
            return m
        b, off = ae.ptr_split(p)
        if b is None or b.op == 'c':
            return None
        oid = self.eng.obj_of(st, b)
        if oid is not None and self.url(st, oid) and not self.safe(st, oid, st.F.norm(off)):
            return 'the part of a store URL that may hold the key is printed'
        return None
    def on_ctor_ret(self, st, fn, ret):
        u = []
        for oid in st.ts.get('urls', ()):
            if oid not in st.mem or st.mem[oid].freed or self.safe(st, oid, C(64, 0)):
                continue
            u.append(oid)
        setts(st, urls=tuple(u) or None, hash=None)
        st.ghost.pop('Q.at', None)

class Refused:
    """C16: a store with a refused key does not come into being"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C16', m, inst)
    def on_keyspec(self, st, ok, inst, **_):
        self.eng.site('key', inst)
        setts(st, kref=None if ok and not st.ts.get('kref') else 1, kok=1 if ok else None)
    def on_strchr(self, st, oid, off, ch, at, name, inst):
        if ch == 35 and at is not None and not st.ts.get('kok'):
            st.ghost['R.at'] = at
            setts(st, frag=oid)
    def on_renamed(self, st, map):
        if st.ts.get('frag') in map:
            setts(st, frag=map[st.ts['frag']])
    def on_ctor_ret(self, st, fn, ret):
        e = self.eng
        e.sites.setdefault('created', set()).add(fn)
        t = cond(st, 'ne', ret, C(64, 0))
        if t is not None:
            if t.ts.get('kref'):
                self.rep(t, '%s creates a store although the key was refused' % fn)
            elif t.ts.get('frag') and not t.ts.get('kok'):
                o = t.ts['frag']
                v = e.load(t, o, add(t.ghost['R.at'], C(64, 1)), 1) if o in t.mem else None
                if v is None or t.F.const(v) != 0:
                    self.rep(t, '%s creates a store without a key although the URL has parameters' % fn)
        setts(st, kref=None, kok=None, frag=None)
        st.ghost.pop('R.at', None)
