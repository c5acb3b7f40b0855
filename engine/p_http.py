"""Rules for the HTTP store: created, asked any number of times with any
behaviour of the server, freed."""
from nodes import *
import ae, ext
from ae import zext, sext
from p_main import same, setts
from p_stores import Answer, cond, ids

class Reply(Answer):
    """C01: what is delivered was found to have the ID asked for"""
    ps = ('C01', 'C07')
    def on_perform(self, st, h, inst):
        self.gone(st)
    def on_query(self, st, **_):
        self.gone(st)
    def on_query_ret(self, st, **kw):
        Answer.on_query_ret(self, st, **kw)
        self.gone(st)

class Verdict:
    """C07: hit, miss, counted failure, fatal"""
    LIMIT = 10
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C07', m, inst)
    def on_ctor_ret(self, st, fn, ret):
        if st.F.const(ret) != 0:
            st.ghost['H.cnt'] = C(32, 0)
    def clear(self, st):
        setts(st, res=None, dec=None, cls=None, setup=None)
    def on_query(self, st, **_):
        self.clear(st)
        st.ts = dict(st.ts, inq=1)
    def on_perform(self, st, h, inst):
        self.eng.site('request', inst)
        setts(st, dec=None, res=None, cls=None, setup=None)
    def on_zstd_init(self, st, **_):
        setts(st, res=None, cls=None)
    def on_cipher_reset(self, st, **_):
        setts(st, res=None, cls=None)
    def on_cipher_init(self, st, **_):
        setts(st, res=None, cls=None)
    def on_perform_ret(self, st, h, code, inst):
        c = st.F.const(code)
        setts(st, res={0: 'ok', 23: 'ok', 6: 'conn', 7: 'conn', 28: 'conn'}.get(c, 'other'))
    def on_assume(self, st, pred, a, b):
        # keep apart what the status says
        h = st.ghost.get('http')
        if h is None or st.ts.get('res') != 'ok' or st.ts.get('cls') or not (a is h or b is h):
            return
        F = st.F
        k = C(64, 400)
        if F.decide('slt', h, k) is True:
            setts(st, cls='good')
        elif F.decide('eq', h, C(64, 404)) is True or F.decide('eq', h, C(64, 410)) is True:
            setts(st, cls='miss')
        elif F.decide('sge', h, k) is True and F.decide('eq', h, C(64, 404)) is False and F.decide('eq', h, C(64, 410)) is False:
            setts(st, cls='bad')
    def on_body_ret(self, st, oid, n, ok, inst):
        if not ok:
            setts(st, dec='bad')
    def on_zstd(self, st, inst, **_):
        self.eng.site('decode', inst)
        if st.F.decide('eq', st.ghost['http'], C(64, 200)) is not True:
            self.rep(st, 'a body is decoded although the status need not be 200', inst)
    def on_zstd_ret(self, st, ok, inst, **_):
        if not ok:
            setts(st, dec='bad')
        elif not st.ts.get('dec'):
            setts(st, dec='good')
    def want(self, s, what, ret, cnt):
        """check ret against what must come of this query in state s"""
        F = s.F
        if what == 'fatal':
            if cond(s, 'sge', ret, C(64, 0)):
                self.rep(s, 'a transfer error that is not transient does not fail the store')
        elif what == 'counted':
            n = add(cnt, C(32, 1))
            neg, zero = cond(s, 'slt', ret, C(64, 0)), cond(s, 'sge', ret, C(64, 0))
            lim = C(32, self.LIMIT)
            if neg is not None and neg.F.decide('ugt', n, lim) is not True:
                self.rep(neg, 'the store is given up before more than %d failures have occurred' % self.LIMIT)
            if zero is not None:
                if zero.F.decide('ule', n, lim) is not True:
                    self.rep(zero, 'the store is not given up after more than %d failures' % self.LIMIT)
                if cond(zero, 'sgt', ret, C(64, 0)):
                    self.rep(zero, 'a failed request delivers data')
        elif what == 'miss':
            if cond(s, 'slt', ret, C(64, 0)):
                self.rep(s, 'a response that is merely a miss fails the store')
            if cond(s, 'sgt', ret, C(64, 0)):
                self.rep(s, 'a response that is a miss delivers data')
        elif what == 'good':
            if cond(s, 'slt', ret, C(64, 0)):
                self.rep(s, 'a response with status 200 that was decoded fails the store')
    def on_query_ret(self, st, store, id, out, max, ret, fn):
        e, g = self.eng, st.ghost
        e.sites.setdefault('outcome', set()).add(fn)
        cnt = g['H.cnt']
        r = st.ts.get('res')
        if r is None or st.ts.get('setup'):
            # the request could not even be made
            if cond(st, 'sge', ret, C(64, 0)):
                self.rep(st, 'the query succeeds without a request')
        elif r == 'conn':
            self.want(st, 'counted', ret, cnt)
            g['H.cnt'] = add(cnt, C(32, 1))
        elif r == 'other':
            self.want(st, 'fatal', ret, cnt)
        elif st.ts.get('noinfo'):
            if cond(st, 'sgt', ret, C(64, 0)):
                self.rep(st, 'data is delivered although the status is not known')
        else:
            h = g['http']
            cls = st.ts.get('cls')
            miss, bad, good = [], None, None
            if cls == 'miss':
                miss = [st]
            elif cls == 'bad':
                bad = st
            elif cls == 'good':
                good = st
            else:
                miss = [s for s in (cond(st, 'eq', h, C(64, 404)), cond(st, 'eq', h, C(64, 410))) if s is not None]
                bad = cond(st, 'sge', h, C(64, 400))
                good = cond(st, 'slt', h, C(64, 400))
                if bad is not None and not (bad.assume('ne', h, C(64, 404)) and bad.assume('ne', h, C(64, 410))):
                    bad = None
            kinds = []
            for s in miss:
                self.want(s, 'miss', ret, cnt)
                kinds.append('miss')
            if bad is not None:
                self.want(bad, 'counted', ret, cnt)
                kinds.append('counted')
            if good is not None:
                d = st.ts.get('dec')
                self.want(good, 'good' if d == 'good' else 'miss', ret, cnt)
                kinds.append('reset' if d == 'good' else 'miss')
            # the new count: only where the status is known is it known
            ks = set(kinds)
            if len(ks) > 1:
                g['H.cnt'] = sym(32, 'cnt')
            elif ks == {'counted'}:
                g['H.cnt'] = add(cnt, C(32, 1))
            elif ks == {'reset'}:
                g['H.cnt'] = C(32, 0)
        self.clear(st)
        setts(st, inq=None, noinfo=None)
        g.pop('http', None)
    def on_getinfo(self, st, ok, inst):
        if st.ts.get('res') == 'ok':
            setts(st, noinfo=None if ok else 1)

class Fresh:
    """C08: each attempt starts from scratch; bounded attempts, growing waits"""
    MAXTRIES = 16
    MAXWAIT = 60 * 1000 * 1000
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C08', m, inst)
    def on_query(self, st, **_):
        setts(st, tries=None, fresh=None, slept=None, first=None, last=None)
        st.ghost.pop('H.opos', None)
    def on_query_ret(self, st, **_):
        self.on_query(st)
    def on_zstd_init(self, st, ctx, ok, inst):
        self.eng.site('decoder reset', inst)
        setts(st, fresh=1 if ok else None)
    def on_sleep(self, st, name, args, inst):
        F = st.F
        self.eng.site('wait', inst)
        w = F.const(args[0]) if name in ('usleep', 'sleep') else None
        if w is None:
            w = F.ub(args[0])[1] if name in ('usleep', 'sleep') else 0
        if name == 'sleep':
            w *= 1000000
        if w > self.MAXWAIT:
            self.rep(st, 'the wait between two attempts is not limited', inst)
        p = st.ts.get('last')
        if p is not None and w < p:
            self.rep(st, 'the wait between two attempts becomes shorter', inst)
        if not w:
            self.rep(st, 'there is no wait between two attempts', inst)
        k = st.ts.get('tries', 0)
        if k >= 3 and st.ts.get('first') is not None and w <= st.ts['first']:
            self.rep(st, 'the wait between attempts does not grow', inst)
        setts(st, slept=1, last=w, first=st.ts.get('first', w))
    def on_perform(self, st, h, inst):
        e = self.eng
        e.site('attempt', inst)
        k = st.ts.get('tries', 0)
        if k and not st.ts.get('slept'):
            self.rep(st, 'a request is repeated without a wait', inst)
        if k + 1 > self.MAXTRIES:
            self.rep(st, 'the number of attempts is not bounded', inst)
            k -= 1
        if not st.ts.get('fresh'):
            self.rep(st, 'an attempt starts without a fresh decompressor', inst)
        setts(st, tries=k + 1, fresh=None, slept=None)

class Feed:
    """C08: within one attempt the decoder is given what is received, all of
    it, in order and once; nothing of an earlier attempt"""
    def rep(self, st, m, inst=None):
        self.eng.report(st, 'C08', m, inst)
        if st.ts.get('key'):
            self.eng.report(st, 'C13', m, inst)
    def on_keyspec(self, st, ok, **_):
        if ok:
            setts(st, key=1)
    def clear(self, st):
        setts(st, on=None, direct=None, kept=None, all=None)
        for k in ('H.fill', 'H.left', 'H.n', 'H.opos', 'H.eat', 'H.buf'):
            st.ghost.pop(k, None)
    def on_query(self, st, **_):
        self.clear(st)
    def on_query_ret(self, st, **_):
        self.clear(st)
    def on_perform(self, st, h, inst):
        self.clear(st)
        setts(st, on=1, kept=0)
        st.ghost['H.fill'] = C(64, 0)
        st.ghost['H.opos'] = C(64, 0)
    def on_perform_ret(self, st, **_):
        self.clear(st)
    def on_body(self, st, oid, n, inst):
        g = st.ghost
        g['H.n'] = n
        g['H.left'] = n
        g['H.eat'] = C(64, 0)
    # --------------------------------------------- input: pending bytes lie at the start of one buffer
    def isbuf(self, st, oid):
        return oid is not None and oid[:2] in ('h:', 'd:')
    def append(self, st, src, soff, dst, doff, n, inst):
        g, F = st.ghost, st.F
        self.eng.site('input kept', inst)
        if not same(F, soff, sub(g['H.n'], g['H.left'])) or F.decide('eq', g['H.eat'], C(64, 0)) is not True:
            self.rep(st, 'received data is kept out of order', inst)
        if not same(F, doff, g['H.fill']):
            self.rep(st, 'received data is not put right behind the data already kept (which must be empty when an attempt starts)', inst)
        g['H.fill'] = add(g['H.fill'], n)
        g['H.left'] = sub(g['H.left'], n)
        st.ghost['H.buf'] = self.eng.base_of(dst)
    def on_copy(self, st, src, soff, dst, doff, n, inst):
        if st.ts.get('on') != 1:
            return
        g, F = st.ghost, st.F
        if src == 'cb:data' and self.isbuf(st, dst):
            self.append(st, src, soff, dst, doff, n, inst)
        elif src == dst and self.isbuf(st, src) and 'H.buf' in g and self.eng.obj_of(st, g['H.buf']) == src:
            if not same(F, soff, g['H.eat']) or F.const(doff) != 0 or F.decide('uge', n, sub(g['H.fill'], g['H.eat'])) is not True:
                self.rep(st, 'data not yet decoded is lost or repeated', inst)
            g['H.fill'] = sub(g['H.fill'], g['H.eat'])
            g['H.eat'] = C(64, 0)
    def on_cipher(self, st, ok, ctx, oid, off, do, df, n, n32, inst):
        if st.ts.get('on') == 1 and ok and oid == 'cb:data' and self.isbuf(st, do):
            self.append(st, oid, off, do, df, n, inst)
    def on_realloc(self, st, old, new, n, inst):
        b = st.ghost.get('H.buf')
        if st.ts.get('on') == 1 and b is not None and self.eng.obj_of(st, b) == old:
            st.ghost['H.buf'] = addr(new)
    def on_zstd(self, st, ctx, dst, dsz, dpos, src, ssz, spos, inst):
        e, g, F = self.eng, st.ghost, st.F
        e.site('decode', inst)
        if st.ts.get('on') != 1:
            self.rep(st, 'data is decoded outside of a request', inst)
            return
        b, off = ae.ptr_split(dst)
        at, end = add(off, dpos), add(off, dsz)
        if b is None or b.op != 'a' or b.aux != 'x:qout' or not same(F, at, g['H.opos']):
            self.rep(st, 'decoded data is not put right behind the data already decoded in this attempt', inst)
        b, off = ae.ptr_split(src)
        at, n = add(off, spos), sub(ssz, spos)
        oid = b.aux if b is not None and b.op == 'a' else e.obj_of(st, b) if b is not None else None
        if oid == 'cb:data':
            e.site('decoded directly', inst)
            ok = F.decide('eq', g['H.fill'], C(64, 0)) is True and same(F, at, sub(g['H.n'], g['H.left'])) and same(F, n, g['H.left'])
            setts(st, direct=1)
        else:
            ok = oid and 'H.buf' in g and e.obj_of(st, g['H.buf']) == oid and same(F, at, g['H.eat']) and same(F, n, sub(g['H.fill'], g['H.eat']))
            setts(st, direct=None)
        if not ok:
            self.rep(st, 'the decoder is not given exactly the data it has not decoded yet', inst)
    def on_zstd_ret(self, st, ok, inst, npos=None, ipos=None, dst=None, src=None, spos=None, **kw):
        g = st.ghost
        if not ok or st.ts.get('on') != 1:
            return
        b, off = ae.ptr_split(dst)
        g['H.opos'] = add(off, npos)
        used = sub(ipos, spos)
        if st.ts.get('direct'):
            g['H.left'] = sub(g['H.left'], used)
        elif ipos is kw['ssz']:
            g['H.fill'] = g['H.eat'] = C(64, 0)       # nothing is left
        else:
            g['H.eat'] = add(g['H.eat'], used)
        setts(st, direct=None, all=1 if ipos is kw['ssz'] else 0)
    def on_body_ret(self, st, oid, n, ok, inst):
        g, F = st.ghost, st.F
        if ok and st.ts.get('on') == 1:
            if F.decide('eq', g['H.left'], C(64, 0)) is not True:
                self.rep(st, 'received data is neither decoded nor kept for later', inst)
            if F.decide('eq', g['H.eat'], C(64, 0)) is not True:
                self.rep(st, 'decoded data is decoded again later', inst)
            setts(st, kept=0 if F.decide('eq', g['H.fill'], C(64, 0)) is True else 1)
        elif st.ts.get('on') == 1 and not ok:
            setts(st, on='failed')
        setts(st, all=None)
        for k in ('H.left', 'H.n', 'H.eat'):
            g.pop(k, None)
