"""Rules for patchdd as a whole."""
from nodes import *
import ae, ext
from ae import zext, sext
from p_main import same, setts
from p_stores import cond

class Patch:
    """C25: every byte of the source compared or written; C04, C23: failures
    and unsynced data are not success; C11: the source is only read"""
    def rep(self, st, m, inst=None, p='C25'):
        self.eng.report(st, p, m, inst)
    def on_start(self, st):
        st.ghost['P.cov'] = C(64, 0)
        setts(st, bad=None, dirty=None, A=None, B=None, all=None)
    # -- files
    def on_open(self, st, fd, path, flags, inst, via=None):
        if via or fd is None:
            if fd is None and not via:
                setts(st, bad=1)
            return
        w = flags is None or flags & 3
        pos = self.eng.argv.pos.get(path)
        k = st.F.const(pos) if pos is not None else None
        self.eng.site('open', inst)
        if flags is None or flags & 0o1000:
            self.rep(st, 'a file is truncated when it is opened', inst)
        if k == 8:
            if w:
                for p in ('C11', 'C25'):
                    self.rep(st, 'the source is opened for writing', inst, p)
            st.ghost['P.src'] = fd
        elif k == 16:
            if flags is None or flags & 0o100:
                self.rep(st, 'the destination is created if it does not exist', inst, 'C11')
            st.ghost['P.dst'] = fd
        elif w:
            for p in ('C11', 'C25'):
                self.rep(st, 'something else than the destination is opened for writing', inst, p)
    def size(self, st, op, fd, inst):
        g = st.ghost
        n = mk('fsize' if op == 'fstat' else 'bsize', 64, (fd,))
        if same(st.F, fd, g.get('P.src')):
            g['P.ss'] = n
        elif same(st.F, fd, g.get('P.dst')):
            g['P.ds'] = n
    # -- transfers
    def step(self, st):
        """what was compared or written since the buffers were filled counts"""
        g, F = st.ghost, st.F
        if st.ts.get('A') and 'P.An' in g:
            lo, hi = g['P.Ao'], add(g['P.Ao'], g['P.done'])
            # (should hi be less than what is covered already, then that much is covered as well)
            if F.decide('ule', lo, g['P.cov']) is True and F.decide('ule', hi, g['P.cov']) is not True:
                g['P.cov'] = F.norm(hi)
                self.full(st)
    def full(self, st):
        g = st.ghost
        if 'P.ss' in g and not st.ts.get('all') and st.F.decide('sge', g['P.cov'], g['P.ss']) is True:
            setts(st, all=1)
    def on_io(self, st, op, res, fd, inst, oid=None, boff=None, want=None, off=None, got=None, **kw):
        e, g, F = self.eng, st.ghost, st.F
        self.drop(st)
        if op in ('fstat', 'ioctl') and res == 'ok':
            self.size(st, op, fd, inst)
        if op == 'close':
            return
        if op == 'fsync':
            e.site('sync', inst)
            if res == 'ok' and same(F, fd, g.get('P.dst')):
                setts(st, dirty=None)
        if res == 'fail' and op not in ('lseek',):
            setts(st, bad=1)
        if op in ('preadall', 'readall', 'pread', 'read'):
            self.read(st, op, res, fd, oid, boff, want if op.endswith('all') else got, off, inst)
        elif op in ('pwriteall', 'writeall', 'pwrite', 'write') and res == 'ok':
            self.written(st, op, fd, oid, boff, want if op.endswith('all') else got, off)
    def read(self, st, op, res, fd, oid, boff, n, off, inst):
        g, F = st.ghost, st.F
        src = same(F, fd, g.get('P.src'))
        if src:
            self.step(st)
            self.eng.site('source read', inst)
        if res != 'ok' or oid is None or off is None or F.const(F.norm(boff)) != 0:
            if oid is not None and oid == st.ts.get('A'):
                setts(st, A=None)
            if oid is not None and oid == st.ts.get('B'):
                setts(st, B=None)
            return
        if src:
            if st.ts.get('B') == oid:
                setts(st, B=None)
            setts(st, A=oid)
            g['P.Ao'], g['P.An'], g['P.done'] = off, n, C(64, 0)
        elif same(F, fd, g.get('P.dst')):
            self.eng.site('destination read', inst)
            if st.ts.get('A') == oid:
                setts(st, A=None)
            setts(st, B=oid)
            g['P.Bo'], g['P.Bn'] = off, n
    def on_iocall(self, st, op, fd, oid, boff, want, off, inst):
        if 'write' not in op:
            return
        e, g, F = self.eng, st.ghost, st.F
        if F.const(fd) in (1, 2):
            return
        e.site('write', inst)
        if not same(F, fd, g.get('P.dst')):
            for p in ('C11', 'C25'):
                self.rep(st, 'something else than the destination is written to', inst, p)
            return
        if off is None:
            self.rep(st, 'the destination is written to at a position that is not given', inst)
            return
        if oid is None or oid != st.ts.get('A'):
            if F.const(want) != 0:
                self.rep(st, 'what is written was not read from the source', inst)
            return
        if F.decide('eq', off, add(g['P.Ao'], boff)) is not True:
            self.rep(st, 'data is written to another offset than that it has in the source', inst)
        if F.decide('ule', add(boff, want), g['P.An']) is not True:
            self.rep(st, 'more is written than was read from the source', inst)
        s, d = g.get('P.ss'), g.get('P.ds')
        if s is None or d is None or F.decide('sge', d, s) is not True:
            self.rep(st, 'data is written although the destination may be smaller than the source', inst)
        elif F.decide('sle', add(off, want), s) is not True:
            self.rep(st, 'something is written beyond the size of the source', inst)
        setts(st, dirty=1)
    def written(self, st, op, fd, oid, boff, n, off):
        g, F = st.ghost, st.F
        if oid is None or oid != st.ts.get('A') or off is None:
            if F.const(n) == 0:
                self.step(st)
            return
        # bytes before this write that were not compared do not count
        if F.decide('ule', boff, g['P.done']) is True and F.decide('eq', off, add(g['P.Ao'], boff)) is True:
            g['P.done'] = F.norm(add(boff, n))
            self.step(st)
    def on_renamed(self, st, map):
        for k in ('A', 'B'):
            if st.ts.get(k) in map:
                setts(st, **{k: map[st.ts[k]]})
    # -- comparison
    def aligned(self, st):
        g = st.ghost
        return st.ts.get('A') and st.ts.get('B') and 'P.Bo' in g and same(st.F, g['P.Ao'], g['P.Bo'])
    def on_loaded(self, st, oid, off, n, val, inst):
        if n != 1:
            return
        if oid == st.ts.get('A'):
            st.ghost['P.va'], st.ghost['P.oa'] = val, off
        elif oid == st.ts.get('B'):
            st.ghost['P.vb'], st.ghost['P.ob'] = val, off
    def on_memcmp_region(self, st, a, b, n, inst):
        x = {a[0]: a[1], b[0]: b[1]}
        A, B = st.ts.get('A'), st.ts.get('B')
        if A in x and B in x and A != B and same(st.F, x[A], x[B]):
            st.ghost['P.ma'], st.ghost['P.mn'] = x[A], n
    def drop(self, st):
        for k in ('P.va', 'P.vb', 'P.oa', 'P.ob', 'P.ma', 'P.mn'):
            st.ghost.pop(k, None)
    def on_assume(self, st, pred, a, b):
        self.assumed(st, pred, a, b)
        if pred in ('eq', 'ne'):
            self.drop(st)
    def assumed(self, st, pred, a, b):
        g, F = st.ghost, st.F
        self.full(st)
        if st.ts.get('A') and 'P.An' in g and g['P.done'] is not g['P.An'] and F.decide('eq', g['P.done'], g['P.An']) is True:
            g['P.done'] = g['P.An']
            self.step(st)
        if pred != 'eq':
            return
        self.eng.sites.setdefault('comparison', set()).add('patchdd')
        if 'P.ma' in g and (a.op == 'memcmp' or b.op == 'memcmp'):
            m, n = g.pop('P.ma'), g.pop('P.mn')
            if self.aligned(st) and F.decide('ule', m, g['P.done']) is True:
                g['P.done'] = F.norm(add(m, n))
            return
        va, vb = g.get('P.va'), g.get('P.vb')
        if va is None or vb is None or not self.aligned(st) or F.decide('eq', va, vb) is not True:
            return
        if same(F, g['P.oa'], g['P.ob']) and same(F, g['P.oa'], g['P.done']) and F.decide('ult', g['P.oa'], g['P.Bn']) is True:
            g['P.done'] = F.norm(add(g['P.done'], C(64, 1)))
    # -- the end
    def on_exit(self, st, code, inst):
        e = self.eng
        e.sites.setdefault('exit', set()).add('main')
        z = cond(st, 'eq', code, C(32, 0))
        if z is None:
            return
        t, g = z.ts, z.ghost
        if t.get('bad'):
            self.rep(z, 'success is reported although something that was needed failed', inst, 'C04')
        if 'P.ss' not in g:
            self.rep(z, 'success is reported although nothing was compared', inst)
            return
        self.step(z)
        self.full(z)
        if not z.ts.get('all'):
            self.rep(z, 'success is reported although part of the source was neither compared nor written', inst)
        if t.get('dirty'):
            self.rep(z, 'success is reported although what was written was not synced', inst, 'C23')
