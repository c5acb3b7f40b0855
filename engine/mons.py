"""Monitors: the rules, one class per property (or part of one)."""
from nodes import *
import ae, ext

def C64(n):
    return C(64, n) if isinstance(n, int) else n

class Mem:
    """C18: every access lies inside its object"""
    P = 'C18'
    def on_access(self, st, oid, off, n, write, inst, what):
        self.eng.site('access', inst)
        o = st.mem[oid]
        nn = C64(n)
        F = st.F
        self.element(st, oid, off, nn, write, inst)
        if o.size is None:
            return
        if F.decide('ule', off, o.size) and F.decide('ule', nn, sub(o.size, off)):
            return
        self.eng.report(st, 'C18', '%s of %s bytes at offset %s of an object of %s bytes (%s)' % (
            'write' if write else 'read', show(nn), show(off), show(o.size), oid), inst)
    def element(self, st, oid, off, nn, write, inst):
        """an access through &array[i] stays inside that array"""
        e = self.eng
        fn = e.stack[-1] if e.stack else None
        if fn is None or not inst or not fn.elems or id(inst) not in fn.own:
            return
        for o in inst.get('ops', ()):
            g = fn.elems.get(o[1]) if o and o[0] == 'v' else None
            if g is None or o[1] not in st.env or (g['b'][0] == 'v' and g['b'][1] not in st.env):
                continue
            p = st.env[o[1]]
            b, d = ae.ptr_split(p)
            if b is None or b.op != 'a' or b.aux != oid or not (d is off or st.F.decide('eq', d, off)):
                continue
            e.site('element', inst)
            rel = sub(p, e.val(st, g['b']))
            n = C64(g['arr'])
            if not (st.F.decide('ule', rel, n) and st.F.decide('ule', nn, sub(n, rel))):
                e.report(st, 'C18', '%s of %s bytes at offset %s of an array of %s bytes' % (
                    'write' if write else 'read', show(nn), show(rel), g['arr']), inst)
    def on_rowrite(self, st, oid, inst):
        self.eng.report(st, 'C18', 'write to constant object %s' % oid, inst)

class Abort:
    """C21: no abort, division by zero, null dereference"""
    P = 'C21'
    def on_abort(self, st, inst, name):
        self.eng.report(st, 'C21', 'assertion failure reachable (%s)' % name, inst)
    def on_null(self, st, inst, ptr):
        self.eng.report(st, 'C21', 'null pointer dereference', inst)
    def on_maynull(self, st, inst, ptr):
        if ptr not in self.eng.argv.optional:
            return          # merged value: its history is not known here
        self.eng.report(st, 'C21', 'dereference of a pointer that may be null', inst)
    def on_div(self, st, a, b, inst):
        self.eng.site('div', inst)
        if st.F.decide('eq', b, C(b.w, 0)) is not False:
            self.eng.report(st, 'C21', 'division by a value that may be zero', inst)
    def on_fptoint(self, st, lo, hi, w, inst):
        self.eng.site('fptoint', inst)
        if not (lo > -1 and hi < 2.0 ** w):
            self.eng.report(st, 'C21', 'conversion of an out-of-range floating point value [%g, %g]' % (lo, hi), inst)

class Life:
    """C22: nothing used after or released twice"""
    P = 'C22'
    def on_uaf(self, st, oid, inst):
        self.eng.report(st, 'C22', 'use of %s after it was freed' % oid, inst)
    def on_dfree(self, st, oid, inst):
        self.eng.report(st, 'C22', '%s is freed twice' % oid, inst)
    def on_badfree(self, st, oid, off, inst):
        self.eng.report(st, 'C22', 'free of a pointer into %s that was not allocated' % oid, inst)
