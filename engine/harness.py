"""Entry points of the analysed programs: initial abstract states."""
from nodes import *
import ae, ext, contracts

ARGC_MAX = 1 << 20

class Argv:
    """the argument vector: argc strings of unknown content, then NULL"""
    base = None
    def __init__(self):
        self.optional = set()
        self.pos = {}
    def setup(self, eng, st, argc, base='x:argv'):
        self.argc = argc
        n = mulc(ext.ae.zext(argc, 64), 8)
        eng.new_obj(st, base, add(n, C(64, 8)), 'unk', 'x')
        self.base = base
        return addr(base)

    def on_loaded(self, st, oid, off, n, val, inst):
        if oid != self.base or n != 8 or val.op == 'c':
            return
        eng = self.eng
        self.pos[val] = off
        argc8 = mulc(ae.zext(self.argc, 64), 8)
        val.isptr = True
        o2 = 'd:%d' % val.id
        if o2 not in st.mem:
            S = mk('ssize', 64, (val,))
            st.fw().set_u(S, 1, 1 << 31)
            o = eng.new_obj(st, o2, S, 'unk', 'd')
            o.gver = mk('dg', 0, (val,))
            o.cver = mk('dc', 0, (val,))
            o.nul = (sub(S, C(64, 1)),)
        if st.F.decide('ult', off, argc8):
            st.fw().set_u(val, 4096, 1 << 47)
        else:
            eng.maynull.add(val)
            self.optional.add(val)

def main_state(P, eng, argv, entry='main', minargs=1):
    st = ae.State()
    argc = named(32, 'argc')
    st.fw().set_s(argc, minargs, ARGC_MAX)
    a = argv.setup(eng, st, argc)
    f = P.fns[entry]
    return st, [argc, a][:len(f.params)]
