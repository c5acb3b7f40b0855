"""Program representation: functions, blocks, loop nests, call graph, and the
flow-insensitive facts (which fields are only ever assigned constants, which
fields a function may modify)."""
from nodes import *

class Loop:
    __slots__ = ('head', 'body', 'parent', 'kids', 'exiting')

class Fn:
    def __init__(self, j):
        self.j = j
        self.name = j['name']
        self.decl = j['decl']
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.params = j['params']
        self.ret = j['ret']
        self.vararg = bool(j.get('vararg'))
        self.dtypes = j.get('dtypes', [])
        self.blocks = j.get('blocks', [])
        if not self.decl:
            self.build()

    def succs(self, b):
        t = self.blocks[b][-1]
        if t['op'] == 'br':
            return list(dict.fromkeys(t['s']))
        if t['op'] == 'switch':
            return list(dict.fromkeys([t['def']] + [c[1] for c in t['cases']]))
        return []

    def build(self):
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        dom = {b: None for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [dom[p] for p in self.pred[b] if dom[p] is not None]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpon[s] <= self.rpon[b]:
                    if s not in dom[b]:
                        raise RuntimeError('irreducible control flow in ' + self.name)
                    l = self.loops.get(s)
                    if l is None:
                        l = self.loops[s] = Loop()
                        l.head = s
                        l.body = {s}
                        l.parent = None
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x in l.body:
                            continue
                        l.body.add(x)
                        todo += self.pred[x]
        for l in self.loops.values():
            l.exiting = [b for b in l.body if any(s not in l.body for s in self.succ[b])]
        self.ninst = sum(len(b) for b in self.blocks)
        self.live = liveness(self)
        self.elems = {i['id']: i for b in self.blocks for i in b if i['op'] == 'getelementptr' and 'arr' in i}
        self.own = {id(i) for b in self.blocks for i in b}

def operands(i):
    ops = list(i.get('ops', ()))
    for k in ('cond', 'b', 'callee'):
        if isinstance(i.get(k), list):
            ops.append(i[k])
    ops += [x[1] for x in i.get('var', ())]
    for o in ops:
        if o and o[0] == 'v':
            yield o[1]
        elif o and o[0] == 'a':
            yield ('a', o[1])

def liveness(f):
    """values needed at the start of each block (phis of the block included)"""
    use, deff, phiuse = {}, {}, {}
    for b in f.rpo:
        u, d = set(), set()
        for i in f.blocks[b]:
            if i['op'] == 'phi':
                d.add(i['id'])
                for p, o in i['inc']:
                    if o[0] == 'v':
                        phiuse.setdefault(p, set()).add(o[1])
                    elif o[0] == 'a':
                        phiuse.setdefault(p, set()).add(('a', o[1]))
                continue
            for v in operands(i):
                if v not in d:
                    u.add(v)
            d.add(i['id'])
        use[b], deff[b] = u, d
    phis = {b: {i['id'] for i in f.blocks[b] if i['op'] == 'phi'} for b in f.rpo}
    live = {b: set(use[b]) for b in f.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.rpo):
            out = set(phiuse.get(b, ()))
            for s in f.succ[b]:
                out |= live[s] - phis[s]
            n = use[b] | (out - deff[b])
            # values defined by the phis of b and used later count as live at its start
            n |= {p for p in phis[b]}
            if n != live[b]:
                live[b] = n
                ch = True
    return live

def path_tag(g):
    """static tag of a pointer-producing instruction"""
    if g['path']:
        return g['path'][-1]
    return None

class Prog:
    def __init__(self, name, j):
        self.name = name
        self.units = j.get('units', [])
        self.globals = {g['name']: g for g in j['globals']}
        self.fns = {f['name']: Fn(f) for f in j['functions']}
        self.calls = {}
        self.callers = {}
        self.addr_taken = set()
        self.stats = {'functions': sum(not f.decl for f in self.fns.values()),
                      'blocks': sum(len(f.blocks) for f in self.fns.values() if not f.decl),
                      'instructions': sum(f.ninst for f in self.fns.values() if not f.decl)}
        for f in self.fns.values():
            cs = self.calls[f.name] = []
            for b in f.blocks:
                for i in b:
                    ops = list(i.get('ops', ()))
                    if i['op'] == 'call':
                        c = i['callee']
                        cs.append((c[1] if c[0] == 'g' else None, i))
                        if c[0] == 'g':
                            self.callers.setdefault(c[1], []).append((f.name, i))
                    if i['op'] == 'phi':
                        ops += [x[1] for x in i['inc']]
                    for o in ops:
                        if o[0] == 'g' and o[1] in self.fns:
                            self.addr_taken.add(o[1])
        for g in self.globals.values():
            for off, o in g.get('relocs', ()):
                if o[0] == 'g' and o[1] in self.fns:
                    self.addr_taken.add(o[1])
        self.tags()

    def tags(self):
        """for every store instruction its static tag; tags only ever assigned constants"""
        self.store_tag = {}
        nonconst = set()
        seen = {}
        for f in self.fns.values():
            defs = {}
            for b in f.blocks:
                for i in b:
                    defs[i['id']] = i
            for b in f.blocks:
                for i in b:
                    if i['op'] == 'store':
                        p = i['ops'][1]
                        t = None
                        if p[0] == 'g':
                            t = 'g:%s+%d' % (p[1], p[2])
                        elif p[0] == 'v':
                            d = defs.get(p[1])
                            if d is not None and d['op'] == 'getelementptr':
                                t = path_tag(d)
                            elif d is not None and d['op'] == 'alloca':
                                t = 'l:%s:%d' % (f.name, d['id'])
                        self.store_tag[(f.name, i['id'])] = t
                        if t:
                            v = i['ops'][0]
                            seen.setdefault(t, set())
                            if v[0] == 'i' and i['size'] <= 4:
                                seen[t].add(int(v[2]))
                            elif v[0] == 'v' and defs.get(v[1], {}).get('op') == 'zext' and defs[v[1]].get('ots') == [1]:
                                seen[t] |= {0, 1}
                            elif v[0] == 'v' and i['size'] == 1 and self._boolish(defs, v[1]):
                                seen[t] |= {0, 1}
                            else:
                                nonconst.add(t)
        self.flag_tags = {t for t in seen if t not in nonconst and len(seen[t]) <= 6}

    def _boolish(self, defs, v):
        d = defs.get(v)
        return d is not None and d['op'] == 'zext' and d.get('ots') == [1]

    def reach(self, name):
        """functions reachable through direct calls, and through address-taken ones"""
        seen = set()
        todo = [name]
        while todo:
            x = todo.pop()
            if x in seen or x not in self.fns:
                continue
            seen.add(x)
            f = self.fns[x]
            for c, i in self.calls.get(x, ()):
                if c is not None:
                    todo.append(c)
                else:
                    for a in self.addr_taken:
                        g = self.fns[a]
                        if not g.decl and len(g.params) == len(i['ops']):
                            todo.append(a)
            for b in f.blocks:
                for i in b:
                    ops = list(i.get('ops', ()))
                    for o in ops:
                        if o[0] == 'g' and o[1] in self.fns and not self.fns[o[1]].decl:
                            todo.append(o[1])
        return seen

    def sig(self, f):
        return tuple(str(p) for p in f.params) + (str(f.ret),)

    def mod_tags(self, names):
        """field tags written by the closure of the given functions"""
        out = set()
        fs = set()
        for n in names:
            fs |= self.reach(n)
        for n in fs:
            for b in self.fns[n].blocks:
                for i in b:
                    if i['op'] == 'store':
                        t = self.store_tag[(n, i['id'])]
                        out.add(t)
        return out

def loc(i):
    f = i.get('f', '?')
    return '%s:%d' % (f.split('/')[-1] if '/repo' in f or True else f, i.get('l', 0))
