"""Numeric abstract domain: intervals (signed and unsigned) plus linear
inequalities over the unsigned integer values of nodes, with entailment by
Fourier-Motzkin elimination on the relevant constraints."""
import math
from nodes import *

INF = None
_prove_cache = {}
_ver = [0]

def newver():
    _ver[0] += 1
    return _ver[0]

def fadd(f, g, k=1):
    c, d = f
    d = dict(d)
    for v, x in g[1].items():
        y = d.get(v, 0) + k * x
        if y:
            d[v] = y
        else:
            d.pop(v, None)
    return (c + k * g[0], d)

def fkey(f):
    return (f[0], tuple(sorted((v.id, k) for v, k in f[1].items())))

class Facts:
    __slots__ = ('u', 's', 'lin', 'raw', 'ne', 'eq', 'ver', 'cu', 'cs_', 'idx', 'cf')

    def __init__(self):
        self.u = {}      # node -> (lo, hi) unsigned
        self.s = {}      # node -> (lo, hi) signed
        self.lin = {}    # key -> form  (form >= 0)
        self.raw = set() # (pred, a, b) signed comparisons not yet linear
        self.ne = set()  # frozenset pairs
        self.eq = {}     # wide node -> frozenset(neighbours)
        self.ver = newver()
        self.cu = {}
        self.cs_ = {}
        self.cf = {}
        self.idx = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.u = dict(self.u)
        f.s = dict(self.s)
        f.lin = dict(self.lin)
        f.raw = set(self.raw)
        f.ne = set(self.ne)
        f.eq = dict(self.eq)
        f.ver = self.ver
        f.cu = self.cu
        f.cs_ = self.cs_
        f.cf = self.cf
        f.idx = self.idx
        return f

    def touch(self):
        self.ver = newver()
        self.cu = {}
        self.cs_ = {}
        self.cf = {}
        self.idx = None

    # ---------------------------------------------------------- intervals
    def ub(self, n):
        if n.op == 'c':
            return (n.aux, n.aux)
        r = self.cu.get(n)
        if r is None:
            r = self._ub(n)
            x = self.u.get(n)
            if x:
                r = (max(r[0], x[0]), min(r[1], x[1]))
            y = self.s.get(n)
            if y and y[0] >= 0:
                r = (max(r[0], y[0]), min(r[1], y[1]))
            self.cu[n] = r
        return r

    def _ub(self, n):
        w = n.w
        M = (1 << w) - 1
        full = (0, M)
        op = n.op
        a = n.args
        if op == 'a':
            return (4096, 1 << 47)
        if op == 's' or op == 'ld':
            return full
        if op == 'lin':
            c, co = n.aux
            c = sgn(c, w)
            lo = hi = c
            for x, k in zip(a, co):
                l, h = self.ub(x)
                if k > 0:
                    lo += k * l; hi += k * h
                else:
                    lo += k * h; hi += k * l
            if lo >= 0 and hi <= M:
                return (lo, hi)
            if hi < 0 and lo >= -M - 1:
                return (lo + M + 1, hi + M + 1)
            return full
        if op == 'zext':
            return self.ub(a[0])
        if op == 'trunc':
            l, h = self.ub(a[0])
            return (l, h) if h <= M else full
        if op == 'sext':
            l, h = self.sb(a[0])
            if l >= 0:
                return (l, h)
            if h < 0:
                return (l + M + 1, h + M + 1)
            return full
        if op == 'and':
            return (0, min(self.ub(a[0])[1], self.ub(a[1])[1]))
        if op == 'or':
            x, y = self.ub(a[0]), self.ub(a[1])
            return (max(x[0], y[0]), (1 << max(x[1].bit_length(), y[1].bit_length())) - 1)
        if op == 'xor':
            x, y = self.ub(a[0]), self.ub(a[1])
            return (0, (1 << max(x[1].bit_length(), y[1].bit_length())) - 1)
        if op == 'lshr':
            x, y = self.ub(a[0]), self.ub(a[1])
            return (x[0] >> min(y[1], w), x[1] >> min(y[0], w))
        if op == 'shl':
            x, y = self.ub(a[0]), self.ub(a[1])
            if y[1] < w and (x[1] << y[1]) <= M:
                return (x[0] << y[0], x[1] << y[1])
            return full
        if op == 'mul':
            x, y = self.ub(a[0]), self.ub(a[1])
            if x[1] * y[1] <= M:
                return (x[0] * y[0], x[1] * y[1])
            return full
        if op == 'udiv':
            x, y = self.ub(a[0]), self.ub(a[1])
            return (x[0] // max(y[1], 1), x[1] // max(y[0], 1))
        if op == 'urem':
            x, y = self.ub(a[0]), self.ub(a[1])
            h = x[1]
            if y[1] > 0:
                h = min(h, y[1] - 1)
            if y[0] > x[1]:
                return x
            return (0, h)
        if op in ('sdiv', 'srem'):
            x, y = self.sb(a[0]), self.sb(a[1])
            if x[0] >= 0 and y[0] > 0:
                if op == 'sdiv':
                    return (x[0] // y[1], x[1] // y[0])
                return (0, min(x[1], y[1] - 1))
            return full
        if op == 'cat':
            lo = hi = 0
            for i, b in enumerate(a):
                l, h = self.ub(b)
                lo += l << (8 * i); hi += h << (8 * i)
            return (lo, hi)
        if op == 'strlen':
            return (0, 1 << 40)
        if op == 'memcmp' and (a[0] is a[1] or self.wide_eq(a[0], a[1])):
            return (0, 0)
        if op == 'ite':
            x, y = self.ub(a[1]), self.ub(a[2])
            return (min(x[0], y[0]), max(x[1], y[1]))
        if op == 'fptoui' and n.aux:
            return n.aux
        return full

    def sb(self, n):
        if n.op == 'c':
            v = cs(n)
            return (v, v)
        r = self.cs_.get(n)
        if r is None:
            r = self._sb(n)
            x = self.s.get(n)
            if x:
                r = (max(r[0], x[0]), min(r[1], x[1]))
            self.cs_[n] = r
        return r

    def _sb(self, n):
        w = n.w
        H = 1 << (w - 1) if w else 1
        full = (-H, H - 1)
        op = n.op
        a = n.args
        r = full
        if op == 'lin':
            c, co = n.aux
            lo = hi = sgn(c, w)
            for x, k in zip(a, co):
                l, h = self.sb(x)
                if k > 0:
                    lo += k * l; hi += k * h
                else:
                    lo += k * h; hi += k * l
            if lo >= -H and hi < H:
                r = (lo, hi)
        elif op == 'sext':
            r = self.sb(a[0])
        elif op == 'trunc':
            l, h = self.sb(a[0])
            if l >= -H and h < H:
                r = (l, h)
        elif op in ('sdiv', 'srem'):
            x, y = self.sb(a[0]), self.sb(a[1])
            if y[0] > 0:
                if op == 'sdiv':
                    r = (min(x[0], -(-x[0] // y[0]) if x[0] < 0 else 0), max(x[1], 0))
                else:
                    r = (-(y[1] - 1) if x[0] < 0 else 0, min(y[1] - 1, max(x[1], 0)))
        elif op == 'ashr':
            l, h = self.sb(a[0])
            k = self.ub(a[1])
            if k[0] == k[1]:
                r = (l >> k[0], h >> k[0])
        elif op == 'ite':
            x, y = self.sb(a[1]), self.sb(a[2])
            r = (min(x[0], y[0]), max(x[1], y[1]))
        if op != 'c':
            l, h = self._ub(n) if n not in self.u else (max(self._ub(n)[0], self.u[n][0]), min(self._ub(n)[1], self.u[n][1]))
            if h < H:
                r = (max(r[0], l), min(r[1], h))
            elif l >= H:
                r = (max(r[0], l - 2 * H), min(r[1], h - 2 * H))
        return r

    def const(self, n):
        """the constant value of n, if it has only one"""
        if n.op == 'c':
            return n.aux
        if n.w == 0 or n.w > 64:
            return None
        l, h = self.ub(n)
        return l if l == h else None

    def norm(self, n):
        if n.op == 'c' or n.w == 0 or n.w > 64:
            return n
        v = self.const(n)
        if v is None:
            if n.op == 'lin':
                c, d = lin_parts(n)
                k = {x: self.const(x) for x in d}
                if any(y is not None for y in k.values()):
                    r = C(n.w, c)
                    for x, q in d.items():
                        r = add(r, mulc(x if k[x] is None else C(n.w, k[x]), q))
                    return r
            return n
        return C(n.w, v)

    # ---------------------------------------------------------- linear forms
    def fb(self, f):
        """bounds of a form from the intervals"""
        lo = hi = f[0]
        for v, k in f[1].items():
            l, h = self.ub(v)
            if k > 0:
                lo += k * l; hi += k * h
            else:
                lo += k * h; hi += k * l
        return lo, hi

    def uform(self, n, depth=0):
        if n.op == 'c':
            return (n.aux, {})
        r = self.cf.get(n)
        if r is not None:
            return r
        r = self._uform(n, depth)
        if depth < 2:
            self.cf[n] = r
        return r

    def _uform(self, n, depth):
        op = n.op
        l, h = self.ub(n)
        if l == h:
            return (l, {})
        if op == 'zext':
            return self.uform(n.args[0], depth)
        if op == 'trunc':
            if self.fits(n):
                return self.uform(n.args[0], depth)
            return (0, {n: 1})
        if op == 'sext':
            if self.sb(n.args[0])[0] >= 0:
                return self.uform(n.args[0], depth)
            return (0, {n: 1})
        if op == 'lin':
            c, co = n.aux
            f = (sgn(c, n.w), {})
            for x, k in zip(n.args, co):
                f = fadd(f, self.uform(x, depth), k)
            M = (1 << n.w) - 1
            lo, hi = self.fb(f)
            if lo >= 0 and hi <= M:
                return f
            if depth < 3:
                if (lo >= 0 or self.prove(f, depth + 1)) and \
                   (hi <= M or self.prove(fadd((M, {}), f, -1), depth + 1)):
                    return f
            # signed interpretation: value known nonnegative
            return (0, {n: 1})
        return (0, {n: 1})

    def axioms(self, v, depth):
        """constraints implied by the structure of v"""
        out = []
        if v.op in ('udiv', 'urem') and v.args[1].op == 'c' and v.args[1].aux > 0:
            k = v.args[1].aux
            x = self.uform(v.args[0], depth + 1)
            if v.op == 'udiv':
                out.append(fadd(x, (0, {v: 1}), -k))
                out.append(fadd((k - 1, {v: k}), x, -1))
            else:
                q = mk('udiv', v.w, v.args)
                out.append(fadd(fadd(x, (0, {q: 1}), -k), (0, {v: 1}), -1))
                out.append(fadd(fadd((0, {v: 1}), (0, {q: 1}), k), x, -1))
                out.append(fadd(x, (0, {v: 1}), -1))
        elif v.op == 'trunc':
            out.append(fadd(self.uform(v.args[0], depth + 1), (0, {v: 1}), -1))
        elif v.op in ('udiv', 'urem', 'and', 'lshr'):
            x = self.uform(v.args[0], depth + 1)
            out.append(fadd(x, (0, {v: 1}), -1))
            if v.op == 'and':
                out.append(fadd(self.uform(v.args[1], depth + 1), (0, {v: 1}), -1))
            if v.op == 'urem' and self.ub(v.args[1])[0] > 0:
                out.append(fadd(fadd(self.uform(v.args[1], depth + 1), (0, {v: 1}), -1), (1, {}), -1))
        elif v.op in ('sdiv', 'srem') and v.args[1].op == 'c' and cs(v.args[1]) > 0 and self.sb(v.args[0])[0] >= 0:
            k = cs(v.args[1])
            x = self.uform(v.args[0], depth + 1)
            if v.op == 'sdiv':
                out.append(fadd(x, (0, {v: 1}), -k))
                out.append(fadd((k - 1, {v: k}), x, -1))
            else:
                q = mk('sdiv', v.w, v.args)
                out.append(fadd(fadd(x, (0, {q: 1}), -k), (0, {v: 1}), -1))
                out.append(fadd(fadd((0, {v: 1}), (0, {q: 1}), k), x, -1))
        return out

    def index(self):
        if self.idx is None:
            idx = {}
            for f in self.lin.values():
                for v in f[1]:
                    idx.setdefault(v, []).append(f)
            # signed facts whose operands turned out to be nonnegative
            for p, a, b in self.raw:
                if self.sb(a)[0] >= 0 and self.sb(b)[0] >= 0:
                    f = fadd(self.uform(b, 2), self.uform(a, 2), -1)
                    if p == 'slt':
                        f = (f[0] - 1, f[1])
                    for v in f[1]:
                        idx.setdefault(v, []).append(f)
            self.idx = idx
        return self.idx

    def prove(self, f, depth=0):
        """does f >= 0 follow?"""
        lo, hi = self.fb(f)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        key = (self.ver, fkey(f))
        r = _prove_cache.get(key)
        if r is not None:
            return r
        if depth > 3:
            return False
        if len(_prove_cache) > 400000:
            _prove_cache.clear()
        _prove_cache[key] = False
        r = self._fm(f, depth)
        _prove_cache[key] = r
        return r

    def _fm(self, goal, depth):
        idx = self.index()
        cons = {}
        neg = (-goal[0] - 1, {v: -k for v, k in goal[1].items()})
        cons[fkey(neg)] = neg
        seen = set()
        front = set(goal[1])
        axs = set()
        for rnd in range(4):
            nxt = set()
            for v in front:
                if v in seen:
                    continue
                seen.add(v)
                fs = list(idx.get(v, ()))
                if depth < 2:
                    fs += self.axioms(v, depth)
                for f in fs:
                    k = fkey(f)
                    if k not in cons:
                        cons[k] = f
                        for x in f[1]:
                            if x not in seen:
                                nxt.add(x)
                if len(cons) > 60:
                    break
            front = nxt
            if not front or len(cons) > 60:
                break
        allv = set()
        for f in cons.values():
            allv.update(f[1])
        for v in allv:
            l, h = self.ub(v)
            f = (-l, {v: 1})
            cons[fkey(f)] = f
            f = (h, {v: -1})
            cons[fkey(f)] = f
        return fm_infeasible(list(cons.values()))

    # ---------------------------------------------------------- decide
    def decide(self, pred, a, b):
        """True / False / None for an integer comparison"""
        if a is b:
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if a.w > 64 or a.w == 0:
            if pred in ('eq', 'ne'):
                if self.wide_eq(a, b):
                    return pred == 'eq'
                if frozenset((a, b)) in self.ne:
                    return pred == 'ne'
            return None
        if pred == 'ugt': return self.decide('ult', b, a)
        if pred == 'uge': return self.decide('ule', b, a)
        if pred == 'sgt': return self.decide('slt', b, a)
        if pred == 'sge': return self.decide('sle', b, a)
        if pred == 'ne':
            r = self.decide('eq', a, b)
            return None if r is None else not r
        if pred[0] == 's':
            x, y = self.sb(a), self.sb(b)
            if pred == 'slt':
                if x[1] < y[0]: return True
                if x[0] >= y[1]: return False
            else:
                if x[1] <= y[0]: return True
                if x[0] > y[1]: return False
            if (pred, a, b) in self.raw: return True
            if pred == 'sle' and ('slt', a, b) in self.raw: return True
            opp = ('sle' if pred == 'slt' else 'slt', b, a)
            if opp in self.raw: return False
            if pred == 'slt' and ('slt', b, a) in self.raw: return False
            if x[0] >= 0 and y[0] >= 0:
                return self.decide('u' + pred[1:], a, b)
            fa = self.sform(a)
            fb_ = self.sform(b) if fa is not None else None
            if fb_ is not None:
                f = fadd(fb_, fa, -1)
                k = 1 if pred == 'slt' else 0
                if self.prove((f[0] - k, f[1])): return True
                if self.prove((-f[0] - 1 + k, {v: -c for v, c in f[1].items()})): return False
            return None
        x, y = self.ub(a), self.ub(b)
        if pred == 'eq':
            if x[1] < y[0] or y[1] < x[0]:
                return False
            if x[0] == x[1] == y[0] == y[1]:
                return True
            if frozenset((a, b)) in self.ne:
                return False
            # modular difference
            d = sub(a, b)
            if d.op == 'c':
                return d.aux == 0
            if self.ub(d)[0] > 0:
                return False
            sd = self.sb(d)
            if sd[1] < 0:
                return False
            if frozenset((d, C(d.w, 0))) in self.ne:
                return False
            if a.op == 'trunc' and b.op == 'c' and a.args[0].op == 'lin' and self.fits(a):
                return self.decide('eq', a.args[0], C(a.args[0].w, b.aux))
            sx, sy = self.sb(a), self.sb(b)
            if sx[1] < sy[0] or sy[1] < sx[0]:
                return False
            f = fadd(self.uform(a), self.uform(b), -1)
            if not f[1]:
                return f[0] == 0
            g = (-f[0], {v: -k for v, k in f[1].items()})
            if self.prove((f[0] - 1, f[1])) or self.prove((g[0] - 1, g[1])):
                return False
            if self.prove(f) and self.prove(g):
                return True
            return None
        if pred == 'ult':
            if x[1] < y[0]: return True
            if x[0] >= y[1]: return False
            f = fadd(self.uform(b), self.uform(a), -1)
            if self.prove((f[0] - 1, f[1])): return True
            if self.prove((-f[0], {v: -k for v, k in f[1].items()})): return False
            return None
        if pred == 'ule':
            r = self.decide('ult', b, a)
            return None if r is None else not r
        return None

    def fits(self, n):
        """nothing is cut off by the truncation n"""
        x = n.args[0]
        if self.ub(x)[1] < (1 << n.w):
            return True
        if x.op != 'lin' or len(x.args) > 4:
            return False
        f = self.uform(x)
        return x not in f[1] and self.prove(((1 << n.w) - 1 - f[0], {v: -k for v, k in f[1].items()}))

    def wide_eq(self, a, b):
        if a is b:
            return True
        if a.w != b.w:
            return False
        seen = {a}
        todo = [a]
        while todo:
            x = todo.pop()
            for y in self.eq.get(x, ()):
                if y is b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def wide_class(self, a):
        seen = {a}
        todo = [a]
        while todo:
            x = todo.pop()
            for y in self.eq.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def add_eq(self, a, b):
        if a is b:
            return
        self.eq[a] = self.eq.get(a, frozenset()) | {b}
        self.eq[b] = self.eq.get(b, frozenset()) | {a}
        self.touch()

    # ---------------------------------------------------------- refine
    def set_u(self, n, lo, hi):
        """intersect; returns False when empty"""
        if n.op == 'c':
            return lo <= n.aux <= hi
        l, h = self.ub(n)
        nl, nh = max(l, lo), min(h, hi)
        if (nl, nh) == (l, h):
            return True
        if self.ne and nh - nl < 64:
            while nl <= nh and frozenset((n, C(n.w, nl))) in self.ne: nl += 1
            while nl <= nh and frozenset((n, C(n.w, nh))) in self.ne: nh -= 1
        if nl > nh:
            return False
        self.u[n] = (nl, nh)
        self.touch()
        return self.down_u(n, nl, nh)

    def down_u(self, n, lo, hi):
        M = (1 << n.w)
        op = n.op
        if op == 'zext':
            return self.set_u(n.args[0], lo, hi)
        if op == 'sext':
            w0 = n.args[0].w
            if hi < (1 << (w0 - 1)):
                return self.set_u(n.args[0], lo, hi)
            return True
        if op == 'trunc':
            if self.ub(n.args[0])[1] < M:
                return self.set_u(n.args[0], lo, hi)
            return True
        if op == 'lin':
            c, co = n.aux
            if len(co) == 1 and abs(co[0]) == 1:
                x = n.args[0]
                c = sgn(c, n.w)
                if lo == hi:
                    v = (lo - c) * co[0] % M
                    return self.set_u(x, v, v)
                if co[0] == 1:
                    xl, xh = self.ub(x)
                    if xl + c >= 0 and xh + c < M:
                        return self.set_u(x, lo - c, hi - c)
                    if xl + c >= -M and xh + c < 0:
                        return self.set_u(x, lo - c - M, hi - c - M)
                else:
                    xl, xh = self.ub(x)
                    if c - xh >= 0 and c - xl < M:
                        return self.set_u(x, c - hi, c - lo)
            return True
        if op == 'and' and n.args[1].op == 'c':
            return True
        if op == 'udiv' and n.args[1].op == 'c' and n.args[1].aux:
            k = n.args[1].aux
            return self.set_u(n.args[0], lo * k, hi * k + k - 1)
        if op in ('memcmp', 'strcmp') and lo == 0 and hi == 0 and len(n.args) == 2:
            self.add_eq(n.args[0], n.args[1])
            return True
        if op == 'cat' and lo == hi:
            for i, b in enumerate(n.args):
                v = (lo >> (8 * i)) & 255
                if not self.set_u(b, v, v):
                    return False
        return True

    def set_s(self, n, lo, hi):
        if n.op == 'c':
            return lo <= cs(n) <= hi
        l, h = self.sb(n)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh:
            return False
        if (nl, nh) == (l, h):
            return True
        self.s[n] = (nl, nh)
        self.touch()
        H = 1 << (n.w - 1)
        if nl >= 0:
            if not self.set_u(n, nl, nh):
                return False
        elif nh < 0:
            if not self.set_u(n, nl + 2 * H, nh + 2 * H):
                return False
        if n.op == 'sext':
            return self.set_s(n.args[0], nl, nh)
        if n.op == 'trunc':
            l0, h0 = self.sb(n.args[0])
            if l0 >= -H and h0 < H:
                return self.set_s(n.args[0], nl, nh)
        if n.op == 'lin':
            c, co = n.aux
            if len(co) == 1 and co[0] == 1:
                c = sgn(c, n.w)
                l0, h0 = self.sb(n.args[0])
                if l0 + c >= -H and h0 + c < H:
                    return self.set_s(n.args[0], nl - c, nh - c)
        return True

    def add_lin(self, f):
        """assume f >= 0"""
        if not f[1]:
            return f[0] >= 0
        lo, hi = self.fb(f)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        if len(f[1]) == 1:
            (v, k), = f[1].items()
            if k > 0:
                return self.set_u(v, -(f[0] // k), self.ub(v)[1])
            return self.set_u(v, self.ub(v)[0], f[0] // -k)
        q = 0
        for k in f[1].values():
            q = math.gcd(q, k)
        if q > 1:
            f = (f[0] // q, {v: k // q for v, k in f[1].items()})
            lo, hi = self.fb(f)
        self.lin[fkey(f)] = f
        self.touch()
        # one round of bound propagation
        for v, k in f[1].items():
            rest_hi = hi - (k * self.ub(v)[1] if k > 0 else k * self.ub(v)[0])
            if k > 0:
                l = -(rest_hi // k)
                if l > self.ub(v)[0] and not self.set_u(v, l, self.ub(v)[1]):
                    return False
            else:
                h = rest_hi // -k
                if h < self.ub(v)[1] and not self.set_u(v, self.ub(v)[0], h):
                    return False
        return True

    def hint(self, pred, a, b):
        """record a comparison that already follows"""
        if pred in ('ugt', 'uge', 'sgt', 'sge'):
            a, b = b, a
            pred = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred]
        if pred[0] == 's' and not (self.sb(a)[0] >= 0 and self.sb(b)[0] >= 0):
            return
        f = fadd(self.uform(b), self.uform(a), -1)
        if pred.endswith('lt'):
            f = (f[0] - 1, f[1])
        if len(f[1]) < 2 or len(self.lin) > 80:
            return
        k = fkey(f)
        if k not in self.lin:
            self.lin[k] = f
            self.touch()

    def assume(self, pred, a, b):
        """add comparison; False if it is contradictory"""
        if a.op == 'c' and b.op != 'c':
            sw = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt',
                  'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}
            pred, a, b = sw[pred], b, a
        d = self.decide(pred, a, b)
        if d is False:
            return False
        if d is True:
            return True
        if a.w > 64 or a.w == 0:
            if pred == 'eq':
                self.add_eq(a, b)
            elif pred == 'ne':
                self.ne.add(frozenset((a, b)))
                self.touch()
            return True
        if b.op == 'c' and (pred == 'ule' and b.aux == 0 or pred == 'ult' and b.aux == 1):
            pred, b = 'eq', C(b.w, 0)
        if pred == 'eq' and b.op == 'c' and a.op == 'lin':
            # x - y = c (modulo 2^w) is y + c = x
            c, d = lin_parts(a)
            n = {k: -v for k, v in d.items() if v < 0}
            p = {k: v for k, v in d.items() if v > 0}
            if n and p:
                x, y = mklin(a.w, c - b.aux, p), mklin(a.w, 0, n)
                if not self.set_u(a, b.aux, b.aux):
                    return False
                return self.assume('eq', x, y)
        if pred == 'eq':
            l, h = self.ub(b)
            if not self.set_u(a, l, h):
                return False
            l, h = self.ub(a)
            if not self.set_u(b, l, h):
                return False
            if b.op != 'c':
                self.eq[a] = self.eq.get(a, frozenset()) | {b}
                self.eq[b] = self.eq.get(b, frozenset()) | {a}
                self.touch()
                f = fadd(self.uform(a), self.uform(b), -1)
                return self.add_lin(f) and self.add_lin((-f[0], {v: -k for v, k in f[1].items()}))
            if a.op in ('urem', 'srem') and a.args[1].op == 'c' and a.w == 64:
                k = a.args[1].aux
                x = a.args[0]
                if 0 < k < 1 << 32 and (a.op == 'urem' or self.sb(x)[0] >= 0) and cs(b) >= 0:
                    q = mk('udiv' if a.op == 'urem' else 'sdiv', a.w, a.args)
                    f = fadd(fadd(self.uform(x), (0, {q: 1}), -k), (b.aux, {}), -1)
                    return self.add_lin(f) and self.add_lin((-f[0], {v: -c for v, c in f[1].items()}))
            return True
        if pred == 'ne':
            self.ne.add(frozenset((a, b)))
            self.touch()
            if b.op == 'c':
                l, h = self.ub(a)
                if l == b.aux:
                    if a.op == 'lin' and len(a.args) < 5:
                        f = self.uform(a)
                        if len(f[1]) > 1 and not self.add_lin((f[0] - l - 1, f[1])):
                            return False
                    return self.set_u(a, l + 1, h)
                if h == b.aux:
                    return self.set_u(a, l, h - 1)
                sl, sh = self.sb(a)
                if sl == cs(b):
                    return self.set_s(a, sl + 1, sh)
                if sh == cs(b):
                    return self.set_s(a, sl, sh - 1)
            else:
                if self.decide('ule', a, b):
                    return self.assume('ult', a, b)
                if self.decide('ule', b, a):
                    return self.assume('ult', b, a)
            return True
        if pred in ('ugt', 'uge', 'sgt', 'sge'):
            a, b = b, a
            pred = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred]
        st = 1 if pred.endswith('lt') else 0
        if pred[0] == 'u':
            if not self.set_u(a, 0, self.ub(b)[1] - st):
                return False
            if not self.set_u(b, self.ub(a)[0] + st, (1 << b.w) - 1):
                return False
            f = fadd(self.uform(b), self.uform(a), -1)
            return self.add_lin((f[0] - st, f[1]))
        if not self.set_s(a, -(1 << (a.w - 1)), self.sb(b)[1] - st):
            return False
        if not self.set_s(b, self.sb(a)[0] + st, (1 << (b.w - 1)) - 1):
            return False
        fa, fb_ = self.sform(a), self.sform(b)
        if fa is not None and fb_ is not None:
            f = fadd(fb_, fa, -1)
            if len(f[1]) > 1 and not self.add_lin((f[0] - st, f[1])):
                return False
            if a.op == 'c' or b.op == 'c' or self.sb(a)[0] >= 0 and self.sb(b)[0] >= 0:
                return True
        if a.op != 'c' and b.op != 'c':
            self.raw.add((pred, a, b))
            self.touch()
        return True

    def sform(self, n):
        """signed value of n as an exact linear form, or None"""
        if n.op == 'c':
            return (cs(n), {})
        if n.op == 'lin':
            c, co = n.aux
            f = (sgn(c, n.w), {})
            for x, k in zip(n.args, co):
                if self.sb(x)[0] < 0:
                    return self.uform(n) if self.sb(n)[0] >= 0 else None
                f = fadd(f, self.uform(x), k)
            lo, hi = self.fb(f)
            H = 1 << (n.w - 1)
            if lo >= -H and hi < H:
                return f
        if n.op == 'sext':
            return self.sform(n.args[0])
        if self.sb(n)[0] >= 0:
            return self.uform(n)
        return None


def fm_infeasible(cons, cap=220):
    """rational infeasibility of a set of forms >= 0, by elimination"""
    from math import gcd
    def norm(f):
        c, d = f
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            return (c // g, {v: k // g for v, k in d.items()})
        return f
    cur = {}
    def addc(tab, f):
        if not f[1]:
            return f[0] < 0
        f = norm(f)
        k = tuple(sorted((v.id, x) for v, x in f[1].items()))
        o = tab.get(k)
        if o is None or f[0] < o[0]:
            tab[k] = f
        return False
    for f in cons:
        if addc(cur, f):
            return True
    steps = 0
    while True:
        occ = {}
        for f in cur.values():
            for v, k in f[1].items():
                p = occ.setdefault(v, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not occ:
            return False
        v = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos = [f for f in cur.values() if f[1].get(v, 0) > 0]
        neg = [f for f in cur.values() if f[1].get(v, 0) < 0]
        nxt = {}
        for k, f in cur.items():
            if v not in f[1]:
                nxt[k] = f
        if len(pos) * len(neg) > 400:
            return False
        for p in pos:
            for q in neg:
                a, b = p[1][v], -q[1][v]
                f = fadd((p[0] * b, {x: k * b for x, k in p[1].items()}), q, a)
                if addc(nxt, f):
                    return True
        if len(nxt) > cap:
            return False
        cur = nxt
        steps += 1
