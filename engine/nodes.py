"""Hash-consed value expressions (value numbers) of the abstract domain."""

class N(float):
    """A value. It is a float only for the sake of a hash that is cheap and the
    same in every run (that of an object depends on its address, and with it the
    order of sets); the half keeps it apart from integers."""
    __slots__ = ('id', 'op', 'w', 'args', 'aux', 'isptr', 'depth')
    def __repr__(self):
        return show(self)
    __str__ = __repr__

_tab = {}
_cnt = [0]

def mk(op, w, args=(), aux=None):
    k = (op, w, tuple(a.id for a in args), aux)
    n = _tab.get(k)
    if n is None:
        n = N(len(_tab) + 0.5)
        n.id = len(_tab)
        n.op, n.w, n.args, n.aux = op, w, tuple(args), aux
        n.isptr = False
        n.depth = 1 + max([a.depth for a in args], default=0)
        _tab[k] = n
    return n

def C(w, v):
    return mk('c', w, (), v & ((1 << w) - 1))

def sym(w, name, ptr=False):
    _cnt[0] += 1
    n = mk('s', w, (), (name, _cnt[0]))
    n.isptr = ptr
    return n

def named(w, name, ptr=False):
    n = mk('s', w, (), (name, 0))
    if ptr:
        n.isptr = True
    return n

def addr(obj):
    n = mk('a', 64, (), obj)
    n.isptr = True
    return n

NULL = C(64, 0)
TRUE = C(1, 1)
FALSE = C(1, 0)
ZEROV = mk('zero', 0)

def isc(n):
    return n.op == 'c'

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def cs(n):
    return sgn(n.aux, n.w)

def show(n, d=0):
    if n.op == 'c':
        return str(cs(n)) if n.w > 1 else ('true' if n.aux else 'false')
    if n.op == 's':
        return '%s%s' % (n.aux[0], ('.%d' % n.aux[1]) if n.aux[1] else '')
    if n.op == 'a':
        return '&' + str(n.aux)
    if d > 6:
        return '...'
    if n.op == 'lin':
        c, co = n.aux
        s = ' + '.join(('%s' % show(a, d + 1)) if k == 1 else '%d*%s' % (k, show(a, d + 1)) for a, k in zip(n.args, co))
        if c:
            s += ' + %d' % sgn(c, n.w)
        return '(' + s + ')'
    x = n.op if n.aux is None else '%s[%s]' % (n.op, n.aux)
    return '%s:%d(%s)' % (x, n.w, ', '.join(show(a, d + 1) for a in n.args))

# ---- linear forms ------------------------------------------------------
def lin_parts(n):
    """-> (const, {atom: coef}) with coefs signed ints"""
    if n.op == 'c':
        return cs(n), {}
    if n.op == 'lin':
        c, co = n.aux
        return sgn(c, n.w), dict(zip(n.args, co))
    return 0, {n: 1}

def mklin(w, c, d):
    m = 1 << w
    items = []
    for a, k in d.items():
        k %= m
        if k:
            items.append((a, sgn(k, w)))
    c %= m
    if not items:
        return C(w, c)
    items.sort(key=lambda t: t[0].id)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    n = mk('lin', w, tuple(a for a, _ in items), (c, tuple(k for _, k in items)))
    return n

def add(a, b):
    if a.op == 'c' and a.aux == 0:
        return b
    if b.op == 'c' and b.aux == 0:
        return a
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k
    return mklin(a.w, ca + cb, d)

def neg(a):
    c, d = lin_parts(a)
    return mklin(a.w, -c, {x: -k for x, k in d.items()})

def sub(a, b):
    if a is b:
        return C(a.w, 0)
    return add(a, neg(b))

def mulc(a, k):
    c, d = lin_parts(a)
    return mklin(a.w, c * k, {x: kk * k for x, kk in d.items()})

# ---- byte-wise views ---------------------------------------------------
def bytes_of(n):
    """list of 8-bit nodes, low byte first, or None"""
    if n.w % 8:
        return None
    k = n.w // 8
    if k > 64:
        return None
    if n.op == 'c':
        return [C(8, n.aux >> (8 * i)) for i in range(k)]
    if n.op == 'ld':
        if k == 1:
            return [n]
        off, rest = n.aux, n.args
        return [mk('ld', 8, rest, off + i) for i in range(k)]
    if n.op == 'cat':
        return list(n.args)
    if n.op == 'zext':
        if n.args[0].w == 8:
            return [n.args[0]] + [C(8, 0)] * (k - 1)
        b = bytes_of(n.args[0])
        if b is None:
            return None
        return b + [C(8, 0)] * (k - len(b))
    if n.w == 8:
        return [n]
    return None

def from_bytes(bs):
    w = 8 * len(bs)
    if all(b.op == 'c' for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b.aux << (8 * i)
        return C(w, v)
    if len(bs) == 1:
        return bs[0]
    # trailing zero bytes -> zext of a shorter value
    k = len(bs)
    while k > 1 and bs[k - 1].op == 'c' and bs[k - 1].aux == 0:
        k -= 1
    if k < len(bs) and not (k == 1 and bs[0].op == 'c'):
        inner = from_bytes(bs[:k])
        if inner.w in (8, 16, 32, 64):
            return mk('zext', w, (inner,))
    b0 = bs[0]
    if b0.op == 'ld':
        ok = True
        for i, b in enumerate(bs):
            if b.op != 'ld' or b.args != b0.args or b.aux != b0.aux + i:
                ok = False
                break
        if ok:
            return mk('ld', w, b0.args, b0.aux)
    if b0.op == 'byte':
        p = b0.args[0]
        if p.w == w and all(b.op == 'byte' and b.args[0] is p and b.aux == i for i, b in enumerate(bs)):
            return p
    return mk('cat', w, tuple(bs))

def get_bytes(n):
    """like bytes_of but never None for byte-multiple widths"""
    b = bytes_of(n)
    if b is None:
        b = [mk('byte', 8, (n,), i) for i in range(n.w // 8)]
    return b

def subst(n, m, memo):
    """replace nodes by mapping m (N->N)"""
    r = m.get(n)
    if r is not None:
        return r
    if not n.args:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    na = [subst(a, m, memo) for a in n.args]
    if all(x is y for x, y in zip(na, n.args)):
        r = n
    elif n.op == 'lin':
        c, co = n.aux
        r = C(n.w, c)
        for a, k in zip(na, co):
            r = add(r, mulc(a, k))
    elif n.op == 'cat':
        r = from_bytes(na)
    elif n.op in ('zext', 'sext', 'trunc') and na[0].op == 'c':
        v = na[0].aux if n.op != 'sext' else cs(na[0])
        r = C(n.w, v)
    else:
        r = mk(n.op, n.w, tuple(na), n.aux)
        if n.isptr:
            r.isptr = True
    memo[n] = r
    return r

def atoms(n, acc=None):
    if acc is None:
        acc = set()
    if n in acc:
        return acc
    acc.add(n)
    for a in n.args:
        atoms(a, acc)
    return acc
