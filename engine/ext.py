"""Specifications of the external functions: each call forks into the outcome
classes its documentation allows; effects on memory are havocs bounded by the
documented extent.  Nothing is executed."""
from nodes import *
import ae

EINTR = 4
MAXOBJ = 1 << 47
INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1

def s32(lo=INT_MIN, hi=INT_MAX, name='r', st=None):
    n = sym(32, name)
    if st is not None and (lo, hi) != (INT_MIN, INT_MAX):
        st.fw().set_s(n, lo, hi)
    return n

def errno_set(eng, st, v=None):
    oid = 'x:errno'
    if oid not in st.mem:
        eng.new_obj(st, oid, C(64, 4), 'unk', 'x')
    if v is None:
        v = sym(32, 'errno')
        st.fw().set_u(v, 1, 133)
    eng.store(st, oid, NULL, 4, v)
    return v

def errno_not(eng, st, k):
    v = errno_set(eng, st)
    st.assume('ne', v, C(32, k))
    return v

def used(eng, inst):
    fn = eng.stack[-1] if eng.stack else None
    if fn is None or inst is None:
        return True
    u = getattr(fn, '_uses', None)
    if u is None:
        u = set()
        for b in fn.blocks:
            for i in b:
                ops = list(i.get('ops', ()))
                if i['op'] == 'phi':
                    ops += [x[1] for x in i['inc']]
                for k in ('cond', 'b', 'callee'):
                    if isinstance(i.get(k), list):
                        ops.append(i[k])
                ops += [x[1] for x in i.get('var', ())]
                for o in ops:
                    if o and o[0] == 'v':
                        u.add(o[1])
        fn._uses = u
    return inst['id'] in u

# ---------------------------------------------------------------- helpers
def buf(eng, st, p, n, write, inst, what):
    """check and return the buffer a call accesses"""
    nn = n if not isinstance(n, int) else C(64, n)
    if st.F.const(nn) == 0:
        return None, None
    oid, off = eng.resolve(st, p, inst)
    if oid is None:
        return None, None
    eng.access(st, oid, off, nn, write, inst, what)
    if write and st.mem[oid].ro:
        eng.emit('rowrite', st, oid=oid, inst=inst)
    return oid, off

def put(eng, st, oid, off, n, ver=None):
    if oid is not None:
        eng.havoc(st, oid, off, n, ver=ver)

def put_content(eng, st, oid, off, n, val):
    if oid is not None:
        eng.store(st, oid, off, n, val)

def cstr(eng, st, p):
    """constant string behind p, or None"""
    b, off = ae.ptr_split(p)
    if b is not None and b.op == 'a' and b.aux.startswith('g:') and off.op == 'c':
        g = eng.P.globals.get(b.aux[2:])
        if g and g['const'] and 'relocs' in g:
            by = bytes.fromhex(g.get('bytes', '')) or b'\0' * g['size']
            by = by[off.aux:]
            z = by.find(b'\0')
            if z >= 0:
                return by[:z]
    return None

def slen(eng, st, p, inst, what='string'):
    """strlen of p with bounds check of the scan; -> (oid, off, len node)"""
    oid, off = eng.resolve(st, p, inst)
    if oid is None:
        return None, None, sym(64, 'slen')
    o = st.mem[oid]
    if o.freed:
        eng.emit('uaf', st, oid=oid, inst=inst)
    n = eng.strlen_node(st, oid, off)
    eng.emit('strread', st, oid=oid, off=off, ln=n, inst=inst, what=what)
    return oid, off, n

def set_nul(eng, st, oid, off):
    if oid is None:
        return
    o = st.w(oid)
    off = st.F.norm(off)
    if off not in o.nul:
        o.nul = (o.nul + (off,))[-4:]

def new_str(eng, st, inst, tag, maxlen=1 << 30):
    oid = 'e:%s:%s' % (tag, eng.where(inst))
    k = 0
    while '%s#%d' % (oid, k) in st.mem:
        k += 1
    oid = '%s#%d' % (oid, k)
    L = sym(64, 'len_' + tag)
    st.fw().set_u(L, 0, maxlen)
    eng.new_obj(st, oid, add(L, C(64, 1)), 'unk', 'x')
    o = st.w(oid)
    o.nul = (L,)
    n = mk('strlen', 64, (o.cver, NULL))
    st.assume('eq', n, L)
    return oid, L

def strnode(eng, st, p):
    c = cstr(eng, st, p)
    if c is not None:
        return mk('cstr', 0, (), c)
    b, off = ae.ptr_split(p)
    if b is None:
        return mk('sptr', 0, (p,))
    oid = eng.obj_of(st, b)
    if oid is None:
        return mk('sptr', 0, (p,))
    o = st.mem[oid]
    return mk('str', 0, (o.cver, st.F.norm(off)))

# ---------------------------------------------------------------- strings
def x_strcmp(eng, st, i, a, name):
    n = None
    if name == 'strncmp':
        n = st.F.const(a[2])
    ca, cb = cstr(eng, st, a[0]), cstr(eng, st, a[1])
    oa, fa, la = slen(eng, st, a[0], i)
    ob, fb, lb = slen(eng, st, a[1], i)
    if ca is not None and cb is not None and (name == 'strcmp' or n is not None):
        x, y = (ca, cb) if n is None else (ca[:n], cb[:n])
        return [(st, C(32, (x > y) - (x < y)))]
    x, y = strnode(eng, st, a[0]), strnode(eng, st, a[1])
    if x is y and name == 'strcmp':
        return [(st, C(32, 0))]
    if x.id > y.id:
        x, y = y, x
    key = mk(name + 'r', 32, (x, y), n)
    lc = len(ca) if ca is not None else len(cb) if cb is not None else None
    lo = lb if ca is not None else la
    d = None
    if name == 'strcmp':
        d = st.F.decide('eq', la, lb)
        can_eq = d is not False
    else:
        can_eq = True
        if lc is not None and n is not None and n <= lc:
            can_eq = st.F.decide('ult', lo, C(64, n)) is not True
    k = st.F.const(key)
    if k is not None:
        return [(st, C(32, k))]
    if st.F.decide('eq', key, C(32, 0)) is False or not can_eq:
        st.assume('ne', key, C(32, 0))
        return [(st, key)]
    out = []
    t = st.fork()
    ok = t.fw().set_u(key, 0, 0)
    if ok and name == 'strcmp':
        ok = t.assume('eq', la, lb)
    elif ok and lc is not None and n is not None and n <= lc:
        ok = t.assume('ule', C(64, n), lo)
    elif ok and lc is not None and n is not None:
        ok = t.assume('eq', lo, C(64, lc))
    if ok:
        eng.emit('streq', t, a=a[0], b=a[1], ca=ca, cb=cb, n=n, eq=True, inst=i)
        out.append((t, C(32, 0)))
    if st.assume('ne', key, C(32, 0)):
        eng.emit('streq', st, a=a[0], b=a[1], ca=ca, cb=cb, n=n, eq=False, inst=i)
        out.append((st, key))
    return out

def x_memcmp(eng, st, i, a, name):
    n = st.F.const(a[2])
    ob, off = buf(eng, st, a[0], a[2], False, i, name)
    oc, of2 = buf(eng, st, a[1], a[2], False, i, name)
    if ob is None or oc is None:
        return [(st, s32())]
    eng.emit('memcmp_at', st, a=(ob, off), b=(oc, of2), n=a[2], inst=i)
    if n is not None and n <= 64:
        x = eng.content(st, ob, off, n)
        y = eng.content(st, oc, of2, n)
        if x is y:
            return [(st, C(32, 0))]
        if x.op == 'c' and y.op == 'c':
            bx, by = x.aux.to_bytes(n, 'little'), y.aux.to_bytes(n, 'little')
            return [(st, C(32, (bx > by) - (bx < by)))]
        if st.F.wide_eq(x, y):
            return [(st, C(32, 0))]
        if x.id > y.id and name != 'memcmp':
            x, y = y, x
        eng.emit('memcmp', st, x=x, y=y, n=n, inst=i)
        return [(st, mk('memcmp', 32, (x, y)))]
    x = eng.region(st, ob, off, a[2])
    y = eng.region(st, oc, of2, a[2])
    if x is y:
        return [(st, C(32, 0))]
    eng.emit('memcmp_region', st, a=(ob, off), b=(oc, of2), n=a[2], inst=i)
    return [(st, mk('memcmp', 32, (x, y)))]

def x_strlen(eng, st, i, a, name):
    return [(st, slen(eng, st, a[0], i)[2])]

def x_strchr(eng, st, i, a, name):
    oid, off, L = slen(eng, st, a[0], i)
    ch = trunc8(a[1])
    out = []
    s = cstr(eng, st, a[0])
    k = st.F.const(ch)
    if s is not None and k is not None:
        ix = (s + b'\0').find(bytes([k])) if name != 'strrchr' else (s + b'\0').rfind(bytes([k]))
        return [(st, NULL if ix < 0 else add(a[0], C(64, ix)))]
    if k == 0:
        return [(st, add(a[0], L))]
    t = st.fork()
    st.note('%s: %s finds nothing' % (eng.where(i), name))
    eng.emit('strchr', st, oid=oid, off=off, ch=k, at=None, name=name, inst=i)
    out.append((st, NULL))
    ix = sym(64, 'idx')
    t.fw().set_u(ix, 0, 1 << 40)
    if t.assume('ult', ix, L):
        t.note('%s: %s finds a match' % (eng.where(i), name))
        if oid is not None:
            v = eng.load(t, oid, add(off, ix), 1)
            if t.assume('eq', v, ch):
                p = add(a[0], ix)
                eng.emit('strchr', t, oid=oid, off=off, ch=k, at=add(off, ix), name=name, inst=i)
                out.append((t, p))
        else:
            out.append((t, add(a[0], ix)))
    return out

def trunc8(v):
    return ae.trunc(v, 8) if v.w > 8 else v

def x_strncpy(eng, st, i, a, name):
    oid, off, L = slen(eng, st, a[1], i)
    do, df = buf(eng, st, a[0], a[2], True, i, name)
    put(eng, st, do, df, a[2])
    if do is not None and st.F.decide('ult', L, a[2]):
        set_nul(eng, st, do, add(df, L))
    return [(st, a[0])]

def x_strcpy(eng, st, i, a, name):
    so, sf, L = slen(eng, st, a[1], i)
    do, df = buf(eng, st, a[0], add(L, C(64, 1)), True, i, name)
    put(eng, st, do, df, add(L, C(64, 1)))
    set_nul(eng, st, do, add(df, L)) if do else None
    if do:
        o = st.mem[do]
        st.assume('eq', mk('strlen', 64, (o.cver, st.F.norm(df))), L)
    if name == 'stpcpy':
        return [(st, add(a[0], L))]
    return [(st, a[0])]

def x_strncat(eng, st, i, a, name):
    so, sf, L = slen(eng, st, a[1], i)
    do, df, D = slen(eng, st, a[0], i)
    if name == 'strncat' and not st.F.decide('ule', L, a[2]):
        m = sym(64, 'catlen')
        st.assume('ule', m, a[2])
        st.assume('ule', m, L)
        L = m
    if do is not None:
        end = add(df, D)
        eng.access(st, do, end, add(L, C(64, 1)), True, i, name)
        put(eng, st, do, end, add(L, C(64, 1)))
        set_nul(eng, st, do, add(end, L))
        o = st.mem[do]
        st.assume('eq', mk('strlen', 64, (o.cver, df)), add(D, L))
    return [(st, a[0])]

def x_strdup(eng, st, i, a, name):
    so, sf, L = slen(eng, st, a[0], i)
    t = st.fork()
    st.note('%s: %s fails' % (eng.where(i), name))
    errno_set(eng, st)
    eng.emit('allocfail', st, inst=i)
    src = eng.region(t, so, sf, L) if so is not None else None
    oid = eng.heap_obj(t, i, add(L, C(64, 1)))
    set_nul(eng, t, oid, L)
    o = t.mem[oid]
    t.assume('eq', mk('strlen', 64, (o.cver, NULL)), L)
    if src is not None:
        ow = t.w(oid)
        ow.al = (NULL, L, src.args[0], src.args[1])
    eng.emit('alloc', t, oid=oid, n=add(L, C(64, 1)), inst=i)
    eng.emit('copy', t, src=so, soff=sf, dst=oid, doff=NULL, n=add(L, C(64, 1)), inst=i)
    return [(st, NULL), (t, addr(oid))]

def x_basename(eng, st, i, a, name):
    oid, L = new_str(eng, st, i, 'basename')
    return [(st, addr(oid))]

def x_getenv(eng, st, i, a, name):
    t = st.fork()
    s = cstr(eng, st, a[0])
    oid, L = new_str(eng, t, i, 'env')
    t.note('%s: environment variable %s is set' % (eng.where(i), s))
    eng.emit('getenv', t, name_=s, oid=oid, arg=a[0], inst=i)
    return [(st, NULL), (t, addr(oid))]

# ---- formatted output
import re
_fmt = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q)?([diouxXcsp%feEgGm])')

def fmt_parse(s):
    out = []
    pos = 0
    for m in _fmt.finditer(s):
        if m.start() > pos:
            out.append(('lit', m.start() - pos))
        pos = m.end()
        if m.group(5) == b'%':
            out.append(('lit', 1))
        else:
            out.append(('conv', m.group(1), m.group(2), m.group(3), m.group(4), m.group(5)))
    if pos < len(s):
        out.append(('lit', len(s) - pos))
    return out

def digits(v, base):
    n = 1
    while v >= base:
        v //= base
        n += 1
    return n

def fmt_len(eng, st, fmt, args, inst):
    """-> (length node, exact?)   upper bound when not exact; None unknown"""
    tot = C(64, 0)
    lo = C(64, 0)
    ix = 0
    exact = True
    for p in fmt_parse(fmt):
        if p[0] == 'lit':
            tot = add(tot, C(64, p[1]))
            lo = add(lo, C(64, p[1]))
            continue
        _, flags, width, prec, lm, cv = p
        if width == b'*' or prec == b'*' or ix >= len(args):
            return None, None
        v = args[ix]
        ix += 1
        wd = int(width) if width else 0
        if cv == b's':
            L = slen(eng, st, v, inst, 'format')[2]
            if prec:
                tot = add(tot, C(64, max(int(prec), wd)))
                exact = False
            elif wd:
                L2 = sym(64, 'pad')
                st.assume('ule', L, L2)
                st.assume('ule', L2, add(L, C(64, wd)))
                tot = add(tot, L2)
                lo = add(lo, L2)
            else:
                tot = add(tot, L)
                lo = add(lo, L)
        elif cv == b'c':
            tot = add(tot, C(64, max(1, wd)))
            lo = add(lo, C(64, max(1, wd)))
        elif cv in (b'd', b'i', b'u', b'x', b'X', b'o'):
            base = 16 if cv in b'xX' else 8 if cv == b'o' else 10
            bits = {b'hh': 8, b'h': 16, None: 32, b'l': 64, b'll': 64, b'z': 64, b'j': 64, b't': 64, b'q': 64}[lm]
            if v.op == 'f':
                return None, None
            x = ae.trunc(v, bits) if v.w > bits else v
            if cv in b'di':
                l, h = st.F.sb(x)
                mx = max(digits(abs(h), 10), digits(abs(l), 10) + 1 if l < 0 else 1)
                mn = 1 if l <= 0 <= h else min(digits(abs(l), 10), digits(abs(h), 10))
            else:
                l, h = st.F.ub(x)
                mx = digits(h, base)
                mn = digits(l, base)
            if b'#' in flags: mx += 2
            if b'+' in flags or b' ' in flags: mx += 1
            if prec:
                mx = max(mx, int(prec)); mn = max(mn, int(prec))
            mx = max(mx, wd)
            mn = max(mn, wd)
            if mx != mn:
                exact = False
            tot = add(tot, C(64, mx))
            lo = add(lo, C(64, mn))
        else:
            exact = False
            tot = add(tot, C(64, 400))
            if cv == b'm':
                pass
    return (tot, lo)

def x_snprintf(eng, st, i, a, name):
    if name in ('snprintf', '__snprintf_chk'):
        k = 2 if name == 'snprintf' else 4
        n = a[1]
    else:
        k = 1 if name == 'sprintf' else 3
        n = None
    f = cstr(eng, st, a[k])
    eng.emit('format', st, name=name, fmt=a[k], cfmt=f, args=a[k + 1:], inst=i, dst=a[0])
    if f is None:
        slen(eng, st, a[k], i)
        hi, lo = None, C(64, 0)
    else:
        hi, lo = fmt_len(eng, st, f, a[k + 1:], i)
        lo = lo if lo is not None else C(64, 0)
    if hi is not None and hi is lo:
        L = hi
    else:
        L = sym(64, 'fmtlen')
        st.fw().set_u(L, 0, 1 << 40)
        st.assume('ule', lo, L)
        if hi is not None:
            st.assume('ule', L, hi)
    one = C(64, 1)
    if n is None:
        do, df = buf(eng, st, a[0], add(L, one), True, i, name)
        put(eng, st, do, df, add(L, one))
        set_nul(eng, st, do, add(df, L))
        if do:
            st.assume('eq', mk('strlen', 64, (st.mem[do].cver, st.F.norm(df))), L)
    else:
        c = st.F.const(n)
        if c != 0:
            if st.F.decide('ult', L, n):
                ext = add(L, one)
                z = L
            else:
                ext = n
                z = sym(64, 'nul')
                st.assume('ult', z, n)
                st.assume('ule', z, L)
            do, df = buf(eng, st, a[0], ext, True, i, name)
            put(eng, st, do, df, n if not (ext is n) and do is not None and st.mem[do].size is not None and st.F.decide('ule', add(df, n), st.mem[do].size) else ext)
            set_nul(eng, st, do, add(df, z)) if do else None
    r = ae.trunc(L, 32)
    if st.F.ub(L)[1] > INT_MAX:
        r = sym(32, 'fmtret')
        st.fw().set_s(r, 0, INT_MAX)
    return [(st, r)]

def x_printf(eng, st, i, a, name):
    k = {'printf': 0, 'fprintf': 1, 'dprintf': 1, '__printf_chk': 1, '__fprintf_chk': 2}[name]
    f = cstr(eng, st, a[k])
    eng.emit('format', st, name=name, fmt=a[k], cfmt=f, args=a[k + 1:], inst=i, dst=None)
    if f is not None:
        fmt_len(eng, st, f, a[k + 1:], i)
    return [(st, s32())]

def x_vfprintf(eng, st, i, a, name):
    eng.emit('format', st, name=name, fmt=a[1] if 'f' == name[1] else a[0], cfmt=None, args=[], inst=i, dst=None)
    return [(st, s32())]

def x_fputs(eng, st, i, a, name):
    slen(eng, st, a[0], i)
    eng.emit('output', st, name=name, arg=a[0], inst=i)
    return [(st, s32())]

def x_putc(eng, st, i, a, name):
    eng.emit('output_char', st, name=name, arg=a[0], inst=i)
    return [(st, s32())]

# ---------------------------------------------------------------- heap
def too_big(st, n):
    return st.F.ub(n)[0] > MAXOBJ

def mulnode(st, a, b):
    """a*b as a 64-bit node, assuming no overflow was possible"""
    ca, cb = st.F.const(a), st.F.const(b)
    if ca is not None:
        return mulc(b, ca)
    if cb is not None:
        return mulc(a, cb)
    return ae.binop('mul', a, b)

def x_malloc(eng, st, i, a, name):
    zero = False
    cnt = None
    if name == 'calloc':
        zero = True
        cnt = (a[0], a[1])
    elif name in ('reallocarray',):
        cnt = (a[1], a[2])
    out = []
    t = st.fork()
    st.note('%s: %s fails' % (eng.where(i), name))
    errno_set(eng, st, C(32, 12))
    eng.emit('allocfail', st, inst=i)
    out.append((st, NULL))
    if cnt is not None:
        k = t.F.const(cnt[1])
        if k:
            if not t.assume('ule', cnt[0], C(64, MAXOBJ // k)):
                return out
        elif t.F.const(cnt[0]):
            if not t.assume('ule', cnt[1], C(64, MAXOBJ // t.F.const(cnt[0]))):
                return out
        n = mulnode(t, t.F.norm(cnt[0]), t.F.norm(cnt[1]))
    else:
        n = a[0]
    if not t.assume('ule', n, C(64, MAXOBJ)):
        return out
    n = t.F.norm(n)
    oid = eng.heap_obj(t, i, n, 'zero' if zero else 'unk')
    eng.emit('alloc', t, oid=oid, n=n, inst=i)
    out.append((t, addr(oid)))
    return out

def x_aligned(eng, st, i, a, name):
    if name == 'posix_memalign':
        r = x_malloc(eng, st, i, [a[2]], 'malloc')
        out = []
        for s, p in r:
            if p is NULL:
                out.append((s, C(32, 12)))
            else:
                o, f = buf(eng, s, a[0], 8, True, i, name)
                put_content(eng, s, o, f, 8, p)
                out.append((s, C(32, 0)))
        return out
    return x_malloc(eng, st, i, [a[1]], 'malloc')

def heap_ptr(eng, st, p, i):
    """object freed through p; None for NULL"""
    if st.F.const(p) == 0:
        return None
    b, off = ae.ptr_split(p)
    if b is None:
        b, off = p, NULL
    oid = eng.obj_of(st, b)
    return oid, st.F.norm(off)

def x_free(eng, st, i, a, name):
    p = a[0]
    b, off = ae.ptr_split(p)
    r = heap_ptr(eng, st, p, i)
    if r is None:
        return [(st, None)]
    oid, off = r
    out = []
    if b is not None and b.op != 'a' and b in eng.maynull and st.F.ub(b)[0] == 0:
        t = st.fork()
        if t.fw().set_u(b, 0, 0):
            out.append((t, None))
        if not st.fw().set_u(b, 1, (1 << 64) - 1):
            return out
    do_free(eng, st, oid, off, i)
    out.append((st, None))
    return out

def do_free(eng, st, oid, off, i):
    o = st.mem.get(oid)
    if o is None:
        return
    if o.freed:
        eng.emit('dfree', st, oid=oid, inst=i)
        return
    if o.kind in ('l', 'g') or not (off.op == 'c' and off.aux == 0):
        eng.emit('badfree', st, oid=oid, off=off, inst=i)
        return
    eng.emit('free', st, oid=oid, inst=i)
    o = st.w(oid)
    o.freed = True

def x_realloc(eng, st, i, a, name):
    p, n = a[0], a[1]
    if name == 'reallocarray':
        n = mulnode(st, a[1], a[2])
    if st.F.const(p) == 0:
        return x_malloc(eng, st, i, [n], 'malloc')
    b, off = ae.ptr_split(p)
    out = []
    if b is not None and b.op != 'a' and b in eng.maynull and st.F.ub(b)[0] == 0:
        t = st.fork()
        if not t.F.prove((-1, {b: 1})) and t.fw().set_u(b, 0, 0):
            out += x_malloc(eng, t, i, [n], 'malloc')
        if not st.fw().set_u(b, 1, (1 << 64) - 1):
            return out
    oid, off = heap_ptr(eng, st, p, i)
    t = st.fork()
    st.note('%s: realloc fails' % eng.where(i))
    errno_set(eng, st, C(32, 12))
    eng.emit('allocfail', st, inst=i)
    out.append((st, NULL))
    if not t.assume('ule', n, C(64, MAXOBJ)):
        return out
    n = t.F.norm(n)
    old = t.mem[oid]
    new = eng.heap_obj(t, i, n, family=oid.rsplit('#', 1)[0] if oid.startswith('h:') else None)
    eng.emit('realloc', t, old=oid, new=new, n=n, inst=i)
    no = t.w(new)
    grows = old.size is not None and t.F.decide('ule', old.size, n)
    no.cells = {k: v for k, v in old.cells.items()
                if grows or t.F.decide('ule', add(k[0] if k[0] is not None else NULL, C(64, k[1] + v[0])), n)}
    if old.fill == 'unk' and not old.ov:
        no.gver = old.gver
    do_free(eng, t, oid, off, i)
    eng.emit('alloc', t, oid=new, n=n, inst=i)
    out.append((t, addr(new)))
    return out

# ---------------------------------------------------------------- memory
def x_memcpy(eng, st, i, a, name):
    n = a[2]
    if st.F.const(n) == 0:
        return [(st, a[0])]
    so, sf = buf(eng, st, a[1], n, False, i, 'memcpy')
    do, df = buf(eng, st, a[0], n, True, i, 'memcpy')
    copy(eng, st, do, df, so, sf, n, i)
    return [(st, a[0])]

def copy(eng, st, do, df, so, sf, n, i):
    if do is None:
        return
    k = st.F.const(n)
    if so is None:
        put(eng, st, do, df, n)
        return
    eng.emit('copy', st, src=so, soff=sf, dst=do, doff=df, n=n, inst=i)
    src = eng.region(st, so, sf, n)
    if k is not None and k <= 64:
        v = eng.content(st, so, sf, k)
        eng.store(st, do, df, k, v)
        eng.emit('store', st, oid=do, off=df, n=k, val=v, vol=False, inst=i)
    elif k is not None and k <= 4096 and so != do:
        sb, sc = eng.split(st.F.norm(sf))
        db, dc = eng.split(st.F.norm(df))
        s = st.mem[so]
        cells = [(c, v) for (b, c), v in s.cells.items() if b is sb and sc <= c and c + v[0] <= sc + k]
        allzero = s.fill == 'zero' and not s.ov and sb is None
        put(eng, st, do, df, n, ZEROV if allzero else None)
        for c, (m, v, t) in cells:
            eng.store(st, do, add(df, C(64, c - sc)), m, v, t)
    else:
        put(eng, st, do, df, n)
    if st.F.decide('ule', C(64, 1), n):
        o = st.w(do)
        o.al = (st.F.norm(df), st.F.norm(n), src.args[0], src.args[1])
        eng.emit('copied', st, do=do, df=df, n=n, src=src, inst=i)

def x_memset(eng, st, i, a, name):
    if name == 'bzero' or name in ('explicit_bzero', 'OPENSSL_cleanse'):
        a = [a[0], C(8, 0), a[1]]
    n = a[2]
    if st.F.const(n) == 0:
        return [(st, a[0])]
    do, df = buf(eng, st, a[0], n, True, i, 'memset')
    if do is None:
        return [(st, a[0])]
    v = trunc8(a[1])
    z = st.F.const(v) == 0
    k = st.F.const(n)
    if k is not None and k <= 64:
        c = st.F.const(v)
        eng.store(st, do, df, k, C(8 * k, int.from_bytes(bytes([c]) * k, 'little')) if c is not None else from_bytes([v] * k))
    else:
        put(eng, st, do, df, n, ZEROV if z else None)
    eng.emit('memset', st, oid=do, off=df, n=n, zero=z, inst=i, name=name)
    return [(st, a[0])]

def x_cleanse(eng, st, i, a, name):
    if name == 'memset_s' or name == 'memset_explicit':
        n = a[3] if name == 'memset_s' else a[2]
    else:
        n = a[1]
    r = x_memset(eng, st, i, [a[0], n], 'OPENSSL_cleanse')
    oid, off = eng.resolve(st, a[0], i)
    if oid is not None:
        eng.emit('wipe', st, oid=oid, off=off, n=n, inst=i)
    return r

# ---------------------------------------------------------------- files
def x_open(eng, st, i, a, name):
    k = 1 if name in ('openat', 'openat64') else 0
    if name == 'creat':
        fl = C(32, 0o1101)
    else:
        fl = a[k + 1]
    slen(eng, st, a[k], i)
    flags = st.F.const(fl)
    t = st.fork()
    st.note('%s: open fails' % eng.where(i))
    errno_set(eng, st)
    eng.emit('open', st, fd=None, path=a[k], flags=flags, inst=i)
    fd = sym(32, 'fd')
    t.fw().set_s(fd, 0, 1 << 20)
    # descriptors in use are distinct
    for f in t.fds:
        if f.w == 32:
            t.fw().ne.add(frozenset((fd, f)))
    t.F.touch()
    t.fds[fd] = ('rdonly' if flags is not None and flags & 3 == 0 else 'rw', eng.where(i))
    eng.emit('open', t, fd=fd, path=a[k], flags=flags, inst=i)
    return [(st, C(32, -1)), (t, fd)]

def x_close(eng, st, i, a, name):
    eng.emit('close', st, fd=a[0], inst=i)
    st.fds.pop(a[0], None)
    if used(eng, i):
        t = st.fork()
        errno_set(eng, t)
        eng.emit('io', t, op='close', res='fail', fd=a[0], inst=i)
        eng.emit('io', st, op='close', res='ok', fd=a[0], inst=i)
        return [(st, C(32, 0)), (t, C(32, -1))]
    return [(st, C(32, 0))]

def x_io(eng, st, i, a, name):
    """read, pread, write, pwrite, send, recv"""
    op = {'pread64': 'pread', 'pwrite64': 'pwrite', 'recvfrom': 'recv', 'sendto': 'send'}.get(name, name)
    wr = op in ('write', 'pwrite', 'send')
    fd, p, n = a[0], a[1], a[2]
    off = a[3] if op in ('pread', 'pwrite') else None
    oid, bo = buf(eng, st, p, n, not wr, i, name)
    kw = dict(op=op, fd=fd, oid=oid, boff=bo, want=n, off=off, inst=i)
    eng.emit('iocall', st, **kw)
    out = []
    if not eng.opts.get('no_eintr'):
        t = st.fork()
        errno_set(eng, t, C(32, EINTR))
        t.note('%s: %s is interrupted' % (eng.where(i), name))
        eng.emit('io', t, res='eintr', got=None, **kw)
        out.append((t, C(64, -1)))
    t = st.fork()
    errno_not(eng, t, EINTR)
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('io', t, res='fail', got=None, **kw)
    out.append((t, C(64, -1)))
    if not wr:
        t = st.fork()
        if t.assume('ne', n, C(64, 0)):
            t.note('%s: %s returns 0' % (eng.where(i), name))
            eng.emit('io', t, res='eof', got=C(64, 0), **kw)
            out.append((t, C(64, 0)))
    if st.F.const(n) != 0:
        t = st.fork()
        k = sym(64, 'got')
        if t.fw().set_s(k, 1, (1 << 62)) and t.assume('ule', k, n):
            if not wr:
                put(eng, t, oid, bo, k)
            t.note('%s: %s transfers %s bytes' % (eng.where(i), name, show(k)))
            eng.emit('io', t, res='ok', got=k, **kw)
            out.append((t, k))
    if st.F.decide('ne', n, C(64, 0)) is not True:
        if st.assume('eq', n, C(64, 0)):
            eng.emit('io', st, res='ok', got=C(64, 0), **kw)
            out.append((st, C(64, 0)))
    return out

def x_lseek(eng, st, i, a, name):
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: lseek fails' % eng.where(i))
    eng.emit('io', t, op='lseek', res='fail', fd=a[0], off=a[1], wh=a[2], inst=i)
    wh = st.F.const(a[2])
    r = sym(64, 'pos')
    st.fw().set_s(r, 0, (1 << 63) - 1)
    if wh == 0:
        if st.F.sb(a[1])[1] < 0:
            return [(t, C(64, -1))]
        st.fw().set_s(a[1], 0, (1 << 63) - 1) if a[1].op != 'c' else None
        r = a[1]
    eng.emit('io', st, op='lseek', res='ok', fd=a[0], off=a[1], wh=a[2], pos=r, inst=i)
    return [(st, r), (t, C(64, -1))]

def x_fstat(eng, st, i, a, name):
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: fstat fails' % eng.where(i))
    eng.emit('io', t, op='fstat', res='fail', fd=a[0], inst=i)
    k = 1
    oid, off = buf(eng, st, a[k], 144, True, i, name)
    put(eng, st, oid, off, 144)
    if oid is not None:
        sz = mk('fsize', 64, (a[0],))
        st.fw().set_s(sz, 0, (1 << 62))
        eng.store(st, oid, add(off, C(64, 48)), 8, sz)
    eng.emit('io', st, op='fstat', res='ok', fd=a[0], inst=i)
    return [(st, C(32, 0)), (t, C(32, -1))]

def x_ioctl(eng, st, i, a, name):
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: ioctl fails' % eng.where(i))
    eng.emit('io', t, op='ioctl', res='fail', fd=a[0], inst=i)
    if len(a) > 2:
        req = st.F.const(a[1])
        n = (req >> 16) & 0x3fff if req is not None else None
        if n:
            oid, off = buf(eng, st, a[2], n, True, i, name)
            put(eng, st, oid, off, n)
            if oid is not None and n == 8 and req == 0x80081272:
                v = mk('bsize', 64, (a[0],))
                st.fw().set_s(v, 0, 1 << 62)
                eng.store(st, oid, off, 8, v)
    eng.emit('io', st, op='ioctl', res='ok', fd=a[0], inst=i)
    return [(st, C(32, 0)), (t, C(32, -1))]

def x_sync(eng, st, i, a, name):
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('io', t, op='fsync', res='fail', fd=a[0], inst=i, call=name)
    eng.emit('io', st, op='fsync', res='ok', fd=a[0], inst=i, call=name)
    return [(st, C(32, 0)), (t, C(32, -1))]

def x_simple01(eng, st, i, a, name):
    """0 or -1"""
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('io', t, op=name, res='fail', fd=a[0] if a else None, args=a, inst=i)
    eng.emit('io', st, op=name, res='ok', fd=a[0] if a else None, args=a, inst=i)
    return [(st, C(32, 0)), (t, C(32, -1))]

def x_fdnew(eng, st, i, a, name):
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('io', t, op=name, res='fail', fd=None, args=a, inst=i)
    fd = sym(32, 'fd')
    st.fw().set_s(fd, 0, 1 << 20)
    for f in st.fds:
        if f.w == 32:
            st.fw().ne.add(frozenset((fd, f)))
    st.F.touch()
    st.fds[fd] = (name, eng.where(i))
    eng.emit('open', st, fd=fd, path=None, flags=None, inst=i, via=name)
    return [(st, fd), (t, C(32, -1))]

def x_bind(eng, st, i, a, name):
    oid, off = buf(eng, st, a[1], ae.zext(a[2], 64), False, i, name)
    return x_simple01(eng, st, i, a, name)

def x_access(eng, st, i, a, name):
    slen(eng, st, a[0], i)
    t = st.fork()
    errno_set(eng, t)
    t.note('%s: %s reports that the file is not there' % (eng.where(i), name))
    eng.emit('access_', t, res='fail', path=a[0], inst=i)
    st.note('%s: %s reports that the file exists' % (eng.where(i), name))
    eng.emit('access_', st, res='ok', path=a[0], inst=i)
    return [(st, C(32, 0)), (t, C(32, -1))]

def x_unlink(eng, st, i, a, name):
    k = 1 if name == 'unlinkat' else 0
    slen(eng, st, a[k], i)
    eng.emit('unlink', st, path=a[k], inst=i)
    r = s32(-1, 0, 'unlink', st)
    errno_set(eng, st, sym(32, 'errno'))
    return [(st, r)]

def x_fgets(eng, st, i, a, name):
    n = ae.sext(a[1], 64)
    oid, off = buf(eng, st, a[0], n, True, i, name)
    e = st.fork()
    e.ts = dict(e.ts, ferr=0)
    e.note('%s: end of input' % eng.where(i))
    f = st.fork()
    f.ts = dict(f.ts, ferr=1)
    errno_set(eng, f)
    f.note('%s: reading input fails' % eng.where(i))
    eng.emit('io', e, op='fgets', res='eof', fd=a[2], inst=i)
    eng.emit('io', f, op='fgets', res='fail', fd=a[2], inst=i)
    put(eng, st, oid, off, n)
    if oid is not None:
        z = sym(64, 'line')
        st.fw().set_u(z, 1, 1 << 31)
        st.assume('ult', z, n)
        set_nul(eng, st, oid, add(off, z))
        st.assume('ule', mk('strlen', 64, (st.mem[oid].cver, off)), z)
    eng.emit('io', st, op='fgets', res='ok', fd=a[2], inst=i, oid=oid, boff=off)
    return [(e, NULL), (f, NULL), (st, a[0])]

def x_ferror(eng, st, i, a, name):
    v = st.ts.get('ferr')
    eng.emit('ferror', st, inst=i)
    if v is None:
        return [(st, s32())]
    if name == 'feof':
        v = 1 - v
    return [(st, C(32, v))]

# ---------------------------------------------------------------- process
def x_exit(eng, st, i, a, name):
    st.note('%s: exit(%s)' % (eng.where(i), show(a[0])))
    eng.emit('exit', st, code=a[0], inst=i)
    return []

def x_abort(eng, st, i, a, name):
    st.note('%s: %s' % (eng.where(i), name))
    eng.emit('abort', st, inst=i, name=name)
    return []

def x_errno(eng, st, i, a, name):
    if 'x:errno' not in st.mem:
        errno_set(eng, st, sym(32, 'errno0'))
    return [(st, addr('x:errno'))]

def x_clock(eng, st, i, a, name):
    oid, off = buf(eng, st, a[1], 16, True, i, name)
    put(eng, st, oid, off, 16)
    return [(st, C(32, 0))]

def x_usleep(eng, st, i, a, name):
    eng.emit('sleep', st, name=name, args=a, inst=i)
    return [(st, C(32, 0))]

def x_ret(lo=None, hi=None):
    def h(eng, st, i, a, name):
        if i is not None and i['t'] == 'p':
            return [(st, sym(64, name, True))]
        w = i['t'] if i is not None and isinstance(i['t'], int) and i['t'] else 32
        r = sym(w, name)
        if lo is not None:
            st.fw().set_s(r, lo, hi)
        return [(st, r)]
    return h

def x_strerror(eng, st, i, a, name):
    oid, L = new_str(eng, st, i, 'errstr', 200)
    return [(st, addr(oid))]

def x_void(eng, st, i, a, name):
    return [(st, None)]

def x_first(eng, st, i, a, name):
    return [(st, a[0])]

# ---------------------------------------------------------------- options
def x_getopt(eng, st, i, a, name):
    long_ = name == 'getopt_long' or name == 'getopt_long_only'
    short = cstr(eng, st, a[2]) or b''
    res = []
    k = 0
    while k < len(short):
        c = short[k]
        k += 1
        if c in b'+-:':
            continue
        ar = 0
        while k < len(short) and short[k] == ord(':'):
            ar += 1
            k += 1
        res.append((chr(c), c, ar))
    if long_:
        oid, off = eng.resolve(st, a[3], i)
        if oid is not None:
            k = 0
            while k < 64:
                b = add(off, C(64, 32 * k))
                nm = eng.load(st, oid, b, 8, True)
                if st.F.const(nm) == 0:
                    break
                ha = st.F.const(eng.load(st, oid, add(b, C(64, 8)), 4))
                flag = eng.load(st, oid, add(b, C(64, 16)), 8, True)
                val = st.F.const(eng.load(st, oid, add(b, C(64, 24)), 4))
                s = cstr(eng, st, nm)
                if ha is None or val is None:
                    break
                res.append(((s or b'?').decode('latin1'), val, ha))
                k += 1
    # the argument vector may be permuted
    ai, af = eng.resolve(st, a[1], i)
    argc = ae.sext(a[0], 64)
    oi = eng.global_obj(st, 'optind')
    oa = eng.global_obj(st, 'optarg')
    if ai is not None and not eng.opts.get('getopt_noperm'):
        eng.havoc(st, ai, af, mulc(argc, 8))
    out = []
    def setind(s):
        v = sym(32, 'optind')
        s.fw().set_s(v, 1, INT_MAX)
        s.assume('sle', v, a[0])
        eng.store(s, oi, NULL, 4, v)
        return v
    t = st.fork()
    setind(t)
    t.note('%s: no further option' % eng.where(i))
    eng.emit('option', t, opt=None, val=-1, arg=None, inst=i)
    out.append((t, C(32, -1)))
    for nm, val, ar in res:
        t = st.fork()
        setind(t)
        if ar == 1:
            oid, L = new_str(eng, t, i, 'optarg')
            p = addr(oid)
        elif ar == 0:
            p = NULL
        else:
            p = sym(64, 'optarg', True)
            eng.maynull.add(p)
        eng.store(t, oa, NULL, 8, p)
        t.note('%s: option %s' % (eng.where(i), nm))
        eng.emit('option', t, opt=nm, val=val, arg=p, inst=i)
        out.append((t, C(32, val)))
    setind(st)
    st.note('%s: unknown option' % eng.where(i))
    eng.store(st, oa, NULL, 8, NULL)
    eng.emit('option', st, opt='?', val=63, arg=None, inst=i)
    out.append((st, C(32, 63)))
    return out

# ---------------------------------------------------------------- hashing
def sha_node(eng, st, oid, off, n):
    return mk('sha', 256, (eng.region(st, oid, off, n),))

EMPTY = mk('reg', 0, (mk('nothing', 0), NULL, NULL))

def x_sha256(eng, st, i, a, name):
    data, n, out = a[0], a[1], a[2]
    oid, off = buf(eng, st, data, n, False, i, name)
    if st.F.const(n) == 0 or oid is None:
        v = mk('sha', 256, (EMPTY if st.F.const(n) == 0 else mk('reg', 0, (newv(), NULL, n)),))
    else:
        v = sha_node(eng, st, oid, off, n)
    eng.emit('sha', st, data=data, n=n, oid=oid, off=off, val=v, inst=i)
    oo, of = buf(eng, st, out, 32, True, i, name)
    put_content(eng, st, oo, of, 32, v)
    return [(st, out)]

def newv():
    return sym(0, 'ver')

def x_sha_init(eng, st, i, a, name):
    oid, off = buf(eng, st, a[0], 112, True, i, name)
    put(eng, st, oid, off, 112)
    eng.emit('sha_init', st, ctx=a[0], inst=i)
    return [(st, C(32, 1))]

def x_sha_update(eng, st, i, a, name):
    oid, off = buf(eng, st, a[0], 112, True, i, name)
    so, sf = buf(eng, st, a[1], a[2], False, i, name)
    put(eng, st, oid, off, 112)
    eng.emit('sha_update', st, ctx=a[0], oid=so, off=sf, n=a[2], inst=i)
    return [(st, C(32, 1))]

def x_sha_final(eng, st, i, a, name):
    oid, off = buf(eng, st, a[1], 112, True, i, name)
    put(eng, st, oid, off, 112)
    oo, of = buf(eng, st, a[0], 32, True, i, name)
    v = sym(256, 'digest')
    put_content(eng, st, oo, of, 32, v)
    eng.emit('sha_final', st, ctx=a[1], out=a[0], val=v, inst=i)
    return [(st, C(32, 1))]

# ---------------------------------------------------------------- search
def x_bsearch(eng, st, i, a, name):
    key, base, n, size, cmp = a
    eng.emit('bsearch', st, key=key, base=base, n=n, size=size, cmp=cmp, inst=i)
    t = st.fork()
    t.note('%s: bsearch finds nothing' % eng.where(i))
    eng.emit('bsearch_res', t, found=None, key=key, base=base, n=n, inst=i)
    out = [(t, NULL)]
    if not st.assume('ult', C(64, 0), n):
        return out
    ix = sym(64, 'hit')
    if not st.assume('ult', ix, n):
        return out
    k = st.F.const(size) or 1
    if st.F.ub(ix)[1] * k > MAXOBJ:
        st.fw().set_u(ix, 0, MAXOBJ // k)
    el = add(base, mulc(ix, k))
    st.note('%s: bsearch finds an entry' % eng.where(i))
    rs = eng.callptr(st, cmp, [key, el], i)
    for s, r in rs:
        if r is None or eng.assume(s, ae.icmp('eq', r, C(32, 0)), True):
            eng.emit('bsearch_res', s, found=el, key=key, base=base, n=n, inst=i)
            out.append((s, el))
    return out

def x_qsort(eng, st, i, a, name):
    base, n, size, cmp = a
    eng.emit('qsort', st, base=base, n=n, size=size, cmp=cmp, inst=i)
    k = st.F.const(size)
    tot = mulnode(st, n, size)
    if st.F.decide('eq', n, C(64, 0)) is not True:
        t = None
        if not st.F.decide('ne', n, C(64, 0)):
            t = st.fork()
            if not t.assume('eq', n, C(64, 0)):
                t = None
        out = [(t, None)] if t is not None else []
        if st.assume('ne', n, C(64, 0)):
            oid, off = buf(eng, st, base, tot, True, i, name)
            put(eng, st, oid, off, tot)
            out.append((st, None))
        return out
    return [(st, None)]

# ---------------------------------------------------------------- cipher
def x_evp_new(eng, st, i, a, name):
    t = st.fork()
    t.note('%s: %s fails' % (eng.where(i), name))
    oid = 'ev:%s' % eng.where(i)
    k = 0
    while '%s#%d' % (oid, k) in st.mem:
        k += 1
    oid = '%s#%d' % (oid, k)
    eng.new_obj(st, oid, None, 'unk', 'x')
    eng.emit('res_new', st, kind='cipher', oid=oid, inst=i)
    return [(st, addr(oid)), (t, NULL)]

def x_evp_free(eng, st, i, a, name):
    eng.emit('res_free', st, kind='cipher', ptr=a[0], inst=i)
    b, off = ae.ptr_split(a[0])
    if b is not None and b.op == 'a' and b.aux.startswith('ev:'):
        st.mem.pop(b.aux, None)
    return [(st, None)]

def x_evp_reset(eng, st, i, a, name):
    t = st.fork()
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('cipher_reset', st, ctx=a[0], ok=True, inst=i)
    eng.emit('cipher_reset', t, ctx=a[0], ok=False, inst=i)
    return [(st, C(32, 1)), (t, C(32, 0))]

def x_evp_init(eng, st, i, a, name):
    # ctx, type, key, iv, enc
    if 'Init_ex' in name:
        a = [a[0], a[1], a[3], a[4]] + a[5:]
    args = dict(ctx=a[0], key=a[2], iv=a[3], type=a[1], inst=i)
    if st.F.const(a[2]) != 0:
        buf(eng, st, a[2], 32, False, i, name)
    if st.F.const(a[3]) != 0:
        buf(eng, st, a[3], 16, False, i, name)
    t = st.fork()
    t.note('%s: %s fails' % (eng.where(i), name))
    eng.emit('cipher_init', st, ok=True, **args)
    eng.emit('cipher_init', t, ok=False, **args)
    return [(st, C(32, 1)), (t, C(32, 0))]

def x_evp_cipher(eng, st, i, a, name):
    # ctx, out, in, inl (unsigned int)
    n = ae.zext(a[3], 64)
    so, sf = buf(eng, st, a[2], n, False, i, name)
    do, df = buf(eng, st, a[1], n, True, i, name)
    kw = dict(ctx=a[0], oid=so, off=sf, do=do, df=df, n=n, n32=a[3], inst=i)
    f = st.fork()
    f.note('%s: %s fails' % (eng.where(i), name))
    put(eng, f, do, df, n)
    eng.emit('cipher', f, ok=False, **kw)
    r = s32(-1, 0, 'evp', f)
    out = []
    g = f.fork()
    # failure is reported as -1, or as 0 by older implementations
    out.append((f, C(32, -1)))
    if g.assume('ne', n, C(64, 0)):
        out.append((g, C(32, 0)))
    # success
    put(eng, st, do, df, n)
    eng.emit('cipher', st, ok=True, **kw)
    z = st.fork()
    if st.assume('ne', n, C(64, 0)):
        r = sym(32, 'evp')
        st.fw().set_s(r, 1, INT_MAX)
        out.append((st, r))
    if z.assume('eq', n, C(64, 0)):
        out.append((z, C(32, 0)))
    return out

def x_chacha(eng, st, i, a, name):
    return [(st, addr('f:EVP_chacha20'))]

def x_evp_update(eng, st, i, a, name):
    # ctx, out, outl*, in, inl (int)
    n = ae.sext(a[4], 64)
    so, sf = buf(eng, st, a[3], n, False, i, name)
    do, df = buf(eng, st, a[1], n, True, i, name)
    kw = dict(ctx=a[0], oid=so, off=sf, do=do, df=df, n=n, n32=a[4], inst=i)
    f = st.fork()
    f.note('%s: %s fails' % (eng.where(i), name))
    put(eng, f, do, df, n)
    eng.emit('cipher', f, ok=False, **kw)
    oo, of = buf(eng, st, a[2], 4, True, i, name)
    put_content(eng, st, oo, of, 4, a[4])
    put(eng, st, do, df, n)
    eng.emit('cipher', st, ok=True, **kw)
    return [(f, C(32, 0)), (st, C(32, 1))]

# ---------------------------------------------------------------- zstd
def x_zstd_new(eng, st, i, a, name):
    t = st.fork()
    t.note('%s: %s fails' % (eng.where(i), name))
    oid = 'zs:%s' % eng.where(i)
    eng.new_obj(st, oid, None, 'unk', 'x')
    eng.emit('res_new', st, kind='zstd', oid=oid, inst=i)
    return [(st, addr(oid)), (t, NULL)]

def x_zstd_free(eng, st, i, a, name):
    eng.emit('res_free', st, kind='zstd', ptr=a[0], inst=i)
    return [(st, C(64, 0))]

ZERR = (1 << 64) - 120

def x_zstd_init(eng, st, i, a, name):
    f = st.fork()
    f.note('%s: %s fails' % (eng.where(i), name))
    rf, r = sym(64, 'zinit'), sym(64, 'zinit')
    f.fw().set_u(rf, ZERR, (1 << 64) - 1)
    st.fw().set_u(r, 0, 1 << 40)
    eng.emit('zstd_init', st, ctx=a[0], ok=True, inst=i)
    eng.emit('zstd_init', f, ctx=a[0], ok=False, inst=i)
    return [(st, r), (f, rf)]

def x_zstd_dec(eng, st, i, a, name):
    # zds, ZSTD_outBuffer*, ZSTD_inBuffer*
    oo, of = buf(eng, st, a[1], 24, True, i, name)
    io, jf = buf(eng, st, a[2], 24, True, i, name)
    if oo is None or io is None:
        return [(st, sym(64, 'zret'))]
    ld = lambda o, f, k, p=False: st.F.norm(eng.load(st, o, add(f, C(64, k)), 8, p))
    dst, dsz, dpos = ld(oo, of, 0, True), ld(oo, of, 8), ld(oo, of, 16)
    src, ssz, spos = ld(io, jf, 0, True), ld(io, jf, 8), ld(io, jf, 16)
    kw = dict(ctx=a[0], dst=dst, dsz=dsz, dpos=dpos, src=src, ssz=ssz, spos=spos, inst=i)
    eng.emit('zstd', st, **kw)
    if st.F.decide('ult', dsz, dpos) is not True:
        bo, bf = buf(eng, st, dst, dsz, True, i, name)
    else:
        bo = None
    so, sf = buf(eng, st, src, ssz, False, i, name)
    if bo is not None:
        put(eng, st, bo, add(bf, dpos), sub(dsz, dpos))
    f = st.fork()
    f.note('%s: decompression fails' % eng.where(i))
    r = sym(64, 'zerr')
    f.fw().set_u(r, ZERR, (1 << 64) - 1)
    eng.store(f, oo, add(of, C(64, 16)), 8, sym(64, 'opos'))
    eng.store(f, io, add(jf, C(64, 16)), 8, sym(64, 'ipos'))
    eng.emit('zstd_ret', f, ok=False, **kw)
    np_, ni = sym(64, 'opos'), sym(64, 'ipos')
    ok = st.assume('ule', dpos, np_) and st.assume('ule', np_, dsz) and st.assume('ule', spos, ni) and st.assume('ule', ni, ssz)
    out = [(f, r)]
    if ok and eng.opts.get('split_zstd'):
        t = st.fork()
        if t.assume('eq', ni, ssz):
            t.note('%s: all input is consumed' % eng.where(i))
            eng.store(t, oo, add(of, C(64, 16)), 8, np_)
            eng.store(t, io, add(jf, C(64, 16)), 8, ssz)
            eng.emit('zstd_ret', t, ok=True, npos=np_, ipos=ssz, **kw)
            r = sym(64, 'zret')
            t.fw().set_u(r, 0, 1 << 40)
            out.append((t, r))
        ok = st.assume('ult', ni, ssz)
    if ok:
        eng.store(st, oo, add(of, C(64, 16)), 8, np_)
        eng.store(st, io, add(jf, C(64, 16)), 8, ni)
        eng.emit('zstd_ret', st, ok=True, npos=np_, ipos=ni, **kw)
        r = sym(64, 'zret')
        st.fw().set_u(r, 0, 1 << 40)
        out.append((st, r))
    return out

def x_zstd_iserr(eng, st, i, a, name):
    c = ae.icmp('ult', C(64, ZERR - 1), a[0])
    return [(st, ae.zext(c, 32))]

# ---------------------------------------------------------------- curl
OPT_WRITEDATA, OPT_WRITEFUNCTION, OPT_URL, OPT_ERRORBUFFER = 10001, 20011, 10002, 10010
INFO_RESPONSE_CODE = 0x200002
TRANSIENT = (6, 7, 28)

def gkey(name, p):
    return 'curl:%s' % (name,)

def x_curl_init(eng, st, i, a, name):
    t = st.fork()
    t.note('%s: %s fails' % (eng.where(i), name))
    oid = 'cu:%s' % eng.where(i)
    eng.new_obj(st, oid, None, 'unk', 'x')
    eng.emit('res_new', st, kind='curl', oid=oid, inst=i)
    return [(st, addr(oid)), (t, NULL)]

def x_curl_cleanup(eng, st, i, a, name):
    eng.emit('res_free', st, kind='curl', ptr=a[0], inst=i)
    return [(st, None)]

def x_curl_setopt(eng, st, i, a, name):
    opt = st.F.const(a[1])
    t = st.fork()
    t.note('%s: curl_easy_setopt fails' % eng.where(i))
    r = s32(1, 200, 'curlcode', t)
    st.ghost['curl:%s' % opt] = a[2]
    if opt == OPT_ERRORBUFFER:
        buf(eng, st, a[2], 256, True, i, name)
    eng.emit('curl_setopt', st, h=a[0], opt=opt, val=a[2], inst=i)
    return [(st, C(32, 0)), (t, r)]

def x_curl_perform(eng, st, i, a, name):
    """the transfer: any number of body callbacks, then a result"""
    cb = st.ghost.get('curl:%d' % OPT_WRITEFUNCTION)
    data = st.ghost.get('curl:%d' % OPT_WRITEDATA)
    eng.emit('perform', st, h=a[0], inst=i)
    eb = st.ghost.get('curl:%d' % OPT_ERRORBUFFER)
    if eb is not None:
        oid, off = eng.resolve(st, eb, i)
        if oid is not None:
            put(eng, st, oid, off, 256)
            z = sym(64, 'ebnul')
            st.fw().set_u(z, 0, 255)
            set_nul(eng, st, oid, add(off, z))
    code = sym(64, 'http')
    st.fw().set_s(code, 0, 999)
    st.ghost['http'] = code
    st.ts = dict(st.ts, cb=0)
    out = []
    def finish(s, r, note):
        s.note('%s: transfer ends: %s' % (eng.where(i), note))
        s.ts = {k: v for k, v in s.ts.items() if k != 'cb'}
        eng.emit('perform_ret', s, h=a[0], code=r, inst=i)
        out.append((s, r))
    def outcomes(s):
        # s: state between callbacks, nothing refused
        t = s.fork(); finish(t, C(32, 0), 'ok')
        t = s.fork(); finish(t, C(32, 28), 'timeout')
        t = s.fork()
        r = sym(32, 'curlcode')
        t.fw().set_s(r, 1, 200)
        for k in (6, 7, 23, 28):
            t.fw().ne.add(frozenset((r, C(32, k))))
        t.F.touch()
        finish(t, r, 'other error')
        if s.ts.get('cb') == 0:
            t = s.fork()
            finish(t, C(32, 7), 'could not connect')
            finish(s, C(32, 6), 'could not resolve host')
    if cb is None or data is None:
        outcomes(st)
        return out
    def body(states):
        backs, exits = [], []
        for s in states:
            exits.append((None, s.fork(), None))
            n = sym(64, 'nmemb')
            s.fw().set_u(n, 1, 1 << 40)
            oid = 'cb:data'
            s.mem.pop(oid, None)
            eng.new_obj(s, oid, n, 'unk', 'x')
            s.ts = dict(s.ts, cb=1)
            s.note('%s: server sends %s bytes' % (eng.where(i), show(n)))
            eng.emit('body', s, oid=oid, n=n, inst=i)
            for r, v in eng.callptr(s, cb, [addr(oid), C(64, 1), n, data], i):
                if v is None:
                    v = sym(64, 'cbret')
                v = ae.zext(v, 64)
                t = r.fork()
                if t.assume('eq', v, n):
                    eng.emit('body_ret', t, oid=oid, n=n, ok=True, inst=i)
                    backs.append(t)
                if r.assume('ne', v, n):
                    eng.emit('body_ret', r, oid=oid, n=n, ok=False, inst=i)
                    r.ts = dict(r.ts, cb=2)
                    exits.append((None, r, None))
        return backs, exits, []
    exits, _ = eng.fix([st], body, ('curl_perform', eng.where(i)))
    for _, s, _ in exits:
        if s.ts.get('cb') == 2:
            finish(s, C(32, 23), 'write callback refused data')
        else:
            outcomes(s)
    return out

def x_curl_getinfo(eng, st, i, a, name):
    t = st.fork()
    t.note('%s: curl_easy_getinfo fails' % eng.where(i))
    r = s32(1, 200, 'curlcode', t)
    if st.F.const(a[1]) == INFO_RESPONSE_CODE:
        oid, off = buf(eng, st, a[2], 8, True, i, name)
        v = st.ghost.get('http')
        put_content(eng, st, oid, off, 8, v if v is not None else sym(64, 'http'))
        eng.emit('getinfo', st, ok=True, inst=i)
        eng.emit('getinfo', t, ok=False, inst=i)
    else:
        oid, off = eng.resolve(st, a[2], i)
        put(eng, st, oid, off, 8)
    return [(st, C(32, 0)), (t, r)]

def x_fmuladd(eng, st, i, a, name):
    p = eng.fop('fmul', [a[0], a[1]], st, i)
    return [(st, eng.fop('fadd', [p, a[2]], st, i))]

def x_minmax(eng, st, i, a, name):
    op = name.split('.')[1]
    pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}.get(op)
    if pred is None:
        return [(st, sym(a[0].w, op))]
    out = []
    for b, s in eng.branch(st, ae.icmp(pred, a[0], a[1])):
        out.append((s, a[0] if b else a[1]))
    return out

def x_unknown(eng, st, i, a, name):
    for x in a:
        if x.op == 'f' or x.w != 64:
            continue
        b, off = ae.ptr_split(x)
        if b is not None and (b.op == 'a' or b.isptr):
            if b.op == 'a' and b.aux.startswith('f:'):
                continue
            oid = eng.obj_of(st, b)
            if oid is not None and not st.mem[oid].ro:
                put(eng, st, oid, NULL, C(64, 1 << 46))
    if i is None or not i['t']:
        return [(st, None)]
    if i['t'] == 'p':
        r = sym(64, name, True)
        eng.maynull.add(r)
        return [(st, r)]
    return [(st, sym(i['t'] if isinstance(i['t'], int) else 64, name))]

_T = None
def table():
    global _T
    if _T is not None:
        return _T
    T = {}
    def reg(names, h):
        for n in names.split():
            T[n] = h
    reg('strcmp strncmp', x_strcmp)
    reg('memcmp bcmp CRYPTO_memcmp', x_memcmp)
    reg('strlen', x_strlen)
    reg('strchr strrchr', x_strchr)
    reg('strncpy', x_strncpy)
    reg('strcpy stpcpy', x_strcpy)
    reg('strncat strcat', x_strncat)
    reg('strdup __strdup', x_strdup)
    reg('basename __xpg_basename dirname', x_basename)
    reg('getenv secure_getenv', x_getenv)
    reg('snprintf sprintf', x_snprintf)
    reg('printf fprintf dprintf', x_printf)
    reg('vfprintf vprintf', x_vfprintf)
    reg('fputs puts perror', x_fputs)
    reg('putchar fputc putc', x_putc)
    reg('malloc calloc', x_malloc)
    reg('posix_memalign aligned_alloc', x_aligned)
    reg('free', x_free)
    reg('realloc reallocarray', x_realloc)
    reg('memcpy memmove', x_memcpy)
    reg('memset bzero', x_memset)
    reg('explicit_bzero OPENSSL_cleanse memset_explicit memset_s', x_cleanse)
    reg('open open64 openat openat64 creat', x_open)
    reg('close', x_close)
    reg('read pread pread64 write pwrite pwrite64 send recv', x_io)
    reg('lseek lseek64', x_lseek)
    reg('fstat fstat64', x_fstat)
    reg('ioctl', x_ioctl)
    reg('fsync fdatasync syncfs', x_sync)
    reg('ftruncate rename fchmod chmod', x_simple01)
    reg('socket accept', x_fdnew)
    reg('bind', x_bind)
    reg('access faccessat', x_access)
    reg('unlink remove unlinkat', x_unlink)
    reg('fgets', x_fgets)
    reg('ferror feof', x_ferror)
    reg('exit _exit', x_exit)
    reg('abort __assert_fail', x_abort)
    reg('__errno_location', x_errno)
    reg('clock_gettime', x_clock)
    reg('usleep sleep nanosleep', x_usleep)
    reg('isatty', x_ret(0, 1))
    reg('fflush fclose fileno clearerr', x_ret())
    reg('strerror curl_easy_strerror ZSTD_getErrorName', x_strerror)
    reg('getopt_long getopt', x_getopt)
    reg('SHA256', x_sha256)
    reg('SHA256_Init', x_sha_init)
    reg('SHA256_Update', x_sha_update)
    reg('SHA256_Final', x_sha_final)
    reg('bsearch', x_bsearch)
    reg('qsort', x_qsort)
    reg('EVP_CIPHER_CTX_new', x_evp_new)
    reg('EVP_CIPHER_CTX_free', x_evp_free)
    reg('EVP_CIPHER_CTX_reset', x_evp_reset)
    reg('EVP_CipherInit EVP_EncryptInit EVP_DecryptInit EVP_CipherInit_ex EVP_EncryptInit_ex EVP_DecryptInit_ex', x_evp_init)
    reg('EVP_Cipher', x_evp_cipher)
    reg('EVP_CipherUpdate EVP_EncryptUpdate EVP_DecryptUpdate', x_evp_update)
    reg('EVP_chacha20', x_chacha)
    reg('ZSTD_createDStream ZSTD_createDCtx', x_zstd_new)
    reg('ZSTD_freeDStream ZSTD_freeDCtx', x_zstd_free)
    reg('ZSTD_initDStream ZSTD_resetDStream ZSTD_DCtx_reset', x_zstd_init)
    reg('ZSTD_decompressStream', x_zstd_dec)
    reg('ZSTD_isError', x_zstd_iserr)
    reg('curl_global_init', x_ret(0, 100))
    reg('curl_easy_init', x_curl_init)
    reg('curl_easy_cleanup', x_curl_cleanup)
    reg('curl_easy_setopt', x_curl_setopt)
    reg('curl_easy_perform', x_curl_perform)
    reg('curl_easy_getinfo', x_curl_getinfo)
    reg('curl_global_cleanup', x_void)
    T['$prefix'] = [('llvm.memcpy', x_memcpy), ('llvm.memmove', x_memcpy), ('llvm.memset', x_memset),
                    ('llvm.dbg', x_void), ('llvm.lifetime', x_void), ('llvm.va_', x_void),
                    ('llvm.fmuladd', x_fmuladd), ('llvm.assume', x_void), ('llvm.umin', x_minmax),
                    ('llvm.umax', x_minmax), ('llvm.smin', x_minmax), ('llvm.smax', x_minmax),
                    ('llvm.expect', x_first)]
    T['$unknown'] = x_unknown
    _T = T
    return T
