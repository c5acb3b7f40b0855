"""C24: formats are constants that fit their arguments, and what is printed on
behalf of a caller is printed completely.  Works on the IR of a whole program,
without interpreting it: provenance of format arguments over the call graph,
and reachability in the control flow of the functions that print for others."""
import re

# external functions taking a format: name -> (position of the format, first argument or None for a va_list)
FMT = {'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3),
       'asprintf': (1, 2), 'syslog': (1, 2), '__printf_chk': (1, 2), '__fprintf_chk': (2, 3),
       '__sprintf_chk': (3, 4), '__snprintf_chk': (4, 5), 'err': (1, 2), 'errx': (1, 2), 'warn': (0, 1), 'warnx': (0, 1),
       'error': (2, 3), 'setproctitle': (0, 1), 'curl_mprintf': (0, 1), 'curl_mfprintf': (1, 2), 'curl_msnprintf': (2, 3),
       'vprintf': (0, None), 'vfprintf': (1, None), 'vdprintf': (1, None), 'vsprintf': (1, None),
       'vsnprintf': (2, None), 'vasprintf': (1, None), 'vsyslog': (1, None), 'verr': (1, None), 'vwarn': (0, None),
       '__vfprintf_chk': (2, None), '__vsnprintf_chk': (4, None),
       'scanf': (0, 1), 'sscanf': (1, 2), 'fscanf': (1, 2), '__isoc99_sscanf': (1, 2), '__isoc99_fscanf': (1, 2), '__isoc99_scanf': (0, 1)}
SCAN = {'scanf', 'sscanf', 'fscanf', '__isoc99_sscanf', '__isoc99_fscanf', '__isoc99_scanf'}
OUT = {'printf', 'fprintf', 'dprintf', 'fputs', 'puts', 'fputc', 'putc', 'putchar', 'fwrite', 'write', '__printf_chk', '__fprintf_chk'}
WHOLE = {'vprintf', 'vfprintf', 'vdprintf', 'vasprintf', 'vsyslog', '__vfprintf_chk', 'verr', 'vwarn'}
CONV = re.compile(rb"%([-+ #0']*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|j|z|t|L|q)?(.)", re.S)

def spec(fmt):
    """-> classes of the arguments a format takes; None if it is malformed"""
    out = []
    i = 0
    while True:
        i = fmt.find(b'%', i)
        if i < 0:
            return out
        m = CONV.match(fmt, i)
        if not m:
            return None
        fl, wd, pr, ln, cv = m.groups()
        i = m.end()
        if cv == b'%':
            continue
        if wd == b'*':
            out.append(32)
        if pr == b'*':
            out.append(32)
        if cv in b'diouxXc':
            out.append(64 if ln in (b'l', b'll', b'j', b'z', b't', b'q') and cv != b'c' else 32)
        elif cv in b'sp':
            out.append('p')
        elif cv == b'n':
            out.append('%n')
        elif cv in b'aAeEfFgG':
            out.append('x86_fp80' if ln == b'L' else 'f')
        elif cv == b'm':
            continue
        else:
            return None

class Diag:
    def __init__(self, P):
        self.P = P
        self.reports = []
        self.sites = {}
        self.n = 0
        self.fns = {f['name']: f for f in P['functions'] if not f['decl']}
        self.glob = {g['name']: g for g in P['globals']}
        self.defs = {}
        for f in self.fns.values():
            d = self.defs[f['name']] = {}
            for b in f['blocks']:
                for i in b:
                    if 'id' in i:
                        d[i['id']] = i

    def where(self, f, i):
        return '%s:%s' % ((i.get('f') or f.get('file') or '?').split('/')[-1], i.get('l') or f.get('line'))

    def rep(self, f, i, msg):
        self.reports.append({'rule': 'C24', 'msg': msg, 'where': self.where(f, i), 'fn': f['name'], 'path': []})

    def site(self, k, f, i):
        self.sites.setdefault(k, set()).add(self.where(f, i))

    def calls(self):
        for f in self.fns.values():
            for bi, b in enumerate(f['blocks']):
                for i in b:
                    if i['op'] in ('call', 'invoke') and i.get('callee'):
                        self.n += 1
                        yield f, bi, i

    def strings(self, g, off):
        """constant string at g+off, or None"""
        x = self.glob.get(g)
        if x is None or not x.get('const') or x.get('decl') or 'bytes' not in x or x.get('relocs'):
            return None
        b = bytes.fromhex(x['bytes'])[off:]
        return b.split(b'\0')[0] if b'\0' in b else None

    def origin(self, f, v, seen=None):
        """-> set of ('s', bytes) | ('a', n) | ('?', why)"""
        seen = seen if seen is not None else set()
        if v[0] == 'g':
            s = self.strings(v[1], int(v[2]) if len(v) > 2 else 0)
            return {('s', s)} if s is not None else {('?', 'not a constant string')}
        if v[0] == 'a':
            return {('a', v[1])}
        if v[0] != 'v':
            return {('?', 'not a string')}
        if v[1] in seen:
            return set()
        seen.add(v[1])
        i = self.defs[f['name']].get(v[1])
        if i is None:
            return {('?', 'not a constant string')}
        if i['op'] == 'phi':
            return set().union(*[self.origin(f, x, seen) for _, x in i['inc']])
        if i['op'] == 'select':
            return self.origin(f, i['ops'][1], seen) | self.origin(f, i['ops'][2], seen)
        if i['op'] == 'getelementptr' and not i['var']:
            o = set()
            for x in self.origin(f, i['b'], seen):
                o.add(('s', x[1][i['off']:]) if x[0] == 's' and i['off'] <= len(x[1]) else x if x[0] == '?' or not i['off'] else ('?', 'computed'))
            return o
        if i['op'] == 'load':
            return self.table(f, i['ops'][0])
        if i['op'] == 'call' and i.get('callee', [0])[0] == 'g' and i['callee'][1] in ('gettext', 'dgettext'):
            return self.origin(f, i['ops'][-1], seen)
        return {('?', 'computed at run time')}

    def table(self, f, v):
        """what a load from a constant table of strings may yield"""
        while v[0] == 'v':
            i = self.defs[f['name']].get(v[1])
            if i is None or i['op'] != 'getelementptr':
                return {('?', 'read from memory')}
            v = i['b']
        x = self.glob.get(v[1]) if v[0] == 'g' else None
        if x is None or x.get('decl') or not (x.get('const') or self.unwritten(v[1])) or not x.get('relocs'):
            return {('?', 'read from memory')}
        o = set()
        for r in x['relocs']:
            s = self.strings(r[1][1], int(r[1][2])) if r[1][0] == 'g' else None
            o.add(('s', s) if s is not None else ('?', 'read from memory'))
        return o

    def unwritten(self, g):
        """a static that is only ever indexed and loaded from"""
        key = '$unw'
        if not hasattr(self, key):
            setattr(self, key, {})
        c = getattr(self, key)
        if g in c:
            return c[g]
        ok = True
        for f in self.fns.values():
            der = set()
            for b in f['blocks']:
                for i in b:
                    isg = lambda v: v and (v[0] == 'g' and v[1] == g or v[0] == 'v' and (f['name'], v[1]) in der)
                    if i['op'] == 'getelementptr' and isg(i['b']):
                        der.add((f['name'], i['id']))
                    elif i['op'] == 'load':
                        pass
                    elif any(isg(v) for v in i.get('ops', ())) or any(isg(v) for _, v in i.get('inc', ())):
                        ok = False
        c[g] = ok
        return ok

    def run(self):
        fmt = dict(FMT)
        done = {}
        calls = list(self.calls())
        ch = True
        while ch:
            ch = False
            for f, bi, i in calls:
                c = i['callee']
                if c[0] != 'g' or c[1] not in fmt:
                    continue
                pos, first = fmt[c[1]]
                if pos >= len(i['ops']):
                    continue
                for o in self.origin(f, i['ops'][pos]):
                    if o[0] == 'a' and f['name'] not in FMT:
                        new = (o[1], len(f['params']) if f.get('vararg') else None)
                        if f['name'] in fmt and fmt[f['name']] != new:
                            self.rep(f, i, 'two parameters are used as formats')
                        elif f['name'] not in fmt:
                            fmt[f['name']] = new
                            ch = True
        taken = self.taken()
        for f, bi, i in calls:
            c = i['callee']
            if c[0] != 'g' or c[1] not in fmt:
                continue
            pos, first = fmt[c[1]]
            if pos >= len(i['ops']):
                self.rep(f, i, '%s is called without a format' % c[1])
                continue
            self.site('format', f, i)
            for o in self.origin(f, i['ops'][pos]):
                if o[0] == '?':
                    self.rep(f, i, 'the format given to %s is %s' % (c[1], o[1]))
                elif o[0] == 'a':
                    if f['name'] in taken:
                        self.rep(f, i, 'a parameter of %s, which is called through a pointer, is used as a format' % f['name'])
                    if first is not None and len(i['ops']) > first and f.get('vararg'):
                        self.rep(f, i, 'the format of a caller is used with other arguments')
                elif first is not None and c[1] not in SCAN:
                    self.fits(f, i, c[1], o[1], i['ats'][first:])
        for n, (pos, first) in fmt.items():
            if n in self.fns and first is not None:
                self.sink(self.fns[n], pos)

    def taken(self):
        t = set()
        for f in self.fns.values():
            for b in f['blocks']:
                for i in b:
                    for v in list(i.get('ops', ())) + [v for _, v in i.get('inc', ())]:
                        if v and v[0] == 'g' and v[1] in self.fns:
                            t.add(v[1])
        for g in self.glob.values():
            for r in g.get('relocs', ()):
                if r[1][0] == 'g' and r[1][1] in self.fns:
                    t.add(r[1][1])
        return t

    def fits(self, f, i, name, s, ats):
        want = spec(s)
        txt = s.decode('latin1')[:60]
        if want is None:
            self.rep(f, i, 'the format "%s" is malformed' % txt)
            return
        if '%n' in want:
            self.rep(f, i, 'the format "%s" writes to memory' % txt)
        if len(want) != len(ats):
            self.rep(f, i, 'the format "%s" takes %d arguments, %d are given' % (txt, len(want), len(ats)))
            return
        for k, (w, t) in enumerate(zip(want, ats)):
            t = 'f' if str(t) in ('d', 'f', 'double', 'f64') or isinstance(t, str) and t not in ('p',) and w == 'f' else t
            if w != t and w != '%n':
                self.rep(f, i, 'argument %d of the format "%s" has another type' % (k + 1, txt))

    # ---- functions that print what a caller wants printed
    def base(self, f, v):
        while v[0] == 'v':
            i = self.defs[f['name']].get(v[1])
            if i is None or i['op'] != 'getelementptr':
                break
            v = i['b']
        return tuple(v[:2])

    def sink(self, f, pos):
        self.site('printer', f, f['blocks'][0][0] if f['blocks'] and f['blocks'][0] else {})
        fwd = set()
        def kind(i):
            if i['op'] != 'call' or not i.get('callee') or i['callee'][0] != 'g':
                return None
            n = i['callee'][1]
            if n in FMT and FMT[n][1] is None or n in self.fns and n != f['name'] and self.vlike(n):
                p = FMT[n][0] if n in FMT else None
                if p is None or ('a', pos) in self.origin(f, i['ops'][p]):
                    if n in ('vsnprintf', '__vsnprintf_chk', 'vsprintf'):
                        return 'part' if self.fixed(f, i['ops'][0]) else 'size' if i['ops'][0][0] == 'n' else 'whole'
                    return 'whole'
            if n in OUT:
                return 'out'
            if n.startswith('llvm.va_start') or n.startswith('llvm.va_copy'):
                return 'start'
            return None
        any_whole = False
        for b in f['blocks']:
            for i in b:
                k = kind(i)
                if k == 'part':
                    self.rep(f, i, 'what %s prints is cut off at the size of a buffer' % f['name'])
                any_whole |= k in ('whole', 'part')
        if not any_whole:
            self.rep(f, f['blocks'][0][0], '%s does not print what it was given' % f['name'])
            return
        # a path that prints something, but not the message
        seen = set()
        st = [(0, False)]
        while st:
            b, o = st.pop()
            if (b, o) in seen:
                continue
            seen.add((b, o))
            stop = False
            for i in f['blocks'][b]:
                k = kind(i)
                if k in ('whole', 'part'):
                    stop = True
                    break
                if k == 'out':
                    o = True
                if i['op'] == 'ret' and o:
                    self.rep(f, i, '%s prints only part of a message on some path' % f['name'])
            if stop:
                continue
            t = f['blocks'][b][-1]
            nx = t.get('s', []) if t['op'] == 'br' else [t['def']] + [c[1] for c in t['cases']] if t['op'] == 'switch' else []
            st += [(x, o) for x in nx]
        # arguments consumed twice
        for bi, b in enumerate(f['blocks']):
            for k, i in enumerate(b):
                if kind(i) in ('whole', 'part', 'size'):
                    va = self.base(f, i['ops'][-1])
                    if self.again(f, bi, k + 1, va, kind):
                        self.rep(f, i, '%s uses its arguments again after they were consumed' % f['name'])

    def again(self, f, b, k, va, kind):
        seen = set()
        st = [(b, k)]
        while st:
            b, k = st.pop()
            stop = False
            for i in f['blocks'][b][k:]:
                x = kind(i)
                if x == 'start' and self.base(f, i['ops'][0]) == va:
                    stop = True
                    break
                if x in ('whole', 'part', 'size') and self.base(f, i['ops'][-1]) == va:
                    return True
            if stop:
                continue
            t = f['blocks'][b][-1]
            for x in (t.get('s', []) if t['op'] == 'br' else [t['def']] + [c[1] for c in t['cases']] if t['op'] == 'switch' else []):
                if x not in seen:
                    seen.add(x)
                    st.append((x, 0))
        return False

    def vlike(self, n):
        """does this function hand a va_list and its format on to a printing function?"""
        f = self.fns[n]
        for b in f['blocks']:
            for i in b:
                if i['op'] == 'call' and i.get('callee') and i['callee'][0] == 'g' and i['callee'][1] in WHOLE:
                    if any(o[0] == 'a' for o in self.origin(f, i['ops'][FMT[i['callee'][1]][0]])) and i['ops'][-1][0] == 'a':
                        return True
        return False

    def fixed(self, f, v):
        b = self.base(f, v)
        if b[0] == 'g':
            return True
        if b[0] == 'v':
            i = self.defs[f['name']].get(b[1])
            return i is not None and i['op'] == 'alloca' and isinstance(i.get('size'), int)
        return False

def run(P):
    d = Diag(P)
    d.run()
    return d
