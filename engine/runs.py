"""Scenarios: the entry states from which the programs' code is analysed.
Each covers every history of the operations it offers (loops over operations
are taken to a fixpoint)."""
import time
from nodes import *
import ae, ext, contracts, harness, ir

def string_arg(eng, st, name, maxlen=1 << 31):
    oid = 'x:' + name
    n = sym(64, 'size_' + name)
    st.fw().set_u(n, 1, maxlen)
    o = eng.new_obj(st, oid, n, 'unk', 'x')
    o.nul = (sub(n, C(64, 1)),)
    return addr(oid)

def buffer_arg(eng, st, name, size):
    oid = 'x:' + name
    st.mem.pop(oid, None)
    eng.new_obj(st, oid, C(64, size) if isinstance(size, int) else size, 'unk', 'x')
    return addr(oid)

def size_arg(st, name, lo, hi):
    n = sym(64, name)
    st.fw().set_u(n, lo, hi)
    return n

class Broken(Exception):
    """an anchor of the analysis is gone: no verdict"""

def need(P, name):
    f = P.fns.get(name)
    if f is None or f.decl:
        raise Broken('function %s not found in %s' % (name, P.name))
    return f

def method(eng, st, p, impls):
    """function pointer of a store object that points to one of impls"""
    b, off = ae.ptr_split(p)
    o = st.mem.get(b.aux) if b is not None and b.op == 'a' else None
    if o is None:
        return None
    for (bb, c), (n, v, t) in sorted(o.cells.items(), key=lambda x: str(x[0])):
        if v.op == 'a' and v.aux[:2] == 'f:' and v.aux[2:] in impls:
            return v.aux[2:]
    return None

def queries(eng, st, p, get, free, name, max_hi=1 << 40):
    """every sequence of queries, then free"""
    P = eng.P
    st.env['$store'] = p
    def body(states):
        backs, exits = [], []
        for s in states:
            exits.append((None, s.fork(), None))
            if '$outsz' in s.env:
                s.env.pop('$outsz')
            idp = buffer_arg(eng, s, 'qid', 32)
            m = size_arg(s, 'outmax', 0, max_hi)
            out = buffer_arg(eng, s, 'qout', m)
            q = s.env['$store']
            s.note('-- query of the store')
            eng.emit('query', s, store=q, id='x:qid', out='x:qout', max=m)
            for r, v in eng.call_fn(P.fns[get], [q, idp, out, m], s):
                eng.emit('query_ret', r, store=q, id='x:qid', out='x:qout', max=m, ret=v, fn=get)
                r.mem.pop('x:qid', None)
                r.mem.pop('x:qout', None)
                # a store that failed is not asked again (C06)
                t = r.fork()
                if t.assume('slt', v, C(64, 0)):
                    exits.append((None, t, None))
                if r.assume('sge', v, C(64, 0)):
                    backs.append(r)
        return backs, exits, []
    exits, _ = eng.fix([st], body, ('queries', name))
    for _, s, _ in exits:
        if free is None:
            eng.emit('life_end', s, how='kept')
            continue
        s.note('-- store is freed')
        q = s.env['$store']
        eng.emit('freeing', s, store=q)
        for r, v in eng.call_fn(P.fns[free], [q], s):
            r.env.pop('$store', None)
            eng.emit('life_end', r, how='freed')

def lifecycle(eng, st, ctor, args, name=None):
    P = eng.P
    R = eng.roles
    n = 0
    st.note('-- %s' % ctor)
    for s, p in eng.call_fn(need(P, ctor), args, st):
        eng.emit('ctor_ret', s, fn=ctor, ret=p)
        if s.F.const(p) == 0:
            eng.emit('life_end', s, how='refused')
            continue
        get = method(eng, s, p, R.get_impls)
        free = method(eng, s, p, R.free_impls)
        if get is None:
            raise Broken('%s returns a store without a known get_chunk' % ctor)
        n += 1
        queries(eng, s, p, get, free, name or ctor)
    if not n:
        raise Broken('%s never succeeds' % ctor)

# ---------------------------------------------------------------- scenarios
def params_arg(eng, st):
    """chunk size parameters as accepted by the loader: a valid triple"""
    p = buffer_arg(eng, st, 'params', 12)
    mn, av, mx = sym(32, 'min'), sym(32, 'avg'), sym(32, 'max')
    oid = 'x:params'
    f = need(eng.P, 'chunker_params_set')
    a = [sym(64, 'pmin'), sym(64, 'pavg'), sym(64, 'pmax')]
    out = []
    for s, v in eng.call_fn(f, [p] + a, st):
        if s.F.sb(v)[0] >= 0:
            out.append((s, p))
    if not out:
        raise Broken('chunker_params_set accepts nothing')
    return out

def sc_local(eng):
    """local store: created with and without a side-loaded index, queried any
    number of times, freed"""
    st = ae.State()
    for s, pp in params_arg(eng, st):
        for side in (False, True):
            t = s.fork()
            t.ts = dict(t.ts, side=side)
            t.note('-- %s side-loaded index' % ('with' if side else 'without'))
            path = string_arg(eng, t, 'path')
            idx = string_arg(eng, t, 'index') if side else NULL
            lifecycle(eng, t, 'store_local_new', [path, idx, pp], 'local%d' % side)

def sc_http(eng):
    st = ae.State()
    url = string_arg(eng, st, 'url', 1 << 20)
    lifecycle(eng, st, 'store_http_new', [url])

def sc_target(eng):
    """target: any sequence of checks, writes and queries, before and after it
    is made a store"""
    P = eng.P
    st = ae.State()
    path = string_arg(eng, st, 'path')
    for fn in ('target_new', 'target_as_store', 'target_check_chunk', 'target_write'):
        need(P, fn)
    st.note('-- target_new')
    for s, p in eng.call_fn(P.fns['target_new'], [path], st):
        eng.emit('ctor_ret', s, fn='target_new', ret=p)
        if s.F.const(p) == 0:
            eng.emit('life_end', s, how='refused')
            continue
        s.env['$store'] = p
        get = method(eng, s, p, eng.roles.get_impls)
        if get is None:
            raise Broken('target without get_chunk')
        def body(states):
            backs, exits = [], []
            for s in states:
                exits.append((None, s.fork(), None))
                q = s.env['$store']
                def pop(r):
                    for k in ('x:qid', 'x:qout'):
                        r.mem.pop(k, None)
                    backs.append(r)
                # check or write
                for op in ('target_check_chunk', 'target_write'):
                    t = s.fork()
                    idp = buffer_arg(eng, t, 'qid', 32)
                    ln = size_arg(t, 'len', 1, (1 << 32) - 1)
                    m = size_arg(t, 'bufsize', 1, 1 << 40)
                    t.assume('ule', ln, m)
                    b = buffer_arg(eng, t, 'qout', m)
                    off = sym(64, 'off')
                    t.note('-- %s' % op)
                    eng.emit('target_op', t, op=op, id='x:qid', buf='x:qout', len=ln, off=off)
                    for r, v in eng.call_fn(P.fns[op], [q, b, ln, off, idp], t):
                        eng.emit('target_op_ret', r, op=op, id='x:qid', buf='x:qout', len=ln, off=off, ret=v)
                        pop(r)
                if 'target_sync' in P.fns:
                    t = s.fork()
                    t.note('-- target_sync')
                    eng.emit('target_op', t, op='target_sync', id=None, buf=None, len=C(64, 0), off=C(64, 0))
                    for r, v in eng.call_fn(P.fns['target_sync'], [q], t):
                        eng.emit('target_op_ret', r, op='target_sync', id=None, buf=None, len=None, off=None, ret=v)
                        pop(r)
                t = s.fork()
                est = size_arg(t, 'estimate', 0, 1 << 58)
                t.note('-- target_as_store')
                for r, v in eng.call_fn(P.fns['target_as_store'], [q, est], t):
                    eng.emit('as_store_ret', r, ret=v)
                    pop(r)
                t = s
                if t.ts.get('dead'):
                    continue
                idp = buffer_arg(eng, t, 'qid', 32)
                m = size_arg(t, 'outmax', 0, 1 << 40)
                out = buffer_arg(eng, t, 'qout', m)
                t.note('-- query of the target')
                eng.emit('query', t, store=q, id='x:qid', out='x:qout', max=m)
                for r, v in eng.call_fn(P.fns[get], [q, idp, out, m], t):
                    eng.emit('query_ret', r, store=q, id='x:qid', out='x:qout', max=m, ret=v, fn=get)
                    t = r.fork()
                    if t.assume('slt', v, C(64, 0)):
                        t.ts = dict(t.ts, dead=1)
                        pop(t)
                    if r.assume('sge', v, C(64, 0)):
                        pop(r)
            return backs, exits, []
        exits, _ = eng.fix([s], body, ('target ops',))
        for _, r, _ in exits:
            r.env.pop('$store', None)
            eng.emit('life_end', r, how='kept')

def sc_chain(eng):
    """chain of any number of stores (fixpoint over appends and queries)"""
    P = eng.P
    need(P, 'store_chain_new'); need(P, 'store_chain_append')
    st = ae.State()
    hint = size_arg(st, 'hint', 0, 1 << 21)
    st.note('-- store_chain_new')
    for s, p in eng.call_fn(P.fns['store_chain_new'], [hint], st):
        eng.emit('ctor_ret', s, fn='store_chain_new', ret=p)
        if s.F.const(p) == 0:
            eng.emit('life_end', s, how='refused')
            continue
        s.env['$store'] = p
        get = method(eng, s, p, eng.roles.get_impls)
        free = method(eng, s, p, eng.roles.free_impls)
        if get is None or free is None:
            raise Broken('chain without methods')
        def body(states):
            backs, exits = [], []
            for s in states:
                exits.append((None, s.fork(), None))
                oid = 'x:sub'
                s.mem.pop(oid, None)
                eng.new_obj(s, oid, None, 'unk', 'x')
                s.note('-- store_chain_append')
                for r, v in eng.call_fn(P.fns['store_chain_append'], [s.env['$store'], addr(oid)], s):
                    eng.emit('append_ret', r, ret=v)
                    backs.append(r)
            return backs, exits, []
        exits, _ = eng.fix([s], body, ('appends',))
        for _, r, _ in exits:
            queries(eng, r, r.env['$store'], get, free, 'chain')

SC = {}

def scenario(name, prog, fn, tr=True, dg=True, ctors=False, opts=None, exp=(), benches=False):
    SC[name] = dict(name=name, prog=prog, fn=fn, tr=tr, dg=dg, ctors=ctors, opts=opts or {}, exp=exp, benches=benches)

def sc_main(eng):
    av = eng.argv
    st, args = harness.main_state(eng.P, eng, av)
    eng.emit('start', st)
    for s, v in eng.call_fn(need(eng.P, 'main'), args, st):
        s.note('main returns %s' % show(v))
        eng.emit('exit', s, code=v, inst=None)

scenario('local', 'csn', sc_local, opts={'block_merge': 1, 'merge_at': 2}, exp=('chunker_scan_fd', 'caibx_load_header', 'caibx_iterate_entries'))
scenario('http', 'csn', sc_http, exp=('encrypt_parse_keyspec', 'encrypt_do', 'hchacha20', 'crypto_wipe'))
scenario('http-feed', 'csn', sc_http, exp=('encrypt_parse_keyspec', 'encrypt_do', 'hchacha20', 'crypto_wipe'), opts={'split_zstd': 1})
scenario('target', 'csn', sc_target)
scenario('chain', 'csn', sc_chain)
scenario('csn', 'csn', sc_main, ctors=True, opts={'block_merge': 6, 'merge_at': 4})
MAINMOD = ('store_chain_new', 'store_chain_append', 'target_new', 'target_check_chunk', 'target_write',
           'target_sync', 'target_as_store', 'caibx_load_header', 'caibx_iterate_entries')
scenario('main', 'csn', sc_main, ctors=True, exp=MAINMOD)
scenario('tool', 'csn-tool', sc_main, exp=('parse_hex', 'encrypt_parse_keyspec', 'encrypt_do', 'hchacha20', 'crypto_wipe'))
scenario('patchdd', 'patchdd', sc_main)
scenario('bench', 'csn-bench', sc_main, benches=True)

def run(name, P, mons, **opts):
    sc = SC[name]
    R = contracts.Roles(P)
    o = dict(sc['opts'])
    o['get_effects'] = contracts.effects(R)
    o.update(opts)
    av = harness.Argv()
    S = contracts.summaries(R, sc['tr'], sc['dg'], sc['ctors'])
    S.update(contracts.exported(P, sc['exp']))
    if sc['benches']:
        for f in P.fns.values():
            if f.name in P.addr_taken and [str(t) for t in f.params] == ['32', 'p'] and str(f.ret) == '32' and not f.decl:
                S[f.name] = contracts.command
    eng = ae.Engine(P, [av] + list(mons), S, o)
    eng.icall = contracts.store_icall
    eng.roles = R
    eng.argv = av
    eng.scenario = name
    t = time.time()
    eng.stopped = None
    try:
        sc['fn'](eng)
        for m in mons:
            if hasattr(m, 'finish'):
                m.finish()
    except Broken:
        raise
    except Exception as ex:
        if not eng.reports:
            raise
        # what was reported so far was reached on states that do occur
        eng.stopped = '%s: %s' % (type(ex).__name__, ex)
    eng.wall = time.time() - t
    return eng
