#!/usr/bin/env python3-vt
"""check.py ID: decide one property for the current source tree."""
import sys, os, json, time, traceback, multiprocessing, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import build, registry

# sets of strings shall have the same order in every run
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

def one(job):
    """analyse one scenario -> plain data"""
    scen, prog, js = job
    t = time.time()
    try:
        import ir, runs
        P = ir.Prog(prog, js[prog])
        r = registry.run(scen, P, sys.argv[1], js[prog])
        r['wall'] = time.time() - t
        return r
    except Exception as e:
        return {'scenario': scen, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc(), 'wall': time.time() - t}

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = registry.CHECKS[pid]
    try:
        js = build.programs()
    except build.BuildError as e:
        print('the program does not build: %s' % e)
        return 2
    jobs = [(s, registry.prog(s), js) for s in spec['runs']]
    global JS
    JS = js
    procs = min(len(jobs), os.cpu_count() or 1, 8)
    if procs > 1:
        with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=1) as p:
            res = p.map(one_, [(s, registry.prog(s)) for s in spec['runs']], 1)
    else:
        res = [one((s, registry.prog(s), js)) for s in spec['runs']]
    for r in res:
        if r.get('stopped') and 'error' not in r:
            r['error'] = r['stopped']
    errs = [r for r in res if 'error' in r]
    for r in errs:
        print('NO VERDICT from %s: %s' % (r['scenario'], r['error']))
        if os.environ.get('VERIF_DEBUG'):
            print(r['tb'])
    viol = {}
    for r in res:
        for x in r.get('reports', ()):
            if x['rule'] == pid:
                viol.setdefault((x['where'], x['msg']), dict(x, scenario=r['scenario']))
    # what must have been seen for the check to mean anything
    sites = {}
    for r in res:
        for k, v in r.get('sites', {}).items():
            sites.setdefault(k, set()).update(v)
    missing = [k for k in spec.get('need', ()) if not sites.get(k)]
    known = known_findings(pid)
    new = []
    for v in viol.values():
        k = next((f for f in known if f['where'] == v['where'].split(':')[0] and f['text'] in v['msg']), None)
        if k is not None:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['where'], v['msg']))
        else:
            new.append(v)
    # obligations: the places at which a rule of this property was applied
    mine = {k: sorted(v) for k, v in sites.items() if k in spec.get('sites', spec.get('need', ()))}
    nob = sum(len(v) for v in mine.values())
    bad = len({v['where'] for v in new})
    cov = {
        'explanation': spec['how'],
        'rule': spec['rule'],
        'programs_analysed': sorted({registry.prog(s) for s in spec['runs']}),
        'source_files': sorted({u for s in spec['runs'] for u in js[registry.prog(s)].get('units', ())}),
        'scenarios': {r['scenario']: {'abstract_instructions': r.get('insts', 0), 'loop_rounds_max': r.get('rounds', 0),
                                      'functions': r.get('functions', []), 'seconds': round(r['wall'], 1),
                                      'externals_without_model': r.get('unknown', [])} for r in res},
        'rule_sites': mine,
        'obligations': nob,
        'discharged': max(0, nob - bad),
        'samples': [{'kind': k, 'site': s} for k in sorted(mine) for s in mine[k][:2]][:12],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': registry.ASSUMPTIONS + spec.get('assume', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        os.makedirs(os.path.join(HERE, 'reports'), exist_ok=True)
        rp = os.path.join(HERE, 'reports', pid + '.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('property %s, scenario %s\n%s (in %s): %s\nabstract path:\n' % (pid, v['scenario'], v['where'], v['fn'], v['msg']))
                for p in v['path']:
                    f.write('    %s\n' % p)
                f.write('\n')
        for v in new[:20]:
            print('%s (%s): %s' % (v['where'], v['fn'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        return 2
    if missing:
        print('NO VERDICT: nothing found to check for: %s' % ', '.join(missing))
        return 2
    print('%s: held at %d sites in %d scenarios (%.0f s)' % (pid, nob, len(res), time.time() - t0))
    return 0

def one_(a):
    return one((a[0], a[1], JS))

def known_findings(pid):
    """lines  known: property=<id> <file>: <text>"""
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('known: property=%s ' % pid):
                w, t = l.split(' ', 2)[2].strip().split(': ', 1)
                out.append({'where': w, 'text': t})
    except FileNotFoundError:
        pass
    return out

if __name__ == '__main__':
    sys.exit(main())
