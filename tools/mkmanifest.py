"""MANIFEST.json from the registry."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/engine')
import registry
na = json.load(open(H + '/tools/not_applicable.json'))
notes = json.load(open(H + '/tools/notes.json'))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    if p in registry.CHECKS:
        checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
                       'technique': notes['technique'].get(p, notes['technique']['*']), 'level': 'other',
                       'level_note': notes['note'].get(p, notes['note']['*'])})
m = {'version': 1, 'setup_cmd': 'python3-vt engine/build.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': na[p]} for p in props if p not in registry.CHECKS]}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
