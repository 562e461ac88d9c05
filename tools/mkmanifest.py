"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        spec, note = registry.NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': 'TLA+ specification (%s) checked by TLC; behaviours enumerated from it replayed into the code and recorded traces validated against it by TLC' % spec,
                       'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC throughout. No hooks are needed in /repo: every observation is made through the public API. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
