'''Writes MANIFEST.json from the registry of checks and properties.jsonl.'''
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib import registry  # noqa: E402

TECH = 'TLA+ specification checked with TLC; behaviours replayed on the ' \
    'code and recorded runs validated by a TLA+ trace specification'
props = [json.loads(s) for s in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': registry.TECHNIQUE.get(i, TECH),
            'level': 'model_checking',
            'level_note': registry.NOTES[i]})
    else:
        na.append({'property': i, 'reason': registry.NA.get(
            i, 'no check yet: its trace specification is still being written')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the checks observe the public interface '
              'only. Language: TLA+ with TLC. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
