"""Writes MANIFEST.json from the list of registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = props.VERIF
TRACE = ('trace validation: random histories of API calls run on the real library (assertions off and on); every call and result is checked by TLC against the TLA+ specification spec/Mdbx.tla')
NOTE = ('Model checking of recorded behaviours: each explored history is decided completely (TLC explores every admissible state of the specification), the set of histories is a seeded sample. '
        'Assumes the driver drv/drv.c reports calls and results faithfully and that what the specification leaves undetermined (DESIGN.md) is not promised.')
LEVEL = {}
TECH = dict(getattr(props, 'TECHNIQUE', {}))
NOTES = dict(getattr(props, 'LEVEL_NOTE', {}))
LEVEL = dict(getattr(props, 'LEVEL', {}))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.CHECKS: continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': 'TLA+/TLC ' + TECH.get(i, TRACE), 'level': LEVEL.get(i, 'model_checking'), 'level_note': NOTES.get(i, NOTE)})
na = [{'property': i, 'reason': getattr(props, 'NOT_APPLICABLE', {}).get(i, 'not claimed yet: the specification does not cover it so far (see DESIGN.md)')} for i in ids if i not in props.CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specification in spec/, conformance machinery in tools/ and drv/; no hooks in /repo (fault, crash and schedule control is done by link-time interposition). See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
