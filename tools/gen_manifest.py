"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTE = {
    'default': 'TLC validates recorded executions of the real code against the TLA+ specification, clause by clause, '
               'and model-checks the design the clauses come from within small bounds. Trusted: TLC, the IEEE-double '
               'override Num.java, the Python recorder. Inputs are sampled (seeded), not exhaustive.',
}
TECH = {'default': 'TLA+ specification checked with TLC; trace validation of the real code against it'}
TECH['C18'] = 'TLA+ state machine explored with TLC; its behaviours replayed on the real Signal, traces validated by TLC'
props = [json.loads(x) for x in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'bin/check {i} quick', 'thorough_cmd': f'bin/check {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': TECH.get(i, TECH['default']),
                       'level': 'model_checking', 'level_note': NOTE.get(i, NOTE['default'])})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the public API already exposes the abstract state. See DESIGN.md.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
