"""Writes /verif/MANIFEST.json and properties.jsonl.

A property is claimed if checks/<id>.py exists.
"""
import importlib.util
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / 'tools'))
import properties_src  # noqa

TECHNIQUE = {
    'C26': 'runtime monitoring: AddressSanitizer/UBSan build under generated '
           'call sequences with a differential oracle',
    'C13': 'runtime monitoring with fault enumeration: recorded writes and '
           'syncs, reopened images of every crash point, trace oracle',
    'C30': 'runtime monitoring with injected failures of writes, syncs and '
           'truncates; oracle over callbacks and reopened images'}
LEVELS = {'C13': 'fault_enumeration', 'C30': 'fault_enumeration'}
NOTES = json.loads((root / 'tools' / 'level_notes.json').read_text())

with open(root / 'properties.jsonl', 'w') as f:
    for p in properties_src.P:
        f.write(json.dumps(p) + '\n')

checks = []
missing = []
for p in properties_src.P:
    i = p['id']
    if not (root / 'checks' / f'{i.lower()}.py').exists():
        missing.append({'property': i, 'reason': 'check is not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check {i}',
        'thorough_cmd': f'./check {i}',
        'technique': TECHNIQUE.get(
            i, 'runtime monitoring: oracle over recorded executions of the '
               'real code under generated hostile workloads'),
        'level': LEVELS.get(i, 'exploration'),
        'level_note': NOTES.get(
            i, 'Held on the observed executions only (counts in the evidence '
               'file); trusts the reference model and the harness in rt/.')})

manifest = {'version': 1,
            'setup_cmd': './setup',
            'hooks': {'guard': 'none', 'enable':
                      'no hooks: checks observe public interfaces only',
                      'source_commits': []},
            'checks': checks,
            'not_applicable': missing,
            'notes': 'Every check copies /repo\'s working tree to a scratch '
                     'folder, builds it there and runs the real code; see '
                     'DESIGN.md.'}
(root / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
print(len(checks), 'checks;', len(missing), 'not claimed')
