#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and checks.py."""
import json
import os

from checks import CHECKS
from meta import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Held on the executions observed (counted in the evidence file), not '
        'verified for all: the oracle is independent exact arithmetic, the code '
        'runs with its assertions, AddressSanitizer and UndefinedBehaviorSanitizer.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                        'hook_needed': None},
        }) + '\n')

checks = []
na = []
for p in PROPS:
    if p['id'] not in CHECKS:
        na.append({'property': p['id'], 'reason':
                   p['note'] or 'its check is not built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py ' + p['id'],
        'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note'] if p['id'].startswith('X') else
        (p['note'] + ' ' if p['note'] else '') + NOTE,
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'hooks': {'guard': 'WALNUT_VERIF_HOOKS',
              'enable': 'No hooks were needed: every monitor observes the '
                        'library through its public interface.',
              'source_commits': []},
    'checks': checks,
    'not_applicable': na,
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
unknown = set(CHECKS) - {p['id'] for p in PROPS}
assert not unknown, unknown
print(len(checks), 'checks,', len(na), 'not applicable')
