"""Writes properties.jsonl and MANIFEST.json from pbt/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt.props import PROPS  # noqa

checks, na = [], []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        fp.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['domain']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mechanism']],
                        'observe_at': p.get('observe', []),
                        'hook_needed': None}}) + '\n')
        mod = os.path.join(ROOT, 'pbt', 'checks', p['id'].lower() + '.py')
        if os.path.exists(mod):
            checks.append({
                'property': p['id'],
                'quick_cmd': './run %s quick' % p['id'],
                'thorough_cmd': './run %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'property-based testing (Hypothesis generators; '
                             + p['oracle'] + ')',
                'level': 'exploration',
                'level_note': p['note']})
        else:
            na.append({'property': p['id'],
                       'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': na,
     'notes': 'Pure Python code under test: every check imports /repo\'s '
              'working tree directly, nothing is built or cached. Checks run '
              'on up to 8 worker processes; cases are a pure function of '
              'VERIF_SEED and the tier. Replay: ./run <id> --replay <file>.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
