"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
sys.dont_write_bytecode = True
from props import P  # noqa: E402
NA = {}
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(here, 'checks', p['id'].lower() + '.py')):
        checks.append({
            'property': p['id'],
            'quick_cmd': './run.sh %s quick' % p['id'],
            'thorough_cmd': './run.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'], 'level': 'exploration',
            'level_note': p['note']})
    else:
        na.append({'property': p['id'],
                   'reason': NA.get(p['id'], 'the technique applies, but the check has not been built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none: no hooks were added to the repository',
               'enable': 'not needed', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
