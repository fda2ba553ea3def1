"""Regenerate MANIFEST.json from the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
src = open(os.path.join(V, 'tools', 'notes.json')).read()
NOTES = json.loads(src)
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        continue
    checks.append({
        'property': p,
        'quick_cmd': './run.sh ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+ specification checked with TLC; ' + NOTES[p]['technique'],
        'level': 'model_checking',
        'level_note': NOTES[p]['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks observe the '
               'unmodified code through its module interfaces', 'source_commits': []},
     'not_applicable': NOTES.get('not_applicable', []),
     'notes': 'TLA+ modules in spec/, drivers in checks/, library in lib/. '
              'Known and fixed findings in KNOWN_FINDINGS.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
