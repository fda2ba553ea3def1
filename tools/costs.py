"""Write the table of measured counts into DESIGN.md from the evidence of quick runs.

usage: costs.py [evidence directory]; fails when a file is missing or of another tier."""
import json
import os
import sys

top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
evid = sys.argv[1] if len(sys.argv) > 1 else os.path.join(top, 'evidence')
with open(os.path.join(top, 'properties.jsonl')) as fh:
    ids = [json.loads(x)['id'] for x in fh if x.strip()]
rows = ['| property | states | transitions | real traces | seconds |', '|---|---|---|---|---|']
for i in ids:
    with open(os.path.join(evid, i + '.json')) as fh:
        e = json.load(fh)
    if e['tier'] != 'quick':
        sys.exit('%s: evidence of a %s run' % (i, e['tier']))
    c = e['coverage']
    rows.append('| %s | %d | %d | %d | %.0f |' % (i, c['states'], c['transitions'],
                                                 c['traces_validated_against_impl'], e['wall_s']))
p = os.path.join(top, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- costs -->\n', '<!-- end of costs -->'
i, j = s.index(a) + len(a), s.index(b)
with open(p, 'w') as fh:
    fh.write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
