"""known.py PROP ID 'what fails' DUMP REGEX [...]: record the failing case ids (matching REGEX on id+detail) of a check dump as a known finding
(done by hand after reproducing the defect, never by a check)."""
import json
import os
import re
import sys

exact = '--exact' in sys.argv  # another failure of the same case is a violation
sys.argv = [a for a in sys.argv if a != '--exact']
prop, kid, what, dump, rx = sys.argv[1:6]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
recs = [json.loads(l) for l in open(path)]
r = next((r for r in recs if r.get('id') == kid), None)
if r is None:
    r = {'kind': 'known', 'property': prop, 'id': kid, 'what': what, 'cases': []}
    recs.append(r)
if what:
    r['what'] = what
new = []
for line in open(dump):
    d = json.loads(line)
    if d['status'] == 'fail' and not d.get('refused') and re.search(rx, d['id'] + ' | ' + (d.get('detail') or '')):
        new.append(d['id'])
        if exact:
            r.setdefault('details', {})[d['id']] = d['detail']
r['cases'] = sorted(set(r['cases']) | set(new))
open(path, 'w').write(''.join(json.dumps(x) + '\n' for x in recs))
print(kid, len(new), '->', len(r['cases']))
