"""refusals.py PROP DUMP...: add the ids of refused cases in check dumps (check.sh PROP --dump FILE) to refusals/PROP.txt (done by hand, never by a check)."""
import json
import os
import sys

prop, dumps = sys.argv[1], sys.argv[2:]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'refusals', f'{prop}.txt')
os.makedirs(os.path.dirname(path), exist_ok=True)
ids = set(open(path).read().splitlines()) if os.path.exists(path) else set()
n = len(ids)
for d in dumps:
    for line in open(d):
        r = json.loads(line)
        if r.get('refused') or r['status'] == 'refuse':
            ids.add(r['id'])
open(path, 'w').write('\n'.join(sorted(ids)) + '\n')
print(prop, n, '->', len(ids))
