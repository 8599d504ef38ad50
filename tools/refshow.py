"""Summary of a sweep over edits that keep the behaviour."""
import json, sys
from collections import Counter
c = Counter()
for l in open(sys.argv[1]):
    r = json.loads(l)
    n = r['desc'].rsplit('/', 1)[-1]
    if r['state'] != 'run':
        c[r['state']] += 1
        print(r['state'], n, r.get('why', '')[-400:])
        continue
    x = r['res']
    if not x:
        c['quiet'] += 1
        continue
    if 'crash' in x:
        print('CRASH', n, r['t'], x['crash'][-400:]); c['crash'] += 1
        continue
    v = [p for p in x if x[p].get('v')]
    u = [p for p in x if x[p].get('u')]
    e = [p for p in x if x[p].get('x')]
    k = 'VIOL' if v else 'exc' if e else 'undec'
    c[k] += 1
    print(k, n, r['t'], 's', 'V:' + ','.join(v), 'U:' + ','.join(u), 'X:' + ','.join(e))
    seen = set()
    for p in v + u + e:
        for t in (x[p].get('v') or x[p].get('u') or [x[p].get('x', '')[-300:]])[:3]:
            if t not in seen and len(seen) < int(sys.argv[2] if len(sys.argv) > 2 else 3):
                seen.add(t)
                print('     ', t[:300])
print(c)
