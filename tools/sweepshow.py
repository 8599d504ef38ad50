"""Summary of a sweep."""
import json, sys
from collections import Counter
c = Counter()
for l in open(sys.argv[1]):
    r = json.loads(l)
    if r['state'] != 'run':
        c[r['state']] += 1
        continue
    x = r['res']
    caught = [p for p in x if p != 'crash' and x[p].get('v')]
    und = [p for p in x if p != 'crash' and x[p].get('u')]
    cr = [p for p in x if p == 'crash' or x[p].get('x')]
    k = 'crash' if cr else 'caught' if caught else 'undecided' if und else 'quiet'
    c[k] += 1
    if k != 'caught' or '-a' in sys.argv:
        print(k, r['desc'], r['t'], 's', 'V:' + ','.join(caught), 'U:' + ','.join(und), 'X:' + ','.join(cr))
        for p in (cr[:1] if cr else und[:1]):
            print('      ', (x[p] if p == 'crash' else x[p].get('x') or x[p]['u'][0])[-700:])
print(c)
