"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, '/verif/engine')
import checks
AI = 'abstract interpretation of the compiler\'s MIR (path-partitioned, loop fixpoints, procedure summaries)'
NOTE = ('All inputs of any length: loops by inductive invariants, recursion by summaries. Trusts rustc\'s MIR, the '
        'models of std functions in /verif/engine and the entailment search of linear facts.')
T = checks.TECHNIQUE
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
cs = []
na = []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        cs.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=T.get(i, AI), level=checks.LEVEL.get(i, 'proof'),
                       level_note=checks.NOTE.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='cd driver && cargo +nightly build --offline', checks=cs, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
