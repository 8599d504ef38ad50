#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current source."""
import os, sys, json, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if tier == 'thorough':
        os.environ['JBV_PURE'] = '1'        # the entailment search written in Python, instead of the one in C
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    import checks
    try:
        v = checks.run(prop, tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('%s: no answer: %s' % (prop, e))
        return 2
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['known'] if k['property'] == prop]
    shown = []
    new = []
    for key, text in sorted(v.violations.items(), key=lambda x: repr(x[0])):
        k = next((k for k in known if k['key'] == repr(key)), None)
        (shown if k else new).append((key, text))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', prop + '.report.txt')
    with open(rp, 'w') as f:
        f.write('property %s, %s\n' % (prop, tier))
        for key, text in new:
            f.write('VIOLATION %s\n    key %r\n' % (text, key))
        for key, text in shown:
            f.write('KNOWN %s\n' % text)
        for key, text in v.undecided.items():
            f.write('UNDECIDED %s\n' % text)
    cov = dict(v.coverage)
    cov.update(obligations=v.obligations, discharged=v.discharged,
               checker_cmd='python3 check.py %s --tier %s' % (prop, tier),
               trusted_base=checks.TRUSTED, samples=v.samples, undecided=list(v.undecided.values())[:20])
    ev = dict(property=prop, tier=tier, seed=seed, level=checks.LEVEL.get(prop, 'proof'), coverage=cov,
              assumptions=checks.ASSUMPTIONS + v.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for key, text in shown:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for key, text in new[:40]:
        print('%s: %s' % (prop, text))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if v.undecided:
        # not explored: said so, and no answer when too little is left of what is usually decided
        for key, text in list(v.undecided.items())[:40]:
            print('UNDECIDED: property=%s %s' % (prop, text))
        usual = json.load(open(os.path.join(HERE, 'baseline.json'))).get(prop, 1)
        if 20 * v.discharged < usual:
            print('%s: no answer: only %d obligations could be decided, usually %d' % (prop, v.discharged, usual))
            return 2
    print('%s: %d of %d obligations hold (%.1f s)' % (prop, v.discharged, v.obligations, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
