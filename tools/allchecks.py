"""All checks on the tree given, in one process (development aid): one line of JSON."""
import sys, json
sys.path.insert(0, '/verif/engine')
import mir, session, checks
se = session.Session(mir.extract([], sys.argv[1]))
out = {}
usual = json.load(open('/verif/baseline.json'))
for p in sorted(checks.CHECKS):
    if len(sys.argv) > 2 and p not in sys.argv[2:]:
        continue
    try:
        v = checks.run(p, 'quick', se)
        if v.violations or v.undecided:
            out[p] = dict(v=[x[:300] for x in v.violations.values()][:6], u=[x[:300] for x in v.undecided.values()][:6],
                          nv=len(v.violations), nu=len(v.undecided),
                          none=20 * v.discharged < usual.get(p, 1))
    except Exception as e:
        import traceback
        out[p] = dict(x=traceback.format_exc()[-900:])
print(json.dumps(out))
