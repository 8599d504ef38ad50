"""Makes the planted bugs of tools/seeds/*.py: mkseed.py [ids...]; verifies each in a scratch copy."""
import os, sys, subprocess, json, shutil, glob, re
sys.path.insert(0, '/verif/tools')
HERE = '/verif/tools'
W = '/tmp/seedw'
DEMO = '''#!/bin/bash
# run in the repository: 0 when the property holds for the case in main.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here"/*.rs "$t/src/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
jbcrs = { path = "$repo" }
[workspace]
X
cd "$t" && CARGO_INCREMENTAL=0 timeout %(timeout)d cargo run --offline --quiet --target-dir "$t/target"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.exists(W):
        sh('cp -a /repo %s' % W)
    sh('git -C %s fetch -q /repo && git -C %s checkout -qf FETCH_HEAD -- . ' % (W, W))


def main():
    ids = sys.argv[1:]
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        g = {}
        exec(open(f).read(), g)
        for s in g['SEEDS']:
            if ids and s['id'] not in ids:
                continue
            one(s)
    shutil.rmtree(W, ignore_errors=True)


def one(s):
    fresh()
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(d):
        os.remove(os.path.join(d, x))
    for file, old, new in s['edits']:
        p = os.path.join(W, file)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'edit matches', t.count(old), 'times:', old[:60])
            return
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff', 'HEAD'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % dict(timeout=s.get('timeout', 250)))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write('mod cls;\nuse cls::*;\n' + s['main'])
    shutil.copy(HERE + '/seed_cls.rs', d + '/cls.rs')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(d + '/meta.json', 'w'), indent=1)
    bad = sh('cd %s && %s/demo.sh' % (W, d))
    r = sh('cd %s && cargo test --offline --target-dir target -- --test-threads 8 2>&1 | grep -E "^test result|error|FAILED|warning: unused"' % W)
    good = sh('cd /repo && %s/demo.sh' % d)
    tests = re.findall(r'(\d+) passed; (\d+) failed', r.stdout)
    fine = good.returncode == 0 and bad.returncode != 0 and tests and all(b == '0' for a, b in tests)
    print(s['id'], s['property'], 'OK' if fine else 'BAD', 'clean rc', good.returncode, 'bug rc', bad.returncode, tests)
    if not fine:
        print(good.stdout[-1500:], '-----', bad.stdout[-1500:], r.stdout[-800:])


main()
