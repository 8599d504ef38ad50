"""Mutation sweep (development aid, not a check): sweep.py OUT.jsonl N SEED [files...]
small random edits of the sources in scratch copies; which checks report them."""
import os, sys, re, json, random, subprocess, shutil, time
from multiprocessing import Process, Queue
sys.path.insert(0, '/verif/engine')
FILES = ['src/basic/parser/%s.rs' % n for n in 'mod class method code annotation decode'.split()] + ['src/basic/constpool.rs']
OPS = [
    (r'read_u16', 'read_u8'), (r'read_u8\b', 'read_u16'), (r'read_u32', 'read_u16'), (r'read_i32', 'read_i16'), (r'read_i16', 'read_i8'),
    (r'read_i16', 'read_u16'), (r'read_i32', 'read_u32'), (r'read_i8', 'read_u8'), (r'read_u16', 'read_i16'),
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' << ', ' >> '), (r' \| ', ' & '), (r' & ', ' | '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\?;', '.ok();'), (r'\?', '.unwrap_or_default()'), (r'saturating_', 'wrapping_'), (r'checked_add', 'checked_sub'),
    (r'\.\.', '..='), (r'\.\.=', '..'), (r'as usize', 'as u16 as usize'), (r'as u32', 'as u16 as u32'), (r'as u16', 'as u8 as u16'),
    (r'i64', 'i32'), (r'u64', 'u32'), (r'LimitExceeded', 'InvalidUTF8'), (r'InvalidUTF8', 'LimitExceeded'),
    (r'depth \+ 1', 'depth'), (r'break;', 'continue;'), (r'continue;', 'break;'), (r'swap_bytes', 'to_le'),
    (r"'\w'", "'x'"), (r"'Z'", "'z'"), (r"'\[' if", "']' if"), (r'is_empty\(\)', 'len() == 1'), (r'\.len\(\)', '.capacity()'), (r'255', '256'), (r'state == 0', 'state == 1'), (r'u8', 'u16'), (r'u8', 'i8'), (r'chars\.count\(\)', 'chars.as_str().trim().len()'),
    (r'from_be', 'from_le'), (r'\.push\(', '.insert(0, '), (r'with_capacity\((\w+)', r'with_capacity(2 * \1'),
]


def mutate(text, rng, limit):
    lines = text.split('\n')[:limit]
    rest = text.split('\n')[limit:]
    for _ in range(200):
        i = rng.randrange(len(lines))
        l = lines[i]
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#'):
            continue
        how = rng.choice(['op', 'op', 'op', 'num', 'num', 'del', 'swap', 'str', 'ident', 'dup'])
        new = None
        out = list(lines)
        if how == 'op':
            c = [(p, r) for p, r in OPS if re.search(p, l)]
            if not c:
                continue
            p, r = rng.choice(c)
            m = rng.choice(list(re.finditer(p, l)))
            new = l[:m.start()] + m.expand(r) + l[m.end():]
        elif how == 'num':
            ms = list(re.finditer(r'\b(0x[0-9A-Fa-f]+|0b[01_]+|\d+)\b', l))
            if not ms:
                continue
            m = rng.choice(ms)
            v = int(m.group(1).replace('_', ''), 0)
            w = v + rng.choice([1, -1, 1, 2, 8, -v])
            if w < 0 or w == v:
                continue
            new = l[:m.start()] + str(w) + l[m.end():]
        elif how == 'del':
            if not s.endswith(';') or s.startswith('use') or s.startswith('let') or s.startswith('const'):
                continue
            new = ''
        elif how == 'dup':
            if not s.endswith(';') or s.startswith('use') or 'return' in s:
                continue
            new = l + '\n' + l
        elif how == 'swap':
            if i + 1 >= len(lines) or not lines[i + 1].strip() or lines[i + 1].strip()[0] in '}/':
                continue
            if s[-1] not in ';,':
                continue
            out[i], out[i + 1] = out[i + 1], out[i]
            new = out[i]
        elif how == 'str':
            m = re.search(r'"(\w+)"', l)
            if not m:
                continue
            t = m.group(1)
            k = rng.randrange(len(t))
            new = l[:m.start(1)] + t[:k] + t[k].swapcase() + t[k + 1:] + l[m.end(1):]
        elif how == 'ident':
            ws = [w for w in re.findall(r'\b[A-Za-z_]{3,}\w*\b', l) if w[0].isupper()]
            if not ws:
                continue
            w = rng.choice(ws)
            pool = [x for x in re.findall(r'\b[A-Z]\w{2,}\b', '\n'.join(lines[max(0, i - 12):i + 12])) if x != w]
            if not pool:
                continue
            new = l.replace(w, rng.choice(pool), 1)
        if new is None or new == l and how != 'swap':
            continue
        out[i] = new
        return '\n'.join(out + rest), '%d %s: %s => %s' % (i + 1, how, s, new.strip())
    return None, None


def sh(cmd, t=300):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R:
            returncode = 99
            stdout = 'timeout'
        return R


def worker(wid, jobs, out, patches):
    w = '/tmp/sweep%s%d' % (os.environ.get('SWEEP_N', ''), wid)
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo %s' % w)
    while True:
        j = jobs.get()
        if j is None:
            break
        sh('git -C %s checkout -q -- .' % w)
        if patches:
            r = sh('git -C %s apply %s' % (w, j))
            if r.returncode:
                out.put(dict(desc=j, state='noapply', why=r.stdout[-300:]))
                continue
            desc = j
        else:
            f, text, desc = j
            open(os.path.join(w, f), 'w').write(text)
            desc = f + ':' + desc
        r = sh('cd %s && cargo test --offline --target-dir %s/target 2>&1' % (w, w))
        if r.returncode:
            out.put(dict(desc=desc, state='build' if 'could not compile' in r.stdout else 'tests',
                         why=r.stdout[-600:] if patches else ''))
            continue
        t = time.time()
        r = sh('cd /verif && timeout 800 python3 tools/allchecks.py %s %s' % (w, os.environ.get('SWEEP_P', '')), 820)
        try:
            res = json.loads(r.stdout.strip().split('\n')[-1])
        except Exception:
            res = dict(crash=r.stdout[-1500:])
        out.put(dict(desc=desc, state='run', t=round(time.time() - t), res=res))
    shutil.rmtree(w, ignore_errors=True)
    out.put(None)


def main():
    dst = sys.argv[1]
    patches = '--patches' in sys.argv
    args = [a for a in sys.argv[2:] if not a.startswith('--')]
    jobs = Queue()
    nw = int(os.environ.get('SWEEP_W', '7'))
    if patches:
        n = len(args)
        for a in args:
            jobs.put(os.path.abspath(a))
    else:
        n = int(args[0])
        rng = random.Random(int(args[1]))
        files = args[2:] or FILES
        seen = set()
        while len(seen) < n:
            f = rng.choice(files)
            text = open('/repo/' + f).read()
            ls = text.split('\n')
            lim = next((i for i, l in enumerate(ls) if '#[cfg(test)]' in l), len(ls))
            t, d = mutate(text, rng, lim)
            if t is None or (f, d) in seen:
                continue
            seen.add((f, d))
            jobs.put((f, t, d))
    for _ in range(nw):
        jobs.put(None)
    out = Queue()
    ps = [Process(target=worker, args=(i, jobs, out, patches)) for i in range(nw)]
    for p in ps:
        p.start()
    left = nw
    with open(dst, 'w') as f:
        while left:
            r = out.get()
            if r is None:
                left -= 1
                continue
            f.write(json.dumps(r) + '\n')
            f.flush()


main()
