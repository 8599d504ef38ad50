"""Loads the JSON written by the rustc driver and prepares functions for the analysis."""
import json, os, subprocess, shutil, tempfile, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def build_driver():
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(d, 'target/debug/jbv-driver')
    env = dict(os.environ)
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    env.pop('RUSTC_WRAPPER', None)
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit('cannot build the driver')
    return exe


def extract(stop, repo=REPO):
    import synth
    stop = list(stop) + synth.STOP
    exe = build_driver()
    sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    tmp = tempfile.mkdtemp(prefix='jbv-')
    try:
        out = os.path.join(tmp, 'mir.json')
        sp = os.path.join(tmp, 'stop.txt')
        open(sp, 'w').write('\n'.join(stop) + '\n')
        env = dict(os.environ)
        env.pop('RUSTC_WRAPPER', None)
        env.update(LD_LIBRARY_PATH=sysroot + '/lib', JBV_OUT=out, JBV_CRATE='jbcrs', JBV_STOP=sp,
                   RUSTC_WORKSPACE_WRAPPER=exe, CARGO_INCREMENTAL='0')
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--target-dir',
                            os.path.join(tmp, 't')], cwd=repo, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stdout[-4000:])
            raise SystemExit('cannot analyse the crate')
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Fn:
    __slots__ = ('id', 'path', 'decl', 'name', 'file', 'line', 'local', 'krate', 'kind', 'rec', 'body',
                 'locals', 'argc', 'blocks', 'spread', 'loops', 'headers', 'live_in', 'names', 'targs',
                 '_prep', 'nlocals')

    def __init__(self, rec):
        self.rec = rec
        self.id = rec['id']
        self.path = rec['path']
        self.decl = rec['decl']
        self.name = rec['name']
        self.file = rec['file']
        self.line = rec['line']
        self.local = rec['local']
        self.krate = rec['krate']
        self.kind = rec['kind']
        self.targs = rec['targs']
        self.body = rec['body']
        self._prep = False
        if self.body:
            b = self.body
            self.locals = b['locals']
            self.argc = b['argc']
            self.blocks = b['blocks']
            self.spread = b['spread']
            self.names = dict((l, n) for n, l in [(x[1], x[0]) for x in b['names']])
            self.nlocals = len(self.locals)

    def prep(self):
        if self._prep:
            return
        self._prep = True
        self._loops()
        self._live()

    def succs(self, i):
        b = self.blocks[i]
        if b is None:
            return []
        return term_succs(b[1])

    def _loops(self):
        n = len(self.blocks)
        # reverse postorder
        seen = set()
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succs(y))))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == order[0]:
                    return False
                b = idom[b]
        self.headers = {}
        self.loops = True
        for b in order:
            for s in self.succs(b):
                if idx[s] <= idx[b]:
                    if not dominates(s, b):
                        self.loops = False   # irreducible
                        continue
                    body = self.headers.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])

    def _live(self):
        n = len(self.blocks)
        use = [None] * n
        de = [None] * n
        for i, b in enumerate(self.blocks):
            if b is None:
                continue
            u, d = set(), set()
            for s in b[0]:
                k = s[0]
                if k == '=':
                    rv_uses(s[2], u, d)
                    place_def(s[1], u, d)
                elif k == 'setd':
                    place_use(s[1], u, d)
                elif k == 'assume':
                    op_use(s[1], u, d)
                elif k == 'dead':
                    d.add(s[1]) if s[1] not in u else None
            t = b[1]
            k = t[0]
            if k == 'switch':
                op_use(t[1], u, d)
            elif k == 'call':
                if t[1].get('ptr') is not None:
                    op_use(t[1]['ptr'], u, d)
                if t[1].get('invoke') is not None and t[1]['invoke'] not in d:
                    u.add(t[1]['invoke'])
                for a in t[2]:
                    op_use(a, u, d)
                place_def(t[3], u, d)
            elif k == 'assert':
                op_use(t[1], u, d)
            elif k == 'return':
                if 0 not in d:
                    u.add(0)
            use[i], de[i] = u, d
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                if self.blocks[i] is None:
                    continue
                o = set()
                for s in self.succs(i):
                    o |= live[s]
                x = use[i] | (o - de[i])
                if x != live[i]:
                    live[i] = x
                    changed = True
        self.live_in = live


def term_succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        r = []
        for _, b in t[3]:
            if b not in r:
                r.append(b)
        if t[4] is not None and t[4] not in r:
            r.append(t[4])
        return r
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[5]]
    return []


def place_use(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1]:
        if e.__class__ is list and e[0] == 'i' and e[1] not in d:
            u.add(e[1])


def place_def(p, u, d):
    if not p[1]:
        if p[0] not in u:
            d.add(p[0])
    else:
        place_use(p, u, d)


def op_use(o, u, d):
    if o[0] in ('c', 'm'):
        place_use(o[1], u, d)


def rv_uses(r, u, d):
    k = r[0]
    if k in ('use',):
        op_use(r[1], u, d)
    elif k == 'rep':
        op_use(r[1], u, d)
    elif k in ('ref', 'raw'):
        place_use(r[1], u, d)
    elif k == 'cast':
        op_use(r[2], u, d)
    elif k == 'bin':
        op_use(r[2], u, d)
        op_use(r[3], u, d)
    elif k == 'un':
        op_use(r[2], u, d)
    elif k == 'discr':
        place_use(r[1], u, d)
    elif k == 'agg':
        for o in r[2]:
            op_use(o, u, d)


class Program:
    def __init__(self, js):
        self.js = js
        self.types = js['types']
        self.fns = [Fn(r) if r else None for r in js['fns']]
        self.items = js['items']
        self.iter_next = js['iter_next']
        self.by_path = {}
        self.synth = None
        for f in self.fns:
            if f:
                self.by_path.setdefault(f.path, []).append(f)

    def ty(self, t):
        return self.types[t]

    def find_local(self, pred):
        return [f for f in self.fns if f and f.local and f.body and pred(f)]
