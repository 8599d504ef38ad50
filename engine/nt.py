"""Procedures that are cut out of the recursion (non-terminals of the grammar that is parsed).

The entry state of such a procedure is generalised over all its call sites; its effect is summarised
by the leaves it modifies and the relations that hold for them on every exit.  Both are verified: the
entry covers every recorded call, the summary every exit of the last pass.
"""
from lin import *
from vals import *
from loops import *
from interp import State, Frame, uid_of, UIDFN


def recursive_sccs(prog):
    """strongly connected sets of local functions"""
    loc = [f for f in prog.fns if f and f.local and f.body]
    ids = set(f.id for f in loc)
    succ = {}
    for f in loc:
        s = set()
        for b in f.blocks:
            if b and b[1][0] == 'call' and b[1][1].get('fn_') in ids:
                s.add(b[1][1]['fn_'])
            if b:
                for x in closure_fns(prog, b):
                    if x in ids:
                        s.add(x)
        succ[f.id] = s
    index, low, on, st, out = {}, {}, set(), [], []

    def go(v):
        index[v] = low[v] = len(index)
        st.append(v)
        on.add(v)
        for w in succ[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            if len(c) > 1 or v in succ[v]:
                out.append(c)
    for f in loc:
        if f.id not in index:
            go(f.id)
    return out, succ


def closure_fns(prog, b):
    """functions named as values in a block (closures, function items)"""
    out = []

    def ty(t):
        x = prog.types[t]
        if x['k'] in ('closure', 'fndef') and x.get('fn_') is not None:
            out.append(x['fn_'])

    def op(o):
        if o[0] == 'k':
            ty(o[1]['ty'])
    for s in b[0]:
        if s[0] != '=':
            continue
        r = s[2]
        if r[0] == 'agg':
            k = r[1]
            if k['k'] == 'closure':
                ty(k['ty'])
            for o in r[2]:
                op(o)
        elif r[0] in ('use', 'rep'):
            op(r[1])
        elif r[0] == 'cast':
            op(r[2])
    if b[1][0] == 'call':
        for o in b[1][2]:
            op(o)
    return out


class NTGen(Gen):
    """entry of a cut procedure: constants, the length of the input, everything else is unknown"""

    def __init__(self, ip, name, glob):
        Gen.__init__(self, ip, name, Facts(), False)
        self.glob = glob
        self.lhint = {}

    def isglob(self, v):
        return all(a in self.glob for a, _ in v.t)

    def init_form(self, P, p, v, S, ints):
        if self.isglob(v):
            P.forms[p] = ('c', v)
        else:
            self.set_free(P, p, None)

    def usable(self, P, b, S0):
        return self.isglob(b)

    def init_forms(self, P):
        for p in P.L.lsts:
            if p not in self.lkind and p[0][0] != 'p':
                self.lkind[p] = ('f',)
        for p in P.L.opqs:
            self.okind[p] = ('f',)
        Gen.init_forms(self, P)


class NT:
    def __init__(self, idx, fn, name, ip, glob):
        self.idx = idx
        self.fn = fn
        self.name = name
        self.ip = ip
        self.gen = NTGen(ip, ('N', idx), glob)
        self.mods = {}        # leaf path -> {0: [(sign, leaf path or None, c)], 1: ...}
        self.uid = uid_of(('nt', idx))
        fn.prep()
        UIDFN[self.uid] = fn
        self.results = []
        self.known = []       # incoming call states
        self.heads = []
        self.ready = False
        self.seen = {0: False, 1: False}

    # ---- renaming of the cells reachable from the arguments
    def rename(self, ip, st, args):
        m = {}
        order = []

        def cell(c):
            if c[0] == 'k':
                return c
            ip.getcell(st, c)
            if c[0] == 'p' and c in st.cells and st.cells[c].__class__ is Lst and len(st.cells[c].segs) == 1 \
                    and st.cells[c].segs[0][0] == 'in':
                order.append((c, c)) if c not in m else None
                m[c] = c
                return c
            r = m.get(c)
            if r is None:
                r = m[c] = ('g', 'nt', self.idx, len(m))
                order.append((c, r))
            return r

        def val(v):
            k = v.__class__
            if k is Ref:
                return Ref(cell(v.cell), v.proj)
            if k is Sl:
                return Sl(cell(v.cell), v.proj, v.off, v.len, v.str_)
            if k is Agg:
                return Agg(v.ty, v.var, tuple(None if x is None else val(x) for x in v.f))
            return v
        out = [val(a) for a in args]
        cells = {}
        i = 0
        while i < len(order):
            c, r = order[i]
            i += 1
            v = ip.getcell(st, c)
            if v is None:
                raise Unsupported('argument refers to an uninitialised value')
            cells[r] = val(v)
        return out, cells, dict((r, c) for c, r in order)

    def entry(self, ip, st, args):
        """the state in which the procedure is entered from here"""
        a, cells, back = self.rename(ip, st, args)
        s = State.__new__(State)
        s.frames = (Frame(self.uid, self.fn, None, None, None, None),)
        s.bb = 0
        s.pc = 0
        s.trace = None
        s.taint = st.taint
        s.lines = None
        s.facts = st.facts
        s.cells = cells
        for i, x in enumerate(a):
            s.cells[(self.uid, i + 1)] = x
        return s, back

    # ---- the call
    def call(self, ip, st, fn, args, t):
        e, back = self.entry(ip, st, args)
        site = (st.frames[-1].uid, st.bb)
        L = flatten(ip, e)      # decides open booleans (ForkOn)
        c = CallRec()
        c.nt = self
        c.site = site
        c.state = e
        c.L = L
        c.where = ip.site(st, t[6])
        c.fns = tuple(f.fn.path for f in st.frames)
        c.frames = st.frames
        c.leaves = dict(L.ints)
        for p, l in L.lsts.items():
            c.leaves[(p[0], p[1] + ('#n',))] = st.facts.norm(l.length())
        c.post = {}
        ip.ntc.setdefault(site, []).append(c)
        ip.stats['nts'] += 1
        if not self.ready:
            return None      # nothing is known to return yet
        dest, target = self.ip.place(st, t[3]), t[4]
        rty = t[5]
        rt = ip.T[rty]
        out = []
        isres = rt['k'] == 'adt' and rt['path'] == 'core::result::Result'
        for var in ((0, 1) if isres else (0,)):
            if not self.seen[var]:
                continue
            s = st.copy()
            ok = True
            post = {}
            for p in self.mods:
                lo, hi = self.range_of(p)
                a = A(sym(('np', site, var, p), lo, hi))
                post[p] = a
            for p, rels in self.mods.items():
                a = post[p]
                for sg, q, k in rels[var] or ():
                    # sign * (post - q) <= k
                    if q not in c.leaves:
                        continue
                    x = a - c.leaves[q]
                    ok = ok and s.facts.add_le(x.scale(sg) - k)
                self.put(ip, s, back, p, a)
            if not ok:
                continue
            c2 = CallRec()
            c2.__dict__.update(c.__dict__)
            c2.post = post
            c2.var = var
            if isres:
                pt = rt['variants'][var]['fields'][0]['ty']
                v = Agg(rty, var, (ip.opq(('nr' if var == 0 else 'ne', site), pt),))
            else:
                v = ip.opq(('nr', site), rty)
            ip.store(s, dest[0], dest[1], v)
            s.ev(('nt', c2))
            s.bb = target
            s.pc = 0
            out.append(s)
        return out

    def range_of(self, p):
        return self.gen_range.get(p, (0, (1 << 64) - 1))

    gen_range = {}

    def put(self, ip, st, back, p, v):
        cell = back[p[0]]
        ip.store(st, cell, p[1], v)

    # ---- the body
    def absorb(self, calls):
        """generalises the entry over the given call states; True when nothing changed"""
        g = self.gen
        for P in g.order:
            P.incoming = []
        g.changed = False
        n = len(g.order)
        for c in calls:
            s = c.state.copy()
            g.add(s)
        ch = g.changed or len(g.order) != n
        for P in g.order:
            if not P.forms:
                g.init_forms(P)
        first = True
        for _ in range(100):
            if g.check():
                break
            first = False
        else:
            raise Unsupported('entry of %s does not stabilise' % self.fn.path)
        return first and not ch

    def run(self):
        ip = self.ip
        g = self.gen
        self.heads = []
        self.results = []
        for P in g.order:
            h = g.build(P, (Frame(self.uid, self.fn, None, None, None, None),), 0, None, None)
            if h is None:
                continue
            self.heads.append((P, h))
            start = h.copy()
            for k, s in ip.run([h.copy()], 1):
                self.results.append((P, start, s))
        return self.results

    def check_summary(self):
        """compares the exits with the summary; True when it holds"""
        ip = self.ip
        stable = self.ready
        first = not self.ready
        seen = set()
        for _, _, s in self.results:
            rv = s.cells['ret']
            seen.add(rv.var if rv.__class__ is Agg and rv.var is not None else 0)
        self.ready = bool(self.results)
        for P, h, s in self.results:
            rv = s.cells['ret']
            var = rv.var if rv.__class__ is Agg and rv.var is not None else 0
            for cell, v in h.cells.items():
                if cell[0] != 'g':
                    continue
                ch = changed_leaves(ip, s, v, s.cells.get(cell), ())
                for path in ch:
                    p = (cell, path)
                    if p not in self.mods:
                        if p not in P.forms:
                            raise Unsupported('%s modifies a structured argument' % self.fn.path)
                        self.mods[p] = {0: None, 1: None}
                        stable = False
                        if not first:
                            # unchanged on every exit so far
                            for w in (0, 1):
                                if self.seen[w]:
                                    self.mods[p][w] = [(1, p, 0), (-1, p, 0)]
        # relations of the modified leaves with the entry values
        for p in self.mods:
            for var in (0, 1):
                rels = self.mods[p][var]
                new = None
                for P, h, s in self.results:
                    rv = s.cells['ret']
                    v = rv.var if rv.__class__ is Agg and rv.var is not None else 0
                    if v != var:
                        continue
                    x = s.facts.norm(ip.load(s, p[0], p[1]))
                    if rels is None:
                        if new is None:
                            new = []
                            for q in P.forms:
                                hv = P.vals[q]
                                if not hv.t or (q[0][0] == 'p'):
                                    continue
                                if s.facts.le(x - hv):
                                    new.append((1, q, 0))
                                if var == 0 and q == p:
                                    for k in (2, 1, 0):
                                        if s.facts.le(hv - x + k):
                                            new.append((-1, q, -k))
                                            break
                                elif s.facts.le(hv - x):
                                    new.append((-1, q, 0))
                        else:
                            new = [self.weaken(s, x, P.vals.get(q), sg, q, k) for sg, q, k in new]
                            new = [r for r in new if r is not None]
                    else:
                        if not self.seen[var]:
                            continue
                        keep = []
                        for sg, q, k in rels:
                            r = self.weaken(s, x, P.vals.get(q), sg, q, k)
                            if r is not None:
                                keep.append(r)
                        if keep != rels:
                            rels = keep
                            stable = False
                if rels is None:
                    if var in seen:
                        self.mods[p][var] = new or []
                        stable = False
                else:
                    self.mods[p][var] = rels
        for w in seen:
            if not self.seen[w]:
                self.seen[w] = True
                stable = False
        return stable

    def weaken(self, s, x, q, sg, qp, k):
        if q is None:
            return None
        for d in range(0, 3):
            if s.facts.le((x - q).scale(sg) - k - d):
                return (sg, qp, k + d)
        return None


class CallRec(object):
    pass


def changed_leaves(ip, s, a, b, path):
    """paths at which value b (in state s) may differ from a"""
    if a is b:
        return []
    if b is None:
        return [path]
    ca, cb = a.__class__, b.__class__
    if ca is Lin and cb is Lin:
        return [] if s.facts.eq(a - b) else [path]
    if ca is Agg and cb is Opq:
        return [path]
    if ca is Opq and cb is Agg:
        b0 = ip.expand(a, b.var)
        return changed_leaves(ip, s, b0, b, path)
    if ca is Agg and cb is Agg:
        if a.var != b.var or len(a.f) != len(b.f):
            return [path]
        out = []
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            out += changed_leaves(ip, s, x, y, path + (i,))
        return out
    if ca is Lst and cb is Lst:
        from models import canon
        return [] if canon(ip, s, a) == canon(ip, s, b) else [path]
    if ca is Opq and cb is Opq:
        return [] if a.sym == b.sym else [path]
    if ca is Ref and cb is Ref:
        return [] if a.cell == b.cell and a.proj == b.proj else [path]
    if ca is Sl and cb is Sl:
        return [] if a.cell == b.cell and a.proj == b.proj and s.facts.eq(a.off - b.off) and s.facts.eq(a.len - b.len) else [path]
    if ca is bool or cb is bool:
        return [] if a == b else [path]
    if ca is Flt and cb is Flt:
        return [] if s.facts.eq(a.bits - b.bits) else [path]
    if ca is Fnv and cb is Fnv:
        return []
    return [path]


class System:
    """a root procedure and the procedures cut out of it"""

    def __init__(self, ip, root, nts, glob, mkroot):
        self.ip = ip
        self.root = root
        self.mkroot = mkroot
        self.nts = nts
        for n in nts:
            ip.nts[n.fn.id] = n
        self.rootres = []
        self.log = []

    def solve(self, maxpass=14):
        ip = self.ip
        # a few paths first, to guess the entries, the summaries and the loop invariants
        ip.sampling = True
        self.passes(maxpass)
        ip.sampling = False
        self.passes(maxpass)
        if any(not f.taint for f in ip.findings.values()):
            self.again(maxpass)

    retried = False

    def again(self, maxpass=14):
        """once more, without what earlier rounds gave up on"""
        if self.retried:
            return False
        self.retried = True
        ip = self.ip
        ip.findings.clear()
        ip.obl.clear()
        ip.recs.clear()
        ip.rolled = set()
        for h in ip.hints.values():
            h['norel'] = set()
            h['n'] = 0
        self.passes(maxpass)
        return True

    def passes(self, maxpass):
        import time
        ip = self.ip
        rootrun = False
        dirty = {n.idx: True for n in self.nts}
        outs = {}
        mode = 'sample ' if ip.sampling else ''
        for rnd in range(maxpass):
            # root, when a summary changed
            t0 = time.time()
            if not rootrun:
                sv = ip.begin()
                self.rootres = ip.run([self.mkroot()], 1)
                outs['root'] = (ip.findings, ip.obl, ip.recs, ip.ntc)
                ip.end(sv, False)
                rootrun = True
                self.log.append((mode + 'root', time.time() - t0))
            progress = False
            for n in self.nts:
                cs = [c for o in outs.values() for l in o[3].values() for c in l if c.nt is n]
                if not cs:
                    continue
                st = n.absorb(cs)
                if st and not dirty[n.idx]:
                    continue
                progress = True
                t0 = time.time()
                sv = ip.begin()
                n.run()
                outs[n.idx] = (ip.findings, ip.obl, ip.recs, ip.ntc)
                ip.end(sv, False)
                dirty[n.idx] = False
                self.log.append((mode + n.name, time.time() - t0, len(n.results)))
                if not n.check_summary():
                    # everything that uses the summary is analysed again
                    for m in self.nts:
                        if any(c.nt is n for l in outs.get(m.idx, (0, 0, 0, {}))[3].values() for c in l):
                            dirty[m.idx] = True
                    if any(c.nt is n for l in outs['root'][3].values() for c in l):
                        rootrun = False
            if not progress and rootrun:
                for f, o, r, c in outs.values():
                    ip.findings.update(f)
                    for k, v in o.items():
                        ip.obl[k] = ip.obl.get(k, True) and v
                    ip.recs.update(r)
                self.calls = [c for o in outs.values() for l in o[3].values() for c in l]
                return
        raise Unsupported('the summaries do not stabilise')
