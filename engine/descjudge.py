"""Descriptors (C25 - C28).

from_str runs on one symbolic string, in product with a monitor: a small automaton that is the grammar
of descriptors.  The monitor is a cell of the abstract state.  Whenever a character of the string is
read it takes the same character, so that at every loop header the invariants relate what the function
has built to what the grammar says.  At the exits the function has to agree with the monitor.
fmt runs on one symbolic descriptor, in product with a monitor of what has to be written next."""
import interp, loops, models, vals
from lin import *
from vals import *
from drive import *
from models import canon, contents

MON = ('g', 'mon')
LETTERS = dict(Z='Boolean', B='Byte', S='Short', I='Int', J='Long', F='Float', D='Double', C='Char')
AHEAD = 2
# short strings that are looked at one by one where the analysis of all strings cannot follow a decision
SHORT = dict(
    TypeDescriptor=['?' * n for n in range(6)] + ['?' * i + '#' + '?' * (n - i - 1) for n in range(3, 6) for i in range(1, n)]
    + ['[[[L??;', 'L?;?', 'L???;', '[L#?#;', 'L##;?'],
    MethodDescriptor=['?' * n for n in range(5)] + ['(??)?', '(???)V', '([?)?', '(?[?)?', '(L?;)?', '()L?;', '(L?;)L?;', '(L?;?)[L?;', '(L??;)V', '(?)?;?',
                                                   '(L#;)V', '(L#;?)L?;', '(L?;)L#;', '(L#?;)?', '()L#;?', '(L#?;', '#?', '(#', '()#', '(#)?'])
VAGUE = {'blen', 'u8len', 'bytes', 'capacity', 'vague'}


def mon(state, *f):
    return Agg(('mon',), state, f)


class DescSystem:
    def __init__(self, se):
        self.se = se
        self.prog = se.prog
        self.T = se.prog.types
        self.ty = {}
        for n in ('Type', 'TypeDescriptor', 'MethodDescriptor'):
            r = [it for it in se.items() if it['kind'] in ('Struct', 'Enum') and it['path'].split('::')[-1] == n and it.get('reachable')]
            if len(r) != 1:
                raise Undecided('no type %s' % n)
            t = [i for i, t in enumerate(self.T) if t['k'] == 'adt' and t['path'] == r[0]['path']]
            if len(t) != 1:
                raise Undecided('type %s is not used' % n)
            self.ty[n] = t[0]
        self.vars = [x['name'] for x in self.T[self.ty['Type']]['variants']]
        if sorted(self.vars) != sorted(list(LETTERS.values()) + ['Reference']):
            raise Undecided('the variants of Type: %s' % self.vars)
        rv = self.T[self.ty['Type']]['variants'][self.vars.index('Reference')]['fields']
        if len(rv) != 1:
            raise Undecided('Type::Reference')
        self.str_ty = rv[0]['ty']
        self.fi = {}
        for n, fs in (('TypeDescriptor', ('dimensions', 'base_type')), ('MethodDescriptor', ('params', 'return_type'))):
            names = [x['name'] for x in self.T[self.ty[n]]['variants'][0]['fields']]
            if sorted(names) != sorted(fs):
                raise Undecided('the fields of %s: %s' % (n, names))
            self.fi[n] = names
        md = dict((x['name'], x['ty']) for x in self.T[self.ty['MethodDescriptor']]['variants'][0]['fields'])
        self.params_ty, self.ret_ty = md['params'], md['return_type']
        self.runs = {}
        self.obl = 0

    def fn(self, trait, name, ty):
        r = [f for f in self.prog.fns if f is not None and f.local and f.body and f.decl.endswith('%s::%s' % (trait, name))
             and f.path.startswith('<%s as' % self.T[self.ty[ty]]['s'])]
        if len(r) != 1:
            raise Undecided('no %s::%s for %s' % (trait, name, ty))
        return r[0]

    # ---- values
    def td(self, dims, base):
        d = dict(dimensions=dims, base_type=base)
        return Agg(self.ty['TypeDescriptor'], None, tuple(d[n] for n in self.fi['TypeDescriptor']))

    def prim(self, letter):
        return Agg(self.ty['Type'], self.vars.index(LETTERS[letter]), ())

    def ref(self, name):
        return Agg(self.ty['Type'], self.vars.index('Reference'), (Lst(self.str_ty, name.segs),))

    def md(self, params, ret):
        d = dict(params=params, return_type=Agg(self.ret_ty, 0, ()) if ret is None else Agg(self.ret_ty, 1, (ret,)))
        return Agg(self.ty['MethodDescriptor'], None, tuple(d[n] for n in self.fi['MethodDescriptor']))


class Grammar:
    """the monitor of from_str"""

    def __init__(self, V, kind, window, cell):
        self.V = V
        self.kind = kind
        self.window = window
        self.cell = cell
        self.ahead = AHEAD
        self.reread = False

    def start(self):
        none = Lst(self.V.params_ty, ())
        if self.kind == 'TypeDescriptor':
            return mon('T.dims', ZERO, ZERO)
        return mon('start', ZERO, none)

    def fix(self, st, m):
        """numbers in normal form"""
        return Agg(m.ty, m.var, tuple(st.facts.norm(x) if x.__class__ is Lin else x for x in m.f))

    def step(self, ip, st, m, ch):
        """the state after one more character; forks"""
        V = self.V
        s = m.var
        if s.startswith('dead'):
            return m
        pos = m.f[0] + 1

        def is_(c):
            return decide(st, c_eq(ch - ord(c)))
        if s == 'end':
            return mon('dead')
        if s == 'start':
            if is_('('):
                return mon('P.dims', pos, ZERO, m.f[1])
            return mon('dead')
        who, what = s.split('.')
        if what == 'dims':
            dims = m.f[1]
            rest = m.f[2:]
            if is_('['):
                if decide(st, c_le(K(255) - dims)):
                    return mon('dead.dims')
                return mon(s, pos, dims + 1, *rest)
            if is_('L'):
                return mon(who + '.name', pos, dims, pos, Lst(V.str_ty, ()), *rest)
            if who == 'P' and is_(')'):
                if decide(st, c_le(dims)):
                    return mon('R.dims', pos, ZERO, *rest)
                return mon('dead')
            if who == 'R' and is_('V'):
                if decide(st, c_le(dims)):
                    return mon('end', pos, V.md(rest[0], None))
                return mon('dead')
            for c in LETTERS:
                if is_(c):
                    return self.have(ip, st, who, pos, V.td(dims, V.prim(c)), rest)
            return mon('dead')
        dims, nstart, name = m.f[1:4]
        rest = m.f[4:]
        n = st.facts.norm(pos - 1 - nstart)
        if is_(';'):
            if decide(st, c_le(n)):
                return mon('dead')
            if self.window:
                name = contents(ip, st, Sl(self.cell, (), nstart, n, True))
            return self.have(ip, st, who, pos, V.td(dims, V.ref(name)), rest)
        if not self.window:
            name = Lst(name.ty, name.segs + (('e', ch),))
        return mon(s, pos, dims, nstart, name, *rest)

    def have(self, ip, st, who, pos, td, rest):
        if who == 'T':
            return mon('end', pos, td)
        ps = rest[0]
        if who == 'R':
            return mon('end', pos, self.V.md(ps, td))
        if decide(st, c_le(K(255) - ps.length())):
            return mon('dead.params')
        return mon('P.dims', pos, ZERO, Lst(ps.ty, ps.segs + (('e', td),)))

    # ---- the function reads the character at off
    def read(self, ip, st, sl, off, ch):
        if sl.cell != self.cell or sl.proj:
            return
        m = st.cells.get(MON)
        if m is None or m.var.startswith('dead'):
            return
        for _ in range(self.ahead):
            d = st.facts.norm(off - m.f[0])
            if d.const:
                if d.c < 0:
                    if d.c < -1:
                        self.reread = True
                    return
            elif st.facts.le(d + 1):
                self.reread = True
                return
            if d.const and d.c == 0:
                st.cells[MON] = self.fix(st, self.step(ip, st, m, ch))
                return
            if not st.facts.le(-d):
                raise Unsupported('the string is not read from the front')
            m = self.fix(st, self.step(ip, st, m, ip.elem(st, ip.load(st, self.cell, ()), m.f[0])))
            if m.var.startswith('dead'):
                st.cells[MON] = m
                return
        raise Unsupported('the string is read far ahead')

    # ---- the verdict of the monitor at an exit
    def finish(self, ip, st, n):
        """[(state, monitor)]: the monitor takes what is left of the string; monitor None: too long to tell"""
        out = []

        def one(s):
            m = s.cells[MON]
            for _ in range(self.ahead):
                if m.var.startswith('dead'):
                    return m
                if decide(s, c_le(n - m.f[0])):
                    return m if m.var == 'end' else mon('dead')
                if m.var == 'end':
                    return mon('dead')
                m = self.fix(s, self.step(ip, s, m, ip.elem(s, ip.load(s, self.cell, ()), m.f[0])))
            return None
        return forked(st, one)

    # ---- the rest of the string is open: can it still be right, can it still be wrong
    REST = {
        'start': ['()V', '(L', ('(La', ';)V')],
        'P.dims': [')V', 'I)V', ('La', ';)V')],
        'P.name': [';)V', 'a;)V', ('a', ';)V')],
        'R.dims': ['V', 'I', ('La', ';')],
        'R.name': [';', 'a;', ('a', ';')],
        'T.dims': ['I', ('La', ';')],
        'T.name': [';', 'a;', ('a', ';')],
    }

    def feasible(self, ip, st, n, head, tail, gap):
        pos = st.cells[MON].f[0]
        s = st.copy()
        f = s.facts
        k = n - pos - len(head) - len(tail)
        base = ip.load(s, self.cell, ())
        if not gap:
            # as seen from the end of the string
            for i, c in enumerate(head):
                if not f.add_eq(ip.elem(s, base, n - len(tail) - len(head) + i) - ord(c)):
                    return False
        if not (f.add_le(-k) if gap else f.add_eq(k)):
            return False
        try:
            for o, t in ((pos, head), (n - len(tail), tail)):
                for i, c in enumerate(t):
                    if not s.facts.add_eq(ip.elem(s, base, o + i) - ord(c)):
                        return False
        except ForkOn:
            return False
        return not s.facts.bad

    def can_be_right(self, ip, st, n):
        m = st.cells[MON]
        for r in self.REST[m.var]:
            gap = r.__class__ is tuple
            head, tail = r if gap else (r, '')
            if not self.feasible(ip, st, n, head, tail, gap):
                continue
            # the monitor agrees on the part in front of the gap
            s = st.copy()
            base = ip.load(s, self.cell, ())
            f = s.facts
            k = n - m.f[0] - len(head) - len(tail)
            f.add_le(-k) if gap else f.add_eq(k)
            for i, c in enumerate(head):
                f.add_eq(ip.elem(s, base, m.f[0] + i) - ord(c))

            def walk(s):
                x = s.cells[MON]
                for i in range(len(head)):
                    x = self.step(ip, s, x, ip.elem(s, base, m.f[0] + i))
                return x
            try:
                for s2, x in forked(s, walk):
                    if x.var == 'end' or gap and x.var.endswith('.name'):
                        return True
            except Unsupported:
                continue
        return False

    def can_be_wrong(self, ip, st, n):
        return self.feasible(ip, st, n, '', '!', True)


class Run:
    """one run of from_str"""

    def __init__(self, V, kind, window, text=None):
        self.V = V
        self.kind = kind
        self.undecided = {}
        self.bad = {}
        self.loose = {}
        self.fits = 0
        self.oks = 0
        self.errs = 0
        fn = V.fn('FromStr', 'from_str', kind)
        fn.prep()
        ip = self.ip = interp.Interp(V.prog)
        arg = ip.opq(('arg', 0), fn.locals[1])
        if arg.__class__ is not Sl or arg.proj:
            raise Undecided('the argument of from_str')
        self.G = G = Grammar(V, kind, window, arg.cell)
        self.n = arg.len
        self.given = set(a for a, _ in arg.len.t)
        st = ip.new_state(fn, [arg])
        self.fn = fn
        ip.char_hook = lambda s, sl, off, ch: G.read(ip, s, sl, off, ch)
        ip.lclasses = True
        whole = ip.load(st, arg.cell, ()).segs
        if len(whole) == 1 and whole[0][0] in ('in', 's'):
            ip.wholes[whole[0][1]] = self.n
        st.cells[MON] = G.start()
        saved = (loops.THR, loops.UNROLL)
        loops.THR = tuple(sorted(set(loops.THR) | {256}))
        vals.VAGUE = VAGUE
        length = None
        if text is not None:
            # a short string: ? is any single byte, # any character of two bytes
            length = len(text)
            st.facts.add_eq(self.n - length)
            for i, x in enumerate(text):
                ch = ip.elem(st, ip.load(st, arg.cell, ()), K(i))
                if x == '?':
                    st.facts.add_le(ch - 127)
                elif x == '#':
                    st.facts.add_le(K(0x80) - ch)
                    st.facts.add_le(ch - 0x7FF)
                else:
                    st.facts.add_eq(ch - ord(x))
            G.ahead = length + 2
            loops.UNROLL = 1000
            ip.maxblocks = 300000
        try:
            self.exits = []
            res = ip.run([st], 1)
        except Undecided as e:
            self.undecided.setdefault(str(e), str(e))
            res = []
        finally:
            loops.THR, loops.UNROLL = saved
            vals.VAGUE = None
        self.recs = list(ip.recs.values())
        for f in ip.findings.values():
            if f.kind == 'unsupported' or f.taint:
                self.undecided.setdefault(f.msg, f.msg)
        for k, s in res:
            if s.taint:
                self.undecided.setdefault(str(s.taint), str(s.taint))
                continue
            r = s.cells.pop('ret')
            for s2, r2 in variants(ip, s, r):
                self.exits.append((s2, r2))
        for s, r in self.exits:
            self.exit(s, r)
        self.nexits = len(self.exits)
        if G.reread and length is None:
            # read more than once: what the first pass found out is not related to the second
            self.loose.update(self.bad)
            self.bad = {}

    def fns(self):
        return [self.V.prog.fns[i] for i in self.ip.stats['fns'] | {self.fn.id} if self.V.prog.fns[i].local]

    def clean(self):
        return not (self.bad or self.loose or self.undecided)

    def exit(self, st, r):
        if ('g', 'vague') not in st.cells and 'vague' not in st.facts.strs:
            return self.exit_(st, r)
        # found out in a way that is not followed exactly
        bad, self.bad = self.bad, {}
        self.exit_(st, r)
        self.loose.update(self.bad)
        self.bad = bad

    def exit_(self, st, r):
        V, ip, G = self.V, self.ip, self.G
        ok = [x['name'] for x in V.T[r.ty]['variants']][r.var] == 'Ok'
        for s, m in G.finish(ip, st, self.n):
            if m is None:
                if not ok and G.can_be_right(ip, s, self.n):
                    self.bad.setdefault(('rejected',), 'a valid descriptor is rejected')
                elif ok and G.can_be_wrong(ip, s, self.n):
                    self.bad.setdefault(('accepted', 'dead'), 'a string that is no descriptor is accepted')
                else:
                    self.loose.setdefault(('early', ok), 'the function decides before the string is read to its end')
                continue
            if m.var == 'end':
                if not ok:
                    self.bad.setdefault(('rejected',), 'a valid descriptor is rejected')
                    continue
                self.oks += 1
                self.same(s, r.f[0], m.f[1], '')
            else:
                if ok:
                    what = {'dead.dims': 'with more than 255 dimensions ', 'dead.params': 'with more than 255 parameters '}.get(m.var, '')
                    self.bad.setdefault(('accepted', m.var), 'a string %sthat is no descriptor is accepted' % what)
                    continue
                self.errs += 1
                for s2, e in variants(ip, s, r.f[0]):
                    self.error(s2, e, '')

    def error(self, s, e, where):
        V = self.V
        vs = V.T[e.ty]['variants']
        if vs[e.var]['name'] != 'InvalidDescriptor':
            self.bad.setdefault(('error', vs[e.var]['name']), 'a string that is no descriptor is rejected with %s' % vs[e.var]['name'])
            return
        names = [x['name'] for x in vs[e.var]['fields']]
        if 'desc' not in names:
            self.undecided.setdefault('desc', 'the fields of InvalidDescriptor')
            return
        d = e.f[names.index('desc')]
        want = contents(self.ip, s, Sl(self.G.cell, (), ZERO, self.n, True))
        if d.__class__ is Lst and canon(self.ip, s, d) == canon(self.ip, s, want):
            self.fits += 1
            return
        if d.__class__ is Lst and s.facts.nonzero(d.length() - self.n):
            self.bad.setdefault(('desc',), 'the error does not carry the string')
            return
        self.loose.setdefault(('desc',), 'the string in the error')

    def same(self, s, a, b, where):
        """the value of the function and that of the grammar"""
        ip, V = self.ip, self.V
        self.fits += 1
        f = s.facts

        def cmp(x, y, what):
            x = deref(ip, s, x)
            if x.__class__ is Opq:
                try:
                    x = ip.expand(x, ip.variant_of(s, x))
                except Exception:
                    self.loose.setdefault((what,), what)
                    return
            if y.__class__ is Agg:
                if x.__class__ is not Agg or x.ty != y.ty:
                    self.loose.setdefault((what,), what)
                    return
                if x.var != y.var:
                    self.bad.setdefault((what, 'kind'), 'the result has the wrong %s' % what)
                    return
                fn = [z['name'] for z in V.T[y.ty]['variants'][y.var or 0]['fields']]
                for i, n in enumerate(fn):
                    cmp(x.f[i], y.f[i], {'dimensions': 'number of dimensions', 'base_type': 'type', 'params': 'list of parameters',
                                         'return_type': 'return type'}.get(n, 'name' if y.ty == V.ty['Type'] else what))
                return
            if y.__class__ is Lin:
                if x.__class__ is Lin and f.eq(x - y):
                    return
                if x.__class__ is Lin and f.nonzero(x - y):
                    self.bad.setdefault((what, 'number'), 'the result has the wrong %s' % what)
                    return
                self.loose.setdefault((what,), what)
                return
            if y.__class__ is Lst:
                if x.__class__ is Lst and canon(ip, s, x) == canon(ip, s, y):
                    return
                if x.__class__ is Lst and f.nonzero(x.length() - y.length()):
                    self.bad.setdefault((what, 'length'), 'the result has the wrong %s' % what)
                    return
                n = f.norm(y.length())
                if x.__class__ is Lst and n.const and n.c <= 16:
                    for i in range(n.c):
                        cmp(ip.elem(s, x, K(i)), ip.elem(s, y, K(i)), what)
                    return
                if x.__class__ is Lst and len(x.segs) == len(y.segs):
                    # the same up to single elements
                    for p, q in zip(x.segs, y.segs):
                        if p[0] == 'e' and q[0] == 'e':
                            cmp(p[1], q[1], what)
                        elif canon(ip, s, Lst(None, (p,))) != canon(ip, s, Lst(None, (q,))):
                            self.loose.setdefault((what,), what)
                    return
                self.loose.setdefault((what,), what)
                return
            self.loose.setdefault((what,), what)
        cmp(a, b, 'value')


class Printer:
    """the monitor of fmt: what has to be written next"""

    def __init__(self, V, kind, ref):
        self.V = V
        self.kind = kind
        self.ref = ref

    def start(self):
        return mon('T.begin', ZERO) if self.kind == 'TypeDescriptor' else mon('open', ZERO)

    # ---- parts of the value that is printed
    def field(self, ip, st, v, n, name):
        i = self.V.fi[n].index(name)
        if v.__class__ is Opq:
            v = ip.expand(v)
        return v.f[i]

    def whole(self, ip, st):
        return deref(ip, st, self.ref)

    def item(self, ip, st, who, i):
        w = self.whole(ip, st)
        if who == 'T':
            return w
        if who == 'P':
            return deref(ip, st, ip.elem(st, self.field(ip, st, w, 'MethodDescriptor', 'params'), i))
        r = self.ret(ip, st)
        if r.__class__ is Opq:
            r = ip.expand(r, 1)
        return deref(ip, st, r.f[0])

    def ret(self, ip, st):
        return self.field(ip, st, self.whole(ip, st), 'MethodDescriptor', 'return_type')

    def nparams(self, ip, st):
        return st.facts.norm(self.field(ip, st, self.whole(ip, st), 'MethodDescriptor', 'params').length())

    def base(self, ip, st, who, i):
        """(variant, name list)"""
        b = self.field(ip, st, self.item(ip, st, who, i), 'TypeDescriptor', 'base_type')
        k = ip.variant_of(st, b)
        if self.V.vars[k] != 'Reference':
            return self.V.vars[k], None
        if b.__class__ is Opq:
            b = ip.expand(b, k)
        return 'Reference', b.f[0]

    # ---- one character or run is written
    def next_(self, who, i):
        return {'T': lambda: mon('done', ZERO), 'P': lambda: mon('P.begin', i + 1), 'R': lambda: mon('done', ZERO)}[who]()

    def enter(self, ip, st, m):
        """forces the choice of what comes next"""
        s = m.var
        if s.endswith('.begin'):
            who = s[0]
            if who == 'P' and decide(st, c_le(self.nparams(ip, st) - m.f[0])):
                return mon('close', ZERO)
            if who == 'R' and ip.variant_of(st, self.ret(ip, st)) == 0:
                return mon('void', ZERO)
            d = self.field(ip, st, self.item(ip, st, who, m.f[0]), 'TypeDescriptor', 'dimensions')
            m = mon(who + '.dims', m.f[0], d)
            s = m.var
        if s.endswith('.dims') and decide(st, c_le(m.f[1])):
            m = mon(s[0] + '.base', m.f[0])
        elif s.endswith('.name'):
            _, nm = self.base(ip, st, s[0], m.f[0])
            if decide(st, c_le(nm.length() - m.f[1])):
                m = mon(s[0] + '.semi', m.f[0])
        return m

    def wrong(self, what):
        return mon('wrong: ' + what)

    def char(self, ip, st, m, v):
        m = self.enter(ip, st, m)
        s = m.var

        def is_(c):
            return decide(st, c_eq(v - ord(c)))
        if s == 'open':
            return mon('P.begin', ZERO) if is_('(') else self.wrong('instead of (')
        if s == 'close':
            return mon('R.begin', ZERO) if is_(')') else self.wrong('after the parameters')
        if s == 'void':
            return mon('done', ZERO) if is_('V') else self.wrong('for no return type')
        if s == 'done':
            return self.wrong('after the end')
        who, what = s.split('.')
        i = m.f[0]
        if what == 'dims':
            return mon(s, i, m.f[1] - 1) if is_('[') else self.wrong('for a dimension')
        if what == 'semi':
            return self.next_(who, i) if is_(';') else self.wrong('after a name')
        k, nm = self.base(ip, st, who, i)
        if what == 'base':
            if k == 'Reference':
                return mon(who + '.name', i, ZERO) if is_('L') else self.wrong('before a name')
            c = [c for c in LETTERS if LETTERS[c] == k][0]
            return self.next_(who, i) if is_(c) else self.wrong('for type ' + k)
        e = ip.elem(st, nm, m.f[1])
        if decide(st, c_eq(e - v)):
            return mon(s, i, m.f[1] + 1)
        return self.wrong('in a name')

    def write(self, ip, st, segs):
        m = st.cells[MON]
        for g in segs:
            if m.var.startswith('wrong'):
                break
            k = g[0]
            if k == 't':
                for x in g[1]:
                    m = self.char(ip, st, m, K(x))
                    if m.var.startswith('wrong'):
                        break
                continue
            if k == 'e':
                m = self.char(ip, st, m, g[1])
                continue
            n = st.facts.norm(seglen(g))
            if decide(st, c_le(n)):
                continue
            m = self.enter(ip, st, m)
            if k == 's' and g[1].__class__ is tuple and g[1] and g[1][0] == 'rep':
                if m.var.endswith('.dims') and g[1][1] == ord('['):
                    if decide(st, c_le(n - m.f[1])):
                        m = mon(m.var, m.f[0], m.f[1] - n)
                    else:
                        m = self.wrong('for the dimensions')
                    continue
                if n.const and n.c <= 8:
                    for _ in range(n.c):
                        m = self.char(ip, st, m, K(g[1][1]))
                        if m.var.startswith('wrong'):
                            break
                    continue
                m = self.char(ip, st, m, K(g[1][1]))
                if m.var.startswith('wrong'):
                    continue
                raise Unsupported('what is printed cannot be followed')
            if k == 's' and m.var.endswith('.name'):
                _, nm = self.base(ip, st, m.var[0], m.f[0])
                rest = ip.sublist(st, nm, m.f[1], n)
                if canon(ip, st, rest) == canon(ip, st, Lst(None, (g,))):
                    m = mon(m.var, m.f[0], m.f[1] + n)
                    continue
            raise Unsupported('what is printed cannot be followed')
        st.cells[MON] = Agg(m.ty, m.var, tuple(st.facts.norm(x) for x in m.f))


class PrintRun:
    def __init__(self, V, kind):
        self.V = V
        self.kind = kind
        self.undecided = {}
        self.bad = {}
        self.loose = {}
        self.oks = self.errs = self.fits = 0
        fn = V.fn('Display', 'fmt', kind)
        fn.prep()
        ip = self.ip = interp.Interp(V.prog)
        a = ip.opq(('arg', 0), fn.locals[1])
        f = ip.opq(('arg', 1), fn.locals[2])
        st = ip.new_state(fn, [a, f])
        self.fn = fn
        self.P = P = Printer(V, kind, a)
        self.given = set()
        if kind == 'MethodDescriptor':
            self.given = set(x for x, _ in P.nparams(ip, st).t)
        ip.out_hook = lambda s, segs: P.write(ip, s, segs)
        ip.lclasses = True
        st.cells[MON] = P.start()
        res = ip.run([st], 1)
        self.recs = list(ip.recs.values())
        for x in ip.findings.values():
            if x.kind == 'unsupported' or x.taint:
                self.undecided.setdefault(x.msg, x.msg)
        self.nexits = len(res)
        for k, s in res:
            if s.taint:
                self.undecided.setdefault(str(s.taint), str(s.taint))
                continue
            r = s.cells.pop('ret')
            for s2, r2 in variants(ip, s, r):
                self.exit(s2, r2)

    def exit(self, st, r):
        V, ip = self.V, self.ip
        if [x['name'] for x in V.T[r.ty]['variants']][r.var] != 'Ok':
            if ('fmterr',) not in st.cells:
                self.bad.setdefault(('err',), 'printing fails though everything could be written')
            else:
                self.errs += 1
            return
        if ('fmterr',) in st.cells:
            return

        def end(s):
            m = s.cells[MON]
            for _ in range(2):
                m = self.P.enter(ip, s, m) if m.f and m.var != 'done' else m
            return m
        for s, m in forked(st, end):
            if m.var == 'done':
                self.oks += 1
                self.fits += 1
            elif m.var.startswith('wrong'):
                self.bad.setdefault((m.var,), 'the wrong text is printed ' + m.var[7:])
            else:
                self.bad.setdefault(('short', m.var), 'not everything is printed: ' + {
                    'close': 'the )', 'open': 'anything', 'void': 'the V'}.get(m.var, {'P': 'the parameters', 'R': 'the return type',
                                                                             'T': 'the type'}.get(m.var[0], m.var)) + ' is missing')

    def fns(self):
        return [self.V.prog.fns[i] for i in self.ip.stats['fns'] | {self.fn.id} if self.V.prog.fns[i].local]

    def clean(self):
        return not (self.bad or self.loose or self.undecided)


# ------------------------------------------------------------------ the properties
def parse_run(V, kind):
    """the run that says most, and what runs over short strings add"""
    key = ('parse', kind)
    if key not in V.runs:
        R = Run(V, kind, False)
        if not R.clean():
            W = Run(V, kind, True)
            if W.clean() or len(W.loose) + len(W.undecided) < len(R.loose) + len(R.undecided):
                R = W
        R.short = {}
        if R.loose or R.undecided:
            for text in SHORT[kind]:
                S = Run(V, kind, True, text)
                if S.undecided and '#' not in text:
                    break
                R.short.update(S.bad)
        V.runs[key] = R
    return V.runs[key]


def print_run(V, kind):
    key = ('print', kind)
    if key not in V.runs:
        V.runs[key] = PrintRun(V, kind)
    return V.runs[key]


def cover(V, v, runs):
    c = v.coverage
    c['functions'] = sorted(set(f.path for R in runs for f in R.fns()))
    c['exits'] = sum(R.nexits for R in runs)
    c['loops'] = sum(len(R.recs) for R in runs)
    c['blocks'] = sum(R.ip.stats['blocks'] for R in runs)


def result(V, v, R, what):
    for k, t in sorted(R.bad.items(), key=repr):
        v.bad((what,) + k, '%s: %s' % (R.fn.path, t))
    for k, t in sorted(getattr(R, 'short', {}).items(), key=repr):
        v.bad((what,) + k, '%s: %s' % (R.fn.path, t))
    for d in (R.loose, R.undecided):
        for k, t in sorted(d.items(), key=repr):
            v.unknown((what, k), '%s: %s' % (R.fn.path, t))
    v.ok(R.fits)
    if R.oks < 2 and not v.violations:
        v.unknown((what, 'floor'), '%s: hardly anything was analysed' % R.fn.path)
    v.sample('%s: %d ways to end, %d with a value that was compared, %d with an error' % (R.fn.path, R.nexits, R.oks, R.errs))
    for rec in R.recs[:3]:
        v.sample('%s: invariant at the loop in line %s: %d shapes' % (R.fn.path, rec.line, len(rec.parts)))


def c25(V, v, kind='TypeDescriptor'):
    R = parse_run(V, kind)
    result(V, v, R, kind)
    cover(V, v, [R])


def c26(V, v):
    c25(V, v, 'MethodDescriptor')


def c27(V, v):
    rs = [print_run(V, k) for k in ('TypeDescriptor', 'MethodDescriptor')]
    for R in rs:
        result(V, v, R, R.kind)
    cover(V, v, rs)


def c28(V, v):
    import judge_parse
    rs = [parse_run(V, k) for k in ('TypeDescriptor', 'MethodDescriptor')] + \
        [print_run(V, k) for k in ('TypeDescriptor', 'MethodDescriptor')]
    for R in rs:
        judge_parse.panics(R.ip, v)
        judge_parse.progress(R.ip, R.recs, v, R.given, 65535)
        v.ok(R.nexits)
    cover(V, v, rs)
