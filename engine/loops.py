"""Loop fixpoints.

A loop header is entered with a state; the leaves of its live, reachable cells are generalised until
one symbolic round of the body maps the generalised header into itself:

  int leaves:  unchanged -> base + c*k (k counts the rounds) -> base +- another changing leaf -> free
  lists:       unchanged -> grown at the end (symbolic prefix, recorded tails) -> free
  tags, bools and a few constants: the header is partitioned on them
  relations:   a - b <= c between leaves, and ranges, kept while every incoming state satisfies them

Nothing is assumed that the last round has not verified for every incoming state, so the result is
an inductive invariant.
"""
from lin import *
from vals import *

THR = (0, 1, 255, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)
NTHR = (-1, -32768, -(1 << 31), -(1 << 32), -(1 << 63))
KP = '#k'
MAXJOIN = 6
SAMPLE = 4


# ------------------------------------------------------------------ live cells
def live_cells(ip, st):
    """cells that matter from here on"""
    top = len(st.frames) - 1
    roots = []
    hidden = any(fr.cont is not None for fr in st.frames)
    byuid = {}
    for c in st.cells:
        if c[0].__class__ is int:
            byuid.setdefault(c[0], []).append(c)
        elif len(c) == 1 or c[0] == 'g':
            roots.append(c)
    if 'ret' in st.cells:
        roots.append('ret')
    for i, fr in enumerate(st.frames):
        if i == top:
            live = fr.fn.live_in[st.bb] if st.pc == 0 else None
        else:
            nx = st.frames[i + 1]
            live = None if nx.target is None else set(fr.fn.live_in[nx.target])
            if live is not None and nx.dest is not None and nx.dest[1] and nx.dest[0][0] == fr.uid:
                live.add(nx.dest[0][1])
            if nx.dest is not None and nx.dest[0][0] != fr.uid:
                roots.append(nx.dest[0])
            if nx.target is None:
                live = set()
        for c in byuid.get(fr.uid, ()):
            if live is None or hidden or c[1] in live:
                roots.append(c)
    if hidden:
        roots.extend(c for c in st.cells if c[0].__class__ is not int)
    seen = set()
    stack = roots
    while stack:
        c = stack.pop()
        if c in seen:
            continue
        v = st.cells.get(c)
        if v is None:
            continue
        seen.add(c)
        refs(v, stack)
    return seen


def refs(v, out):
    c = v.__class__
    if c is Ref or c is Sl:
        out.append(v.cell)
    elif c is Agg:
        for x in v.f:
            if x is not None:
                refs(x, out)
    elif c is Lst:
        for s in v.segs:
            if s[0] == 'e':
                refs(s[1], out)


def gc(ip, st):
    keep = live_cells(ip, st)
    for c in list(st.cells):
        if c not in keep:
            del st.cells[c]


# ------------------------------------------------------------------ leaves
class Leaves:
    __slots__ = ('ints', 'lsts', 'opqs', 'sig', 'discv', 'els')


class NeedFork(Exception):
    pass


def flatten(ip, st, disc=(), deep=False):
    """leaves of all cells of a state; open booleans are decided (ForkOn).
    deep: the single elements of lists are leaves of their own"""
    L = Leaves()
    L.ints = {}
    L.lsts = {}
    L.opqs = {}
    L.discv = {}
    L.els = {} if deep else None
    sig = []
    for cell in sorted(st.cells, key=ckey):
        v = st.cells[cell]
        if v.__class__ not in (Lin, bool, Cnd, Agg, Opq, Flt, Ref, Sl, Lst, Fnv, Havoc):
            # engine cell (hash, fmterr): identity matters
            sig.append((cell, repr(v)))
            continue
        sig.append(cell)
        walk(ip, st, cell, v, (), L, sig, disc)
    L.sig = tuple(sig)
    return L


_ck = {}


def ckey(c):
    r = _ck.get(c)
    if r is None:
        r = _ck[c] = repr(c)
    return r


def walk(ip, st, cell, v, path, L, sig, disc):
    c = v.__class__
    if c is Lin:
        p = (cell, path)
        v = st.facts.norm(v)
        if p in disc:
            if v.t:
                raise NeedFork()
            sig.append(v.c)
            L.discv[p] = v.c
        else:
            sig.append('i')
            L.ints[p] = v
    elif c is bool:
        sig.append(v)
    elif c is Cnd:
        sig.append(decide(st, v))
    elif c is Agg:
        sig.append((v.ty, v.var, len(v.f)))
        for i, x in enumerate(v.f):
            if x is None:
                sig.append(None)
            else:
                walk(ip, st, cell, x, path + (i,), L, sig, disc)
    elif c is Opq:
        sig.append(('o', v.ty))
        L.opqs[(cell, path)] = v
    elif c is Flt:
        sig.append('f')
        L.ints[(cell, path + ('b',))] = st.facts.norm(v.bits)
    elif c is Ref:
        sig.append(('r', v.cell))
        walkproj(st, cell, v.proj, path, L, sig)
    elif c is Sl:
        sig.append(('s', v.cell, v.str_))
        walkproj(st, cell, v.proj, path, L, sig)
        L.ints[(cell, path + ('off',))] = st.facts.norm(v.off)
        L.ints[(cell, path + ('len',))] = st.facts.norm(v.len)
    elif c is Lst:
        sig.append('L')
        if L.els is not None:
            walklist(ip, st, cell, v, path, L, sig)
        else:
            L.lsts[(cell, path)] = v
    elif c is Fnv:
        sig.append(('fn', v.path))
    elif c is Havoc:
        sig.append('hv')
    else:
        raise Unsupported('leaf %r' % (v,))


def walklist(ip, st, cell, l, path, L, sig):
    el = ip.elty(l) if l.ty.__class__ is int else None
    sig.append(len(l.segs))
    for i, s in enumerate(l.segs):
        k = s[0]
        if k == 's':
            sig.append(('s', s[1]))
            L.ints[(cell, path + ('#s', i))] = st.facts.norm(s[2])
        elif k == 'in':
            sig.append(('in', s[1]))
            L.ints[(cell, path + ('#s', i))] = st.facts.norm(s[2])
            L.ints[(cell, path + ('#s2', i))] = st.facts.norm(s[3])
        elif k == 't':
            sig.append(s)
        else:
            v = s[1]
            if v.__class__ is Agg and v.ty == ('pair',):
                sig.append('pair')
                for j in (0, 1):
                    L.els[(cell, path + ('#e', i, j))] = (v.f[j], el[j] if el.__class__ is tuple else None)
            else:
                sig.append('e')
                L.els[(cell, path + ('#e', i))] = (v, el)


def walkproj(st, cell, proj, path, L, sig):
    for j, e in enumerate(proj):
        if e.__class__ is tuple and e[0] in ('ix', 'sl'):
            sig.append(e[0])
            for m in range(1, len(e)):
                L.ints[(cell, path + ('p', j, m))] = st.facts.norm(e[m])
        else:
            sig.append(e)


def rebuild(ip, cell, v, path, R):
    """v with its leaves replaced: R.ints/lsts/opqs map leaf paths to values"""
    c = v.__class__
    if c is Lin:
        return R.ints.get((cell, path), v)
    if c is Agg:
        f = tuple(None if x is None else rebuild(ip, cell, x, path + (i,), R) for i, x in enumerate(v.f))
        for a, b in zip(f, v.f):
            if a is not b:
                return Agg(v.ty, v.var, f)
        return v
    if c is Opq:
        return R.opqs.get((cell, path), v)
    if c is Flt:
        return Flt(R.ints.get((cell, path + ('b',)), v.bits), v.ty)
    if c is Ref:
        return Ref(v.cell, reproj(cell, v.proj, path, R))
    if c is Sl:
        return Sl(v.cell, reproj(cell, v.proj, path, R), R.ints.get((cell, path + ('off',)), v.off),
                  R.ints.get((cell, path + ('len',)), v.len), v.str_)
    if c is Lst:
        if getattr(R, 'els', None):
            segs = []
            for i, s in enumerate(v.segs):
                k = s[0]
                if k == 's':
                    segs.append(('s', s[1], R.ints.get((cell, path + ('#s', i)), s[2]), s[3]))
                elif k == 'in':
                    segs.append(('in', s[1], R.ints.get((cell, path + ('#s', i)), s[2]),
                                 R.ints.get((cell, path + ('#s2', i)), s[3])))
                elif k == 'e' and s[1].__class__ is Agg and s[1].ty == ('pair',):
                    segs.append(('e', Agg(('pair',), None, tuple(
                        R.els.get((cell, path + ('#e', i, j)), s[1].f[j]) for j in (0, 1)))))
                elif k == 'e':
                    segs.append(('e', R.els.get((cell, path + ('#e', i)), s[1])))
                else:
                    segs.append(s)
            return Lst(v.ty, tuple(segs), v.tag)
        return R.lsts.get((cell, path), v)
    return v


def reproj(cell, proj, path, R):
    out = []
    for j, e in enumerate(proj):
        if e.__class__ is tuple and e[0] in ('ix', 'sl'):
            out.append((e[0],) + tuple(R.ints.get((cell, path + ('p', j, m)), e[m]) for m in range(1, len(e))))
        else:
            out.append(e)
    return tuple(out)


def lst_canon(ip, st, l):
    from models import canon
    return canon(ip, st, l)


# ------------------------------------------------------------------ generalisation of a set of states
class Part:
    """one discrete shape of the header and the current guess of its leaves"""

    def __init__(self, gen, sig, st, L):
        self.gen = gen
        self.sig = sig
        self.skel = st
        self.L = L
        self.forms = {}
        self.rel = {}
        self.rng = {}
        self.mono = {}
        self.incoming = []
        self.head = None
        self.vals = None
        self.idx = 0
        self.gone = False
        self.lcls = {}       # list path -> list path with the same contents in every incoming state


class Src:
    """an incoming state with its leaves; src: the partition it came from (None: from outside)"""
    __slots__ = ('st', 'L', 'src', 'k')


class Gen:
    """guess for the generalised state(s) of a loop header, a join, or a procedure entry"""

    def __init__(self, ip, name, facts, usek):
        self.ip = ip
        self.name = name
        self.facts = facts
        self.usek = usek
        self.usemono = usek
        self.parts = {}
        self.order = []
        self.same = {}       # list path -> the character every round appends to it
        self.lkind = {}      # list path -> ('c',) | ('g', base) | ('f',)
        self.okind = {}      # opaque path -> ('c',) | ('f',)
        self.disc = set()
        self.nodisc = set()
        self.hint = {}
        self.norel = set()
        self.entryL = None
        self.changed = False
        self.listsyms = {}
        self.deep = False
        self.ekind = {}
        self.entryI = {}
        self.why = []
        self.relhint = None
        self.monohint = {}
        self.oldrels = ()
        self.cnthint = set()     # pairs whose relation is worth a try

    def key(self, p):
        return self.name + (p,)

    # ---- values a form stands for
    def rep_atom(self, p):
        if p == KP:
            return sym(self.key(KP), 0, (1 << 63) - 1)
        return sym(self.key(p), None, None)

    def value(self, P, p):
        f = P.forms[p]
        if f[0] == 'c':
            return f[1]
        if f[0] == 'f':
            return A(self.rep_atom(p))
        return f[1] + A(self.rep_atom(f[3])).scale(f[2])

    def lst_sym(self, p):
        s = self.key(('lst', p))
        self.listsyms[s] = p
        return s

    def npath(self, p):
        return (p[0], p[1] + ('#n',))

    def lst_value(self, P, p):
        k = self.lkind.get(p, ('c',))
        base = P.L.lsts[p]
        r = P.lcls.get(p, p)
        if r != p:
            l = self.lst_value(P, r)
            return Lst(base.ty, l.segs, base.tag)
        if k[0] == 'c':
            return base
        ip = self.ip
        el = ip.elty(base) if base.ty.__class__ is int else None
        n = self.value(P, self.npath(p))
        if k[0] == 'g':
            c = self.same.get(p)
            l = k[1] + (('s', ('rep', c) if c is not None else self.lst_sym(p), n, el),)
            return Lst(base.ty, l + (('s', k[2][0], k[2][1] - n, k[2][2]),) if len(k) > 2 else l, base.tag)
        return Lst(base.ty, (('s', self.lst_sym(p), n, el),))

    # ---- leaf values of an incoming state, including the pseudo leaves
    def ints_of(self, S):
        """int leaves of an incoming state, with the lengths of grown and free lists"""
        out = dict(S.L.ints)
        if self.usek:
            out[KP] = S.k
        f = S.st.facts
        for p, k in self.lkind.items():
            if k[0] == 'c' or p not in S.L.lsts:
                continue
            l = S.L.lsts[p]
            if k[0] == 'g':
                t = self.tail(S, p)
                if t is None:
                    self.lkind[p] = ('f',)
                    self.changed = True
                    out[self.npath(p)] = f.norm(l.length())
                else:
                    out[self.npath(p)] = f.norm(t[0])
            else:
                out[self.npath(p)] = f.norm(l.length())
        return out

    def tail(self, S, p):
        """(length of the grown part, new segments) of list p, or None if it did not just grow"""
        from models import canon
        l = S.L.lsts[p]
        k = self.lkind[p]
        st = S.st
        ip = self.ip
        base = k[1]
        if S.src is None:
            head = base
            n0 = ZERO
        else:
            hv = S.src.lvals.get(p) if S.src.lvals is not None else None
            if hv is None:
                return None
            head = hv.segs
            n0 = self.value(S.src, self.npath(p)) if self.npath(p) in S.src.forms else ZERO
        if len(k) > 2 and S.src is not None:
            head = head[:-1]
        if len(l.segs) < len(head):
            return None
        if canon(ip, st, Lst(None, tuple(head))) != canon(ip, st, Lst(None, l.segs[:len(head)])):
            return None
        tail = l.segs[len(head):]
        left = ZERO
        if len(k) > 2 and tail and tail[-1][0] == 's' and tail[-1][1] == k[2][0]:
            left = tail[-1][2]
            tail = tail[:-1]
        n = n0
        for s in tail:
            n = n + seglen(s)
        if len(k) > 2 and not st.facts.eq(n + left - k[2][1]):
            return None
        return st.facts.norm(n), tail

    # ---- one incoming state
    def add(self, st, src=None, k=None):
        """files the state under its partition; may fork on open booleans"""
        todo = [st]
        while todo:
            s = todo.pop()
            try:
                L = flatten(self.ip, s, self.disc, self.deep)
            except ForkOn as e:
                for g in e.facts:
                    todo.append(s.copy(g))
                continue
            except NeedFork:
                self.demote_disc(s)
                todo.append(s)
                continue
            S = Src()
            S.st = s
            S.L = L
            if src is not None:
                import copy
                S.L = copy.copy(L)
                S.L.lsts = dict(L.lsts)
                S.L.opqs = dict(L.opqs)
            S.src = src
            S.k = s.facts.norm(k) if k is not None else None
            P = self.parts.get(L.sig)
            if P is None:
                if len(self.parts) >= 24:
                    raise Unsupported('too many shapes of a loop header')
                P = Part(self, L.sig, s, L)
                P.idx = len(self.order)
                self.parts[L.sig] = P
                self.order.append(P)
                self.changed = True
                for p in self.disc:
                    if len(set(Q.L.discv.get(p) for Q in self.order)) > 4:
                        self.disc.discard(p)
                        self.nodisc.add(p)
                        raise Restart()
                if src is not None and self.entryL is not None:
                    # lists and opaque values: as on entry, or unknown
                    for p in L.lsts:
                        if p in self.entryL.lsts:
                            L.lsts[p] = self.entryL.lsts[p]
                        elif self.lkind.get(p, ('c',))[0] == 'c' and any(x[0] != 't' for x in L.lsts[p].segs):
                            self.lkind[p] = ('f',)
                    for p in L.opqs:
                        if p in self.entryL.opqs:
                            L.opqs[p] = self.entryL.opqs[p]
                        else:
                            self.okind[p] = ('f',)
            P.incoming.append(S)

    def demote_disc(self, s):
        """a leaf taken as discrete is not constant: no longer discrete"""
        for p in list(self.disc):
            v = s.cells.get(p[0])
            ok = True
            try:
                for e in p[1]:
                    v = v.f[e]
                if v.__class__ is Lin and s.facts.norm(v).t:
                    ok = False
            except Exception:
                pass
            if not ok:
                self.disc.discard(p)
                self.nodisc.add(p)
        raise Restart()

    # ---- initial guess for a new partition
    def init_forms(self, P):
        S = P.incoming[0]
        ints = self.ints_of(S)
        f = S.st.facts
        if self.entryL is None and S.src is None:
            self.entryL = S.L
            if not self.entryI:
                self.entryI = dict(ints)
        # the atoms of an outer loop are older than those of the loops inside it: equations are
        # solved for the newest one
        for p in ints:
            self.rep_atom(p)
        for p, v in ints.items():
            if p in P.forms:
                continue
            self.init_form(P, p, v, S, ints)

    def init_form(self, P, p, v, S, ints):
        if p == KP:
            P.forms[p] = ('f',)
            if not self.ip.lclasses:
                P.rng[p] = (0, (1 << 63) - 1)
            return
        if S.src is None:
            h = self.hint.get((P.idx, p))
            if h is not None:
                if h[0] == 'f':
                    self.set_free(P, p, [ints])
                    return
                if h[0] == 'a' and (h[3] == KP or h[3] in ints):
                    r = ints[h[3]]
                    P.forms[p] = ('a', v - r.scale(h[2]), h[2], h[3])
                    return
            P.forms[p] = ('c', v)
            return
        # reached from inside the loop: keep only what is clearly invariant
        e = self.entryI.get(p)
        d = S.st.facts.norm(v - e) if e is not None and v.t else None
        if not v.t:
            P.forms[p] = ('c', v)
        elif d is not None and not d.t:
            P.forms[p] = ('c', e + d.c)
        elif self.usek and self.in_step(p, S, ints) is not None:
            P.forms[p] = self.in_step(p, S, ints)
        else:
            if self.ip.lclasses:
                # one of the leaves that are free already, up to sign and a term of the entry
                for r, rf in P.forms.items():
                    if rf[0] == 'f' and r != p and r != KP and r in ints:
                        for c in (1, -1):
                            b = S.st.facts.norm(v - ints[r].scale(c))
                            if self.usable(P, b, S):
                                P.forms[p] = ('a', b, c, r)
                                return
            self.set_free(P, p, None)

    def in_step(self, p, S, v):
        """in step with the rounds, as in the partition the state comes from"""
        g = S.src.forms.get(p) if S.src is not None else None
        if g is None or g[0] != 'a' or g[3] != KP:
            return None
        d = S.st.facts.norm(v[p] - g[1] - v[KP].scale(g[2]))
        return None if d.t else ('a', g[1] + d.c, g[2], KP)

    def set_free(self, P, p, vals):
        P.forms[p] = ('f',)
        P.rng.pop(p, None)

    # ---- check all partitions against their incoming states; returns True when stable
    def check(self):
        self.changed = False
        self.why = []
        ip = self.ip
        for P in self.order:
            if not P.incoming:
                continue
            if not P.forms:
                self.init_forms(P)
                self.changed = True
        # lists and opaque leaves
        for P in self.order:
            if ip.lclasses and P.incoming:
                self.classes(P)
            for S in P.incoming:
                if self.deep:
                    for p, (v, _) in S.L.els.items():
                        if p not in self.ekind:
                            from models import canon
                            if canon(ip, S.st, v) != canon(ip, S.st, P.L.els[p][0]):
                                self.ekind[p] = 'f'
                                self.changed = True
                for p, l in S.L.lsts.items():
                    self.check_list(P, S, p, l)
                for p, v in S.L.opqs.items():
                    if self.okind.get(p, ('c',))[0] == 'c':
                        b = P.L.opqs[p]
                        if b.sym != v.sym:
                            self.okind[p] = ('f',)
                            self.changed = True
        for P in self.order:
            if not P.incoming:
                continue
            vals = [(S, self.ints_of(S)) for S in P.incoming]
            for p in list(vals[0][1]):
                if p not in P.forms:
                    S, v = vals[0]
                    self.init_form(P, p, v[p], S, v)
                    self.changed = True
            for p in list(P.forms):
                self.check_form(P, p, vals)
            self.check_ranges(P, vals)
            self.check_rels(P, vals)
        return not self.changed

    def prune(self):
        """shapes that only an earlier guess could reach"""
        live = set()
        todo = [P for P in self.order if any(S.src is None for S in P.incoming)]
        while todo:
            Q = todo.pop()
            if Q.idx not in live:
                live.add(Q.idx)
                todo += [P for P in self.order if any(S.src is Q for S in P.incoming)]
        some = False
        for P in self.order:
            gone = P.idx not in live
            if gone:
                P.incoming = []
                P.head = None
            if gone != P.gone:
                P.gone = gone
                some = True
        return some

    def classes(self, P):
        """lists that agree in every incoming state stay equal"""
        old = P.lcls or dict((p, None) for p in P.L.lsts)
        for S in P.incoming:
            groups = {}
            for p, l in S.L.lsts.items():
                if p in old:
                    el = self.ip.elty(l) if l.ty.__class__ is int else None
                    groups.setdefault((old[p], el, lst_canon(self.ip, S.st, l)), []).append(p)
            new = {}
            for g in groups.values():
                r = min(g, key=ckey)
                for p in g:
                    new[p] = r
            old = new
        if old != P.lcls:
            P.lcls = old
            self.changed = True

    def check_list(self, P, S, p, l):
        k = self.lkind.get(p, ('c',))
        if k[0] == 'f':
            return
        if k[0] == 'c':
            base = P.L.lsts[p]
            if l is base:
                return
            if lst_canon(self.ip, S.st, l) == lst_canon(self.ip, S.st, base):
                if l.tag == base.tag:
                    return
            self.changed = True
            e = self.entryL.lsts.get(p) if self.entryL is not None else None
            if e is not None and self.usek:
                self.same.pop(p, None)
                self.lkind[p] = filled(e.segs)
                if len(self.lkind[p]) > 2 and self.tail(S, p) is None:
                    self.lkind[p] = ('g', e.segs)
                if self.ip.lclasses:
                    t = self.tail(S, p)
                    c = uniform(t[1]) if t is not None else None
                    if c is not None:
                        self.same[p] = c
            else:
                self.lkind[p] = ('f',)
            for Q in self.order:
                Q.forms.pop(self.npath(p), None)
        else:
            t = self.tail(S, p)
            if t is None:
                self.lkind[p] = ('f',)
                for Q in self.order:
                    Q.forms.pop(self.npath(p), None)
                self.changed = True
            elif p in self.same and t[1] and uniform(t[1]) != self.same[p]:
                del self.same[p]
                self.changed = True

    def holds(self, S, ints, p, form):
        f = S.st.facts
        v = ints[p]
        if form[0] == 'c':
            return f.eq(v - form[1])
        if form[0] == 'a':
            r = ints.get(form[3])
            return r is not None and f.eq(v - form[1] - r.scale(form[2]))
        return True

    def check_form(self, P, p, vals):
        form = P.forms[p]
        if form[0] == 'f':
            return
        if all(p in v and self.holds(S, v, p, form) for S, v in vals):
            return
        self.changed = True
        self.why.append(('form', P.idx, p, form))
        if form[0] == 'c':
            # a discrete constant?
            cs = set()
            for S, v in vals:
                x = v[p]
                cs.add(x.c if not x.t else None)
            # rounds
            if self.usek and P.idx == 0:
                ds = set()
                for S, v in vals:
                    if S.src is P:
                        d = S.st.facts.norm(v[p] - self.value(P, p))
                        ds.add(d.c if not d.t else None)
                if len(ds) == 1 and None not in ds and 0 not in ds:
                    c = ds.pop()
                    nf = ('a', form[1], c, KP)
                    if all(S.src is P or self.holds(S, v, p, nf) for S, v in vals):
                        P.forms[p] = nf
                        return
            if self.usek and P.idx > 0:
                for S, v in vals:
                    nf = self.in_step(p, S, v)
                    if nf is not None and all(self.holds(S2, v2, p, nf) for S2, v2 in vals):
                        P.forms[p] = nf
                        return
            if self.usek and None not in cs and len(cs) <= 4 and p not in self.nodisc and p[1][-1:] != ('#n',) \
                    and not any(e.__class__ is not int for e in p[1]):
                if p not in self.disc:
                    self.disc.add(p)
                    raise Restart()
        # same as another changing leaf
        S0, v0 = vals[0]
        if self.ip.lclasses:
            S0, v0 = next(((S, v) for S, v in vals if S.src is not P), vals[0])
        for r, rf in P.forms.items():
            if rf[0] != 'f' or r == p or r == KP or r not in v0:
                continue
            for c in (1, -1):
                b = S0.st.facts.norm(v0[p] - v0[r].scale(c))
                if not self.usable(P, b, S0):
                    continue
                nf = ('a', b, c, r)
                if all(r in v and (self.holds(S, v, p, nf) or self.in_pace(P, S, v, p, r, c)) for S, v in vals):
                    P.forms[p] = nf
                    return
        self.set_free(P, p, None)
        P.rel_new = True

    def in_pace(self, P, S, v, p, r, c):
        """p and r changed alike in a round that started from another guess"""
        if not self.ip.lclasses or S.src is not P or P.vals is None or p not in P.vals or r not in P.vals:
            return False
        return S.st.facts.eq(v[p] - P.vals[p] - (v[r] - P.vals[r]).scale(c))

    def usable(self, P, b, S0):
        if not b.t:
            return True
        if S0.src is None and P.idx == 0:
            return True
        # only with the terms of the entry partition
        for Q in self.order[:1]:
            for f in Q.forms.values():
                if f[0] == 'a' and f[1] == b:
                    return True
            if self.ip.lclasses:
                known = set(a for f in Q.forms.values() if len(f) > 1 for a, _ in f[1].t)
                return all(a in known for a, _ in b.t)
        return False

    def check_ranges(self, P, vals):
        for p, form in P.forms.items():
            if form[0] != 'f' or p == KP and not self.ip.lclasses:
                continue
            lo, hi = P.rng.get(p, ('new', None))
            first = lo == 'new'
            if first:
                lo = hi = None
            nlo, nhi = lo, hi
            for i, (S, v) in enumerate(vals):
                a, b = S.st.facts.bounds(S.st.facts.norm(v[p]))
                if first and i == 0:
                    nlo, nhi = a, b
                    if b is None or b > 65535:
                        nhi = proven_thr(S.st.facts, v[p], a, b)
                    if a is not None and a > 0 and P.forms.get(KP) is not None:
                        nlo = floor_thr(a)
                    continue
                if nlo is not None and (a is None or a < nlo):
                    if a is None or not S.st.facts.le(K(nlo) - v[p]):
                        nlo = floor_thr(a)
                if nhi is not None and (b is None or b > nhi):
                    if b is None or not S.st.facts.le(v[p] - nhi):
                        nhi = proven_thr(S.st.facts, v[p], nhi, b)
                        if (nhi is None or nhi > COUNT_MAX) and self.slow(p, vals):
                            nhi = COUNT_MAX
            e = self.entryI.get(p)
            if self.usemono and e is not None:
                # monotone?
                m = P.mono.get(p)
                if m is None:
                    m = self.monohint.get((P.idx, p), (1, -1))
                keep = m
                for S, v in vals:
                    if keep:
                        keep = tuple(sg for sg in keep if S.st.facts.le((e - v[p]).scale(sg)))
                if keep != m or p not in P.mono:
                    if keep != m:
                        self.changed = True
                        self.why.append(('mono', P.idx, p, keep))
                    P.mono[p] = keep
            if first or (nlo, nhi) != (lo, hi):
                P.rng[p] = (nlo, nhi)
                self.changed = True
                self.why.append(('rng', P.idx, p, lo, hi, nlo, nhi))

    def slow(self, p, vals):
        """a wide counter which grows by little in each round: no execution has 2^46 rounds"""
        for S, v in vals:
            f = S.st.facts
            if S.src is None:
                b = f.bounds(f.norm(v[p]))[1]
                if b is None or b > 1 << 32:
                    return False
            elif p not in S.src.forms or not f.le(v[p] - self.value(S.src, p) - 65536):
                return False
        return True

    def telling(self, vals, a, b, c):
        """a - b <= c says more than the bounds of a and b do in some incoming state"""
        for S, v in vals:
            if S.src is None and len(vals) > 1 and self.usek:
                continue
            h = S.st.facts.bounds(S.st.facts.norm(v[a]))[1]
            if h is None:
                return True
            l = self.facts.bounds(self.facts.norm(v[b]))[0]
            if l is None or h - l > c:
                return True
        return False

    def counters(self, P, vals):
        """a counts the rounds up to b, and the loop tests whether they are equal: a <= b is worth a try"""
        fr = self.name[1]
        own = [p for p in P.forms if p == KP or p[0][0] == fr]
        S0, v0 = vals[0]
        f0 = S0.st.facts
        for a in own:
            fa = P.forms[a]
            for b in own:
                if b == KP or (a, b) in P.rel or (P.idx, a, b) in self.norel or a not in v0 or b not in v0:
                    continue
                fb = P.forms[b]
                if fb[0] == 'c' and fb[1].t and (a == KP or fa[0] == 'a' and fa[2] == 1) \
                        or fa[0] == 'c' and fa[1].t and fb[0] == 'a' and fb[2] == -1:
                    l = self.value(P, a) - self.value(P, b)
                    if l in self.cnthint:
                        continue
                    for S, v in vals:
                        if S.src is P and S.st.facts.nonzero(S.st.facts.norm(l)) and not S.st.facts.le(l):
                            self.cnthint.add(l)
                            h = upper(f0, f0.norm(v0[a] - v0[b]))
                            if h is not None and h <= 0:
                                P.rel[(a, b)] = 0
                                self.changed = True
                                self.why.append(('cntrel', P.idx, a, b))
                            break

    # ---- relations between leaves
    def rel_sites(self, P):
        reps = [p for p, f in P.forms.items() if f[0] == 'f']
        return reps

    def check_rels(self, P, vals):
        # candidates are created once per new free leaf
        done = P.__dict__.setdefault('reldone', set())
        reps = [p for p, f in P.forms.items() if f[0] != 'c']
        S0, v0 = vals[0]
        f0 = S0.st.facts
        new = [p for p in reps if p not in done]
        dups = set()
        if new:
            paths = [p for p, f in P.forms.items() if p in v0]
            for p in new:
                done.add(p)
                for q in paths:
                    if q == p:
                        continue
                    fq = P.forms[q]
                    if fq[0] == 'c' and not fq[1].t:
                        continue
                    for a, b in ((p, q), (q, p)):
                        if (a, b) in P.rel or (P.idx, a, b) in self.norel:
                            continue
                        if self.relhint is not None and (P.idx, a, b) not in self.relhint:
                            continue
                        dk = self.value(P, a) - self.value(P, b)
                        if dk in dups or not dk.t:
                            continue
                        dups.add(dk)
                        l = f0.norm(v0[a] - v0[b])
                        hi = upper(f0, l)
                        for S, v in vals[1:]:
                            if hi is None or hi > 1:
                                break
                            if a not in v or b not in v:
                                hi = None
                                break
                            l = S.st.facts.norm(v[a] - v[b])
                            if not S.st.facts.le(l - hi):
                                h = upper(S.st.facts, l)
                                hi = None if h is None else max(hi, h)
                        if hi is not None and -8 <= hi <= 1 and ((P.idx, a, b) in self.oldrels or self.telling(vals, a, b, hi)):
                            P.rel[(a, b)] = hi
                            self.changed = True
                            self.why.append(('newrel', P.idx, a, b, hi))
        for (a, b), c in list(P.rel.items()):
            nc = c
            for S, v in vals:
                if a not in v or b not in v:
                    nc = None
                    break
                l = S.st.facts.norm(v[a] - v[b])
                if S.st.facts.le(l - nc):
                    continue
                h = upper(S.st.facts, l)
                if h is None or h > 8:
                    nc = None
                    break
                nc = max(nc, h)
                if nc > c and nc not in (0, 1):
                    # widen
                    nc = 0 if nc <= 0 else (1 if nc <= 1 else None)
                    if nc is None:
                        break
            if nc != c:
                self.changed = True
                self.why.append(('rel', P.idx, a, b, c, nc))
                if nc is None or not self.telling(vals, a, b, nc) \
                        or P.__dict__.setdefault('relw', {}).get((a, b), 0) > 0:
                    del P.rel[(a, b)]
                    self.norel.add((P.idx, a, b))
                else:
                    P.rel[(a, b)] = nc
                    P.relw[(a, b)] = P.relw.get((a, b), 0) + 1
        if self.usek and S0.src is None:
            self.counters(P, vals)

    # ---- the generalised state of a partition
    def build(self, P, frames, bb, trace, taint):
        from interp import State
        ip = self.ip
        if not P.forms:
            self.init_forms(P)
        R = Leaves()
        R.ints = {}
        R.lsts = {}
        R.opqs = {}
        R.els = None
        if self.deep:
            R.els = {}
            for p, (v, ty) in P.L.els.items():
                if self.ekind.get(p) == 'f':
                    R.els[p] = ip.opq(self.key(('e', p)), ty) if ty.__class__ is int else A(sym(self.key(('e', p)), 0, 0x10FFFF))
                else:
                    R.els[p] = v
        for p in P.forms:
            if p != KP and p[1][-1:] != ('#n',):
                R.ints[p] = self.value(P, p)
        for p in P.L.lsts:
            if self.lkind.get(p, ('c',))[0] != 'c' and self.npath(p) not in P.forms:
                # length leaf not seen yet
                S = P.incoming[0] if P.incoming else None
                P.forms[self.npath(p)] = ('c', ZERO) if self.lkind[p][0] == 'g' and S is not None and S.src is None else ('f',)
                self.changed = True
            R.lsts[p] = self.lst_value(P, p)
        for p, v in P.L.opqs.items():
            if self.okind.get(p, ('c',))[0] != 'c':
                R.opqs[p] = Opq(self.key(('o', P.idx, p)), v.ty)
        s = State.__new__(State)
        s.frames = frames
        s.bb = bb
        s.pc = 0
        s.trace = trace
        s.taint = taint
        s.lines = None
        s.cells = {}
        for cell, v in P.skel.cells.items():
            if v.__class__ in (Lin, bool, Cnd, Agg, Opq, Flt, Ref, Sl, Lst, Fnv, Havoc):
                if v.__class__ is Cnd:
                    v = decide(P.skel, v)
                elif v.__class__ is Agg:
                    v = fixbools(P.skel, v)
                s.cells[cell] = rebuild(ip, cell, v, (), R)
            else:
                s.cells[cell] = v
        f = self.facts.copy()
        ok = True
        for p, form in P.forms.items():
            if form[0] == 'f':
                lo, hi = P.rng.get(p, (None, None))
                a = A(self.rep_atom(p))
                if lo is not None and lo != 'new':
                    ok = f.add_le(K(lo) - a) and ok
                if hi is not None:
                    ok = f.add_le(a - hi) and ok
                for sg in P.mono.get(p, ()):
                    ok = f.add_le((self.entryI[p] - a).scale(sg)) and ok
        for p, l in R.lsts.items():
            if self.lkind.get(p, ('c',))[0] != 'c':
                ok = f.add_le(-self.value(P, self.npath(p))) and ok
                if len(self.lkind[p]) > 2:
                    ok = f.add_le(self.value(P, self.npath(p)) - self.lkind[p][2][1]) and ok
        for (a, b), c in P.rel.items():
            if a in P.forms and b in P.forms:
                ok = f.add_le(self.value(P, a) - self.value(P, b) - c) and ok
        for p in P.forms:
            if p[1][-1:] == ('len',) and p[0] in s.cells:
                ok = inside(ip, s.cells, s.cells[p[0]], p[1][:-1], f) and ok
        s.facts = f
        P.head = s.copy()
        P.vals = dict((p, self.value(P, p)) for p in P.forms)
        P.lvals = dict(R.lsts)
        return s if ok and not f.bad else None

    def save_hint(self):
        h = {}
        for P in self.order[:1]:
            for p, f in P.forms.items():
                if f[0] == 'f':
                    h[(P.idx, p)] = ('f',)
                elif f[0] == 'a':
                    h[(P.idx, p)] = ('a', None, f[2], f[3])
        return dict(forms=h, lk=dict((p, 'h' if len(k) > 2 else k[0]) for p, k in self.lkind.items()), same=dict(self.same), ok=dict(self.okind),
                    disc=set(self.disc), nodisc=set(self.nodisc), norel=set(self.norel),
                    rels=set((P.idx, a, b) for P in self.order for a, b in P.rel),
                    mono=dict(((P.idx, p), m) for P in self.order for p, m in P.mono.items()),
                    lrels=set((P.idx, a, b) for P in self.order for a, b in P.rel), n=1)

    def load_hint(self, h, st):
        self.hint = h['forms']
        self.okind = dict(h['ok'])
        self.disc = set(h['disc'])
        self.nodisc = set(h['nodisc'])
        self.norel = set(h['norel'])
        self.lhint = h['lk']
        self.samehint = h['same']
        self.monohint = h['mono']
        self.oldrels = h['lrels']
        if h['n'] > 3 and not self.ip.sampling:
            self.relhint = h['rels']


class Restart(Exception):
    pass


def inside(ip, cells, v, path, f):
    """a slice of the input ends where the input does, or before"""
    for e in path:
        if v.__class__ is not Agg or e.__class__ is not int:
            return True
        v = v.f[e]
    if v.__class__ is not Sl or v.proj:
        return True
    l = cells.get(v.cell)
    if l.__class__ is not Lst or len(l.segs) != 1 or l.segs[0][0] != 'in':
        return True
    x = v.off + v.len - l.length()
    return True if f.le(x) else f.add_le(x)


def filled(segs):
    """a list whose last elements are all the same, which are replaced from the first one on"""
    if segs and segs[-1][0] == 's' and isrep(segs[-1][1]):
        return ('g', segs[:-1], segs[-1][1:])
    return ('g', segs)


def uniform(segs):
    """the one character these segments of a string consist of, or None"""
    cs = set()
    for s in segs:
        if s[0] == 't':
            cs.update(s[1])
        elif s[0] == 'e' and s[1].__class__ is Lin and not s[1].t:
            cs.add(s[1].c)
        else:
            return None
    return cs.pop() if len(cs) == 1 else None


def fixbools(st, v):
    """open booleans inside aggregates are decided (they have been, by flatten)"""
    f = []
    ch = False
    for x in v.f:
        y = x
        if x.__class__ is Cnd:
            y = decide(st, x)
        elif x.__class__ is Agg:
            y = fixbools(st, x)
        if y is not x:
            ch = True
        f.append(y)
    return Agg(v.ty, v.var, tuple(f)) if ch else v


def upper(f, l):
    """an upper bound of l"""
    return f.upper(l)


COUNT_MAX = (1 << 62) - 1


def floor_thr(a):
    if a is None:
        return None
    if a >= 0:
        return max(t for t in THR if t <= a) if a in THR or True else a
    best = None
    for t in NTHR:
        if t <= a:
            best = t
            break
    return best


def ceil_thr(b):
    if b is None:
        return None
    for t in THR:
        if t >= b:
            return t
    return None


def proven_thr(f, l, a, b):
    """the least threshold that bounds l, which is a at least and b at most"""
    for t in THR:
        if (a is None or t > a) and (b is None or t < b) and f.le(l - t):
            return t
    return ceil_thr(b) if b is not None else None


# ------------------------------------------------------------------ loop records
class LoopRec:
    __slots__ = ('uid', 'bb', 'fn', 'depth', 'line', 'entry', 'gen', 'parts', 'backs', 'exits', 'k', 'listsyms',
                 'joins', 'memo', 'chain', 'frames', 'rounds')

    def __repr__(self):
        return 'Loop(%s bb%d)' % (self.fn.path, self.bb)


UNROLL = 6


def unrolled(ip, st, bb, blocks, depth):
    """all exits of a loop that certainly ends after a few rounds"""
    out = []
    now = [st.copy()]
    now[0].bb = bb
    saved = ip.begin()
    hints = dict(ip.hints)
    ok = False
    try:
        # loops of the library over a short table are followed to their end
        for i in range(UNROLL if st.frames[-1].fn.local else 3 * UNROLL):
            res = ip.run(now, depth, (bb, blocks), (UNROLL, 1))
            now = [s for k, s in res if k == 'back']
            out += [s for k, s in res if k != 'back']
            if not now and not ip.ntc:
                ok = True
                if ip.trace_unroll: print('UNROLLED', [f.fn.path[-30:] for f in st.frames], bb, i, len(out))
                return out
            if len(now) >= UNROLL or ip.ntc:
                return None
            for s in now:
                s.pc = 0
        return None
    finally:
        ip.end(saved, ok)
        if not ok:
            ip.hints = hints


SMALL = 2
BACKS = 48


def first_rounds(ip, st, bb, blocks, depth):
    """the exits of a loop in its first rounds; what takes more rounds is left out"""
    out = []
    now = [st.copy()]
    now[0].bb = bb
    saved = ip.begin()
    try:
        for i in range(SMALL + 1):
            res = ip.run(now, depth, (bb, blocks))
            now = [s for k, s in res if k == 'back']
            out += [s for k, s in res if k != 'back']
            if not now or len(now) > BACKS:
                break
            for s in now:
                s.pc = 0
        return out
    finally:
        ip.end(saved, True)


def analyze_loop(ip, st):
    fr = st.frames[-1]
    fn = fr.fn
    bb = st.bb
    blocks = fn.headers[bb]
    depth = len(st.frames)
    name = ('L', fr.uid, bb)
    gc(ip, st)
    if (fr.uid, bb) in ip.small:
        return first_rounds(ip, st, bb, blocks, depth)
    entries = [st]
    hk = (fr.uid, bb)
    m = st.cells.get(('g', 'mon'))
    if m is not None:
        hk += (m.var,)
    gen = None
    disc, nodisc = set(), set()
    rounds = 0
    restarts = 0
    gen = fresh_gen(ip, name, st, hk, disc, nodisc)
    if hk not in ip.rolled:
        r = unrolled(ip, st, bb, blocks, depth)
        if r is not None:
            return r
        ip.rolled.add(hk)
    # rounds over a few paths first; the rounds that count take all of them
    full = hk in ip.hints and not ip.sampling
    nsame = 0
    while True:
        rounds += 1
        ip.stats['rounds'] = ip.stats.get('rounds', 0) + 1
        if rounds > 60:
            raise_unsupported(ip, st, 'loop does not stabilise')
            return []
        # header states
        heads = []
        try:
            for P in gen.order:
                if P.gone:
                    continue
                h = gen.build(P, st.frames, bb, (None, ('head', hk, P.idx)), st.taint)
                if h is not None:
                    heads.append(h)
        except Unsupported as e:
            raise_unsupported(ip, st, str(e))
            return []
        saved = ip.begin()
        try:
            res = ip.run(heads, depth, (bb, blocks), None if full else (SAMPLE, rounds))
        except BaseException:
            ip.end(saved, False)
            raise
        backs = [s for k, s in res if k == 'back']
        exits = [s for k, s in res if k != 'back']
        for P in gen.order:
            P.incoming = []
        gen.changed = False
        known = len(gen.order)
        try:
            gen.add(st.copy(), None, ZERO)
            srcs = []
            for s in backs:
                src = gen.order[s.events()[0][2]]
                g = s.copy()
                g.trace = s.trace
                gc(ip, g)
                k = A(gen.rep_atom(KP)) + 1
                gen.add(g, src, k)
            newp = gen.changed or len(gen.order) != known
            if full and gen.prune():
                newp = True
            stable = gen.check()
            stable = stable and not newp
        except Restart:
            restarts += 1
            ip.end(saved, False)
            disc, nodisc = gen.disc, gen.nodisc
            if restarts > 12:
                raise_unsupported(ip, st, 'loop shapes do not stabilise')
                return []
            gen = fresh_gen(ip, name, st, hk, disc, nodisc)
            continue
        except Unsupported as e:
            ip.end(saved, False)
            raise_unsupported(ip, st, str(e))
            return []
        if ip.trace_loops:
            print('  ' * len(st.frames), fn.path[-30:], bb, 'round', rounds, 'full' if full else 'sample', 'stable' if stable else '', len(backs), gen.why)
        if stable and (full or (ip.sampling and nsame)):
            ip.end(saved, True)
            break
        ip.end(saved, False)
        if not full:
            nsame = nsame + 1 if stable else 0
            full = not ip.sampling and nsame >= 2 or len(backs) < SAMPLE or rounds > 25
    h = gen.save_hint()
    old = ip.hints.get(hk)
    if old is not None:
        h['n'] = old['n'] + (0 if ip.sampling else 1)
        h['rels'] |= old['rels']
        h['norel'] -= h['rels']
    ip.hints[hk] = h
    rec = LoopRec()
    rec.uid = fr.uid
    rec.bb = bb
    rec.fn = fn
    rec.depth = depth
    rec.frames = st.frames
    rec.entry = st
    rec.gen = gen
    rec.parts = gen.order
    rec.backs = [(S.st, S.src, P, S) for P in gen.order for S in P.incoming if S.src is not None]
    rec.k = A(gen.rep_atom(KP))
    rec.listsyms = gen.listsyms
    rec.joins = []
    rec.memo = {}
    rec.rounds = rounds
    t = fn.blocks[bb][1]
    rec.line = block_line(fn, bb)
    ip.stats['loops'] += 1
    ip.loop_done(st, rec)
    out = []
    for s in exits:
        ev = s.events()
        pidx = ev[0][2]
        tr = (st.trace, ('loop', rec, pidx))
        for e in ev[1:]:
            tr = (tr, e)
        s.trace = tr
        out.append(s)
    rec.exits = out
    return join_exits(ip, rec, out)


def block_line(fn, bb):
    b = fn.blocks[bb]
    for s in b[0]:
        if s[0] == '=':
            return s[3]
    t = b[1]
    if t[0] == 'call':
        return t[6]
    if t[0] in ('switch', 'assert', 'drop'):
        return t[-1]
    return fn.line


def fresh_gen(ip, name, st, hk, disc, nodisc):
    gen = Gen(ip, name, st.facts, True)
    h = ip.hints.get(hk)
    gen.lhint = {}
    gen.samehint = {}
    if h is not None:
        gen.load_hint(h, st)
    gen.disc |= disc
    gen.nodisc |= nodisc
    gen.disc -= gen.nodisc
    e = st.copy()
    while True:
        try:
            gen.add(e, None, ZERO)
            break
        except Restart:
            continue
    # list hints
    for p, k in gen.lhint.items():
        for P in gen.order:
            if p in P.L.lsts and k != 'c':
                gen.lkind[p] = ('g', P.L.lsts[p].segs) if k == 'g' else filled(P.L.lsts[p].segs) if k == 'h' else ('f',)
                if k == 'g' and p in gen.samehint:
                    gen.same[p] = gen.samehint[p]
    for P in gen.order:
        gen.init_forms(P)
    try:
        for _ in range(40):
            if gen.check():
                break
    except Restart:
        pass
    return gen


def raise_unsupported(ip, st, why):
    ip.unsupported[why] = ip.unsupported.get(why, 0) + 1
    ip.report(st, 'unsupported', why)
    st.taint = st.taint or why
    if ip.debug_unsupported:
        raise Unsupported(why)


def is_failure(ip, st):
    """the state is on its way out with an error"""
    for v in st.cells.values():
        if v.__class__ is Agg and v.var == 1 and v.ty.__class__ is int:
            t = ip.T[v.ty]
            if t['k'] == 'adt' and t['path'] in ('core::result::Result', 'core::ops::control_flow::ControlFlow'):
                return True
    return False


def join_exits(ip, rec, exits):
    if len(exits) <= MAXJOIN or ip.lclasses:
        return exits
    groups = {}
    out = []
    for s in exits:
        g = s.copy()
        if s.pc == 0 and s.frames:
            gc(ip, g)
        if is_failure(ip, g):
            out.append(s)
            continue
        try:
            L = flatten(ip, g, (), True)
        except (ForkOn, Unsupported):
            out.append(s)
            continue
        t = s.trace
        while not (t[1][0] == 'loop' and t[1][1] is rec):
            t = t[0]
        groups.setdefault((len(g.frames), g.bb, L.sig, t[1][2]), []).append((s, g))
    for key, l in groups.items():
        j = None
        if len(l) > MAXJOIN:
            j = join(ip, rec, [s for s, _ in l], [g for _, g in l], key[3], len(rec.joins))
        if j is None:
            out.extend(s for s, _ in l)
        else:
            out.append(j)
    return out


class JoinRec:
    __slots__ = ('rec', 'members', 'gen', 'part', 'state')


def join(ip, rec, members, gs, pidx, n):
    P0 = rec.parts[pidx]
    gen = Gen(ip, ('J', rec.uid, rec.bb, n), P0.head.facts, False)
    gen.lhint = {}
    gen.deep = True
    gen.usemono = True
    gen.entryI = dict(P0.vals)
    try:
        for g in gs:
            gen.add(g.copy())
        if len(gen.order) != 1:
            return None
        P = gen.order[0]
        gen.init_forms(P)
        for _ in range(200):
            if gen.check():
                break
        else:
            return None
    except (Restart, Unsupported):
        return None
    s0 = members[0]
    jr = JoinRec()
    jr.rec = rec
    jr.members = members
    jr.gen = gen
    jr.part = P
    rec.joins.append(jr)
    s = gen.build(P, s0.frames, s0.bb, ((rec.entry.trace, ('loop', rec, pidx)), ('joined', rec, jr)), taint_of(members))
    jr.state = s
    return s


def taint_of(ms):
    for m in ms:
        if m.taint:
            return m.taint
    return None
