"""Abstract interpreter over resolved MIR: trace-partitioned states, loop fixpoints (loops.py),
models of the std types (models.py)."""
import sys, random
import synth
import os
import traceback

TB = os.environ.get('JBV_TB')
import vals
from lin import *
from vals import *

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('uid', 'fn', 'dest', 'target', 'cont', 'line')

    def __init__(self, uid, fn, dest, target, cont, line):
        self.uid = uid
        self.fn = fn
        self.dest = dest      # (cell, proj) in the caller
        self.target = target  # block in the caller
        self.cont = cont      # python continuation, or None
        self.line = line      # call line in the caller


class State:
    __slots__ = ('frames', 'bb', 'pc', 'cells', 'facts', 'trace', 'taint', 'lines')

    def copy(self, facts=None):
        s = State.__new__(State)
        s.frames = self.frames
        s.bb = self.bb
        s.pc = self.pc
        s.cells = dict(self.cells)
        s.facts = self.facts.copy() if facts is None else facts
        s.trace = self.trace
        s.taint = self.taint
        s.lines = self.lines
        return s

    def ev(self, e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


_uids = {}
UIDS = []


def strmodels():
    import strmodels as m
    return m


def uid_of(key):
    r = _uids.get(key)
    if r is None:
        r = len(UIDS)
        _uids[key] = r
        UIDS.append(key)
    return r


class Finding:
    __slots__ = ('kind', 'fn', 'file', 'line', 'msg', 'chain', 'props', 'taint')

    def __init__(self, kind, fn, file, line, msg, chain, taint=None):
        self.kind = kind
        self.fn = fn
        self.file = file
        self.line = line
        self.msg = msg
        self.chain = chain
        self.taint = taint

    def key(self):
        return (self.kind, self.fn, self.msg)

    def __repr__(self):
        return '%s: %s (%s:%s) %s%s' % (self.kind, self.fn, self.file, self.line, self.msg,
                                        ' [undecided: %s]' % self.taint if self.taint else '')


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.T = prog.types
        import seqmodels
        import strmodels
        from models import MODELS, PREFIX
        self.models = MODELS
        self.prefix = PREFIX
        self.findings = {}
        self.obl = {}
        self.recs = {}
        self.ntc = {}
        self.quiet = 0
        self.stats = dict(blocks=0, states=0, loops=0, forks=0, asserts=0, asserts_ok=0, calls=0,
                          fns=set(), nts=0, rounds=0)
        self.hints = {}
        self.rolled = set()
        self.small = ()         # loops of which only the first rounds are followed, one by one
        self.focus = set()      # loops in front of what is not understood
        self.synth = None
        self.plain_keys = False # keys of maps that consist of numbers are equal when those are
        self.eq_types = ()
        self.inexact = False    # a value was made up that the text does not determine
        self.nts = {}          # fn id -> NT object
        self._elty = {}
        self._intr = {}
        self.loophook = None
        self.char_hook = None
        self.out_hook = None
        self.lclasses = False
        self.unsupported = {}
        self._model_of = {}
        self.maxblocks = 3000000
        self.wholes = {}        # list symbol -> length of the string it stands for
        self.caps = {}

    # ------------------------------------------------------------ rounds of a fixpoint
    def begin(self):
        """findings and obligations of a tentative round are kept apart"""
        saved = (self.findings, self.obl, self.recs, self.ntc)
        self.findings, self.obl, self.recs, self.ntc = {}, {}, {}, {}
        return saved

    def end(self, saved, ok):
        f, o, r, n = self.findings, self.obl, self.recs, self.ntc
        self.findings, self.obl, self.recs, self.ntc = saved
        if ok:
            for k, v in f.items():
                old = self.findings.get(k)
                if old is None or (old.taint and not v.taint):
                    self.findings[k] = v
            for k, v in o.items():
                self.obl[k] = self.obl.get(k, True) and v
            self.recs.update(r)
            for k, v in n.items():
                self.ntc.setdefault(k, []).extend(v)

    def loop_done(self, st, rec):
        self.recs[(rec.uid, rec.bb)] = rec
        if self.loophook:
            self.loophook(self, st, rec)

    def fresh_key(self, st):
        return ('at', st.frames[-1].uid, st.bb)

    def site(self, st, line):
        """innermost function of the crate on the stack, with the line there"""
        ln = line
        for f in reversed(st.frames):
            if f.fn.local:
                return f.fn, ln
            ln = f.line
        return st.frames[-1].fn, line

    def oblige(self, st, what, line, ok):
        fn, ln = self.site(st, line)
        k = (fn.path, fn.file, ln, what)
        self.obl[k] = self.obl.get(k, True) and ok

    def cap(self, st, n, ty, line):
        """space for n elements is reserved in advance"""
        fn, ln = self.site(st, line)
        st.ev(('cap', n, fn.path, ln))
        if self.caphook:
            self.caphook(self, st, n, ty, line)

    caphook = None

    def iter_of(self, v):
        """an opaque slice iterator as a window of an opaque list"""
        t = self.T[v.ty]
        if t['k'] == 'adt' and t['path'] in ('core::slice::iter::Iter', 'core::slice::iter::IterMut'):
            el = t['targs'][0]
            cell = ('it', v.sym, el)
            ln = A(sym(('len', v.sym), 0, (1 << 63) - 1))
            return Agg(v.ty, None, (Sl(cell, (), ZERO, ln),))
        if t['k'] == 'adt' and t['path'] == 'core::str::iter::Chars':
            cell = ('it', v.sym, 'char')
            ln = A(sym(('len', v.sym), 0, (1 << 63) - 1))
            return Agg(v.ty, None, (Sl(cell, (), ZERO, ln, True),))
        raise Unsupported('iterator ' + t['s'])

    # ------------------------------------------------------------ findings
    def where(self, st):
        out = []
        line = None
        for fr in reversed(st.frames):
            out.append((fr.fn, line))
            line = fr.line
        return out

    def report(self, st, kind, msg, line=None, loose=False):
        if self.quiet:
            return
        fr = st.frames[-1]
        # innermost local function
        fn = fr.fn
        ln = line
        for f in reversed(st.frames):
            if f.fn.local:
                fn = f.fn
                break
            ln = f.line
        chain = ' <- '.join(f.fn.path for f in reversed(st.frames))
        taint = st.taint
        if not taint and loose and vals.VAGUE is not None and (('g', 'vague') in st.cells or 'vague' in st.facts.strs):
            taint = 'decided in a way that is not followed exactly'
        fd = Finding(kind, fn.path, fn.file, ln, msg, chain, taint)
        k = fd.key()
        old = self.findings.get(k)
        if old is None or (old.taint and not fd.taint):
            self.findings[k] = fd

    def havoc(self, st, ty, why):
        self.unsupported[why] = self.unsupported.get(why, 0) + 1
        if not st.taint:
            st.taint = why
        return Havoc(ty, why)

    # ------------------------------------------------------------ types
    def int_range(self, ty):
        r = self._intr.get(ty)
        if r is None:
            t = self.T[ty]
            k = t['k']
            if k == 'int':
                b = t['bits']
                r = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)
            elif k == 'char':
                r = (0, 0x10FFFF)
            elif k == 'bool':
                r = (0, 1)
            elif k in ('ptr', 'fnptr', 'ref'):
                r = (0, (1 << 64) - 1)
            else:
                r = (None, None)
            self._intr[ty] = r
        return r

    def adt(self, ty):
        t = self.T[ty]
        return t['path'] if t['k'] == 'adt' else None

    def is_list_ty(self, ty):
        r = self._elty.get(ty)
        if r is None:
            r = 0
            t = self.T[ty]
            if t['k'] == 'adt':
                p = t['path']
                if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
                    r = ('vec', t['targs'][0])
                elif p == 'alloc::string::String':
                    r = ('str', None)
                elif p in ('std::collections::hash::map::HashMap',):
                    r = ('hmap', tuple(t['targs'][:2]))
                elif p in ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'):
                    r = ('set', t['targs'][0])
                elif p == 'alloc::collections::btree::map::BTreeMap':
                    r = ('bmap', tuple(t['targs'][:2]))
            elif t['k'] in ('array', 'slice'):
                r = ('arr', t['ty'])
            elif t['k'] == 'str':
                r = ('str', None)
            self._elty[ty] = r
        return r

    def is_box(self, ty):
        t = self.T[ty]
        return t['k'] == 'adt' and (t['path'] in ('alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc'))

    def opq(self, sy, ty, facts=None):
        """unknown value of type ty named sy"""
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            b = t['bits']
            if b == 8 and not t['signed']:
                return A(small(sy, 256))
            lo, hi = self.int_range(ty)
            return A(sym(sy, lo, hi))
        if k == 'bool':
            return Cnd('ne', A(small(sy, 2)))
        if k == 'char':
            return A(sym(sy, 0, 0x10FFFF))
        if k == 'float':
            return Flt(A(sym(sy, 0, (1 << t['bits']) - 1)), ty)
        if k == 'ref' or k == 'ptr':
            pt = t['ty']
            pk = self.T[pt]['k']
            if pk in ('slice', 'str'):
                cell = ('p', sy, pt)
                ln = A(sym(('len', sy), 0, (1 << 63) - 1))
                return Sl(cell, (), ZERO, ln, pk == 'str')
            return Ref(('p', sy, pt), ())
        if k == 'fndef':
            return Fnv(ty, t['fn_'], t['path'])
        if k == 'tuple':
            return Agg(ty, None, tuple(self.opq((sy, i), x) for i, x in enumerate(t['tys'])))
        if k == 'never':
            return Opq(sy, ty)
        lt = self.is_list_ty(ty)
        if lt:
            return self.opq_list(sy, ty, lt)
        return Opq(sy, ty)

    def opq_list(self, sy, ty, lt=None):
        lt = lt or self.is_list_ty(ty)
        ln = A(sym(('len', sy), 0, (1 << 63) - 1))
        t = self.T[ty]
        if t['k'] == 'array' and t['len'] is not None:
            ln = K(t['len'])
        if lt[0] in ('vec', 'arr') and self.T[lt[1]]['k'] == 'int' and self.T[lt[1]]['s'] == 'u8':
            return Lst(ty, (('in', sy, ZERO, ln),))
        el = lt[1]
        if lt[0] == 'str':
            el = 'char'
        return Lst(ty, (('s', sy, ln, el),))

    def field_ty(self, ty, var, i):
        t = self.T[ty]
        if t['k'] == 'adt':
            return t['variants'][var or 0]['fields'][i]['ty']
        if t['k'] == 'tuple':
            return t['tys'][i]
        if t['k'] == 'closure':
            return t['upvars'][i]
        raise Unsupported('field of ' + t['s'])

    def nfields(self, ty, var=None):
        t = self.T[ty]
        if t['k'] == 'adt':
            return len(t['variants'][var or 0]['fields'])
        if t['k'] == 'tuple':
            return len(t['tys'])
        if t['k'] == 'closure':
            return len(t['upvars'])
        return 0

    def opq_field(self, v, var, i):
        ft = self.field_ty(v.ty, var, i)
        return self.opq(('f', v.sym, var if var is not None else 0, i), ft)

    def opq_box(self, v):
        t = self.T[v.ty]
        return self.opq(('*', v.sym), t['targs'][0])

    def expand(self, v, var=None):
        """Opq -> Agg (one level); enum needs var"""
        t = self.T[v.ty]
        if self.is_box(v.ty):
            return Agg(v.ty, None, (self.opq_box(v),))
        n = self.nfields(v.ty, var)
        isenum = t['k'] == 'adt' and t['kind'] == 'enum'
        return Agg(v.ty, var if isenum else None, tuple(self.opq_field(v, var, i) for i in range(n)))

    def discr_mask(self, ty):
        """variants that can be inhabited"""
        t = self.T[ty]
        m = 0
        for i, v in enumerate(t['variants']):
            if any(self.empty_ty(f['ty']) for f in v['fields']):
                continue
            m |= 1 << i
        return m

    def empty_ty(self, ty, depth=4):
        """a type without values"""
        t = self.T[ty]
        k = t['k']
        if k == 'never':
            return True
        if not depth:
            return False
        if k == 'tuple':
            return any(self.empty_ty(x, depth - 1) for x in t['tys'])
        if k == 'adt' and t['kind'] != 'union' and 'variants' in t:
            es = [any(self.empty_ty(f['ty'], depth - 1) for f in v['fields']) for v in t['variants']]
            return all(es) if t['kind'] == 'enum' else any(es)
        return False

    def discr_atom(self, v):
        return small_mask(('disc', v.sym), self.discr_mask(v.ty))

    def variant_of(self, st, v):
        """variant index of an enum value; forks when it is open"""
        if v.__class__ is Agg:
            return v.var
        if v.__class__ is Opq:
            l = st.facts.norm(A(self.discr_atom(v)))
            if not l.t:
                return l.c
            a = l.t[0][0]
            m = st.facts.mask(a)
            fs = []
            for x in mask_vals(m):
                g = st.facts.copy()
                if g.restrict(a, 1 << x):
                    fs.append(g)
            raise ForkOn(fs)
        raise Unsupported('variant of %r' % (v,))

    # ------------------------------------------------------------ memory
    def getcell(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            if cell[0] == 'k':
                return self.kcells[cell]
            if cell[0] == 'it':
                ln = A(sym(('len', cell[1]), 0, (1 << 63) - 1))
                v = Lst(None, (('s', ('*', cell[1]), ln, cell[2]),))
                st.cells[cell] = v
                return v
            if cell[0] == 'p':
                pt = cell[2]
                lt = self.is_list_ty(pt)
                v = self.opq(('*', cell[1]), pt) if not lt else self.opq_cell_list(st, cell)
                st.cells[cell] = v
            else:
                return None
        return v

    def opq_cell_list(self, st, cell):
        lt = self.is_list_ty(cell[2])
        k = self.T[cell[2]]['k']
        if k in ('slice', 'str'):
            # length is the metadata of the reference
            sy = cell[1]
            ln = A(sym(('len', sy), 0, (1 << 63) - 1))
            if k == 'slice' and self.T[lt[1]]['s'] == 'u8':
                return Lst(cell[2], (('in', sy, ZERO, ln),))
            return Lst(cell[2], (('s', sy, ln, lt[1] if k == 'slice' else 'char'),))
        return self.opq_list(('*', cell[1]), cell[2], lt)

    def load(self, st, cell, proj):
        v = self.getcell(st, cell)
        if v is None:
            raise Unsupported('read of uninitialised %s' % (cell,))
        for e in proj:
            v = self.step_in(st, v, e)
        return v

    def step_in(self, st, v, e):
        c = v.__class__
        if c is Agg:
            if e.__class__ is int:
                return v.f[e]
            if e == '*':
                return v.f[0]
            if e[0] == 'ix':
                raise Unsupported('index into aggregate')
            if e[0] != v.var:
                raise Unsupported('field of variant %s of a value of variant %s' % (e[0], v.var))
            return v.f[e[1]]
        if c is Opq:
            if e == '*':
                return self.opq_box(v)
            if e.__class__ is int:
                return self.opq_field(v, None, e)
            return self.opq_field(v, e[0], e[1])
        if c is Lst:
            if e.__class__ is tuple and e[0] == 'ix':
                return self.elem(st, v, e[1])
            if e.__class__ is tuple and e[0] == 'sl':
                return self.sublist(st, v, e[1], e[2])
        if c is Havoc:
            return self.havoc_part(v, e)
        if c is Flt or c is Lin:
            # newtype transparency of pointers is handled elsewhere
            pass
        raise Unsupported('projection %s of %r' % (e, v))

    def havoc_part(self, v, e):
        ty = None
        try:
            if e == '*':
                ty = self.T[v.ty]['targs'][0]
            elif e.__class__ is int:
                ty = self.field_ty(v.ty, None, e)
            elif e[0] not in ('ix', 'sl'):
                ty = self.field_ty(v.ty, e[0], e[1])
        except Exception:
            ty = None
        return Havoc(ty, v.why)

    def elem(self, st, l, idx):
        f = st.facts
        idx = f.norm(idx)
        if vals.VAGUE is not None and not idx.const and ('g', 'vague') not in st.cells and sum(x[0] == 'e' for x in l.segs) > 1:
            # which of several known elements: rounds of a loop over them do not remember which were seen
            st.cells[('g', 'vague')] = Agg(('vague',), 0, ())
        off = ZERO
        for s in l.segs:
            k = s[0]
            n = seglen(s)
            if k == 'e':
                if decide(st, c_eq(idx - off)):
                    return s[1]
            else:
                if decide(st, c_le(idx - off - n + 1)):
                    i = st.facts.norm(idx - off)
                    if k == 's':
                        return self.elem_of(s[1], i, s[3])
                    if k == 'in':
                        return st.facts.byte(s[1], s[2] + i)
                    if k == 't':
                        if i.const:
                            return K(s[1][i.c])
                        if len(i.t) == 1 and ATOMS[i.t[0][0]].small:
                            a, w = i.t[0]
                            tab = [0] * 256
                            for x in mask_vals(st.facts.mask(a)):
                                j = wval(w, x) + i.c
                                if 0 <= j < len(s[1]):
                                    tab[x] = s[1][j]
                            return from_table(a, tab)
                        # fork over the positions
                        fs = []
                        for j in range(len(s[1])):
                            fs.extend(assume(st.facts, c_eq(i - j)))
                        raise ForkOn(fs)
            off = off + n
        raise Unsupported('element outside list')

    def elem_of(self, lsym, i, elty):
        while lsym.__class__ is tuple and len(lsym) == 3 and lsym[0] == 'win' and lsym[2].__class__ is Lin \
                and lsym[1].__class__ is tuple and lsym[1] and lsym[1][0].__class__ is str:
            # an element of a part is an element of the whole
            i = i + lsym[2]
            lsym = lsym[1]
        if elty == 'char':
            return A(sym(('el', lsym, i), 0, 0x10FFFF))
        if elty.__class__ is tuple:
            # map entry
            return Agg(('pair',), None, (self.opq(('elk', lsym, i), elty[0]), self.opq(('elv', lsym, i), elty[1])))
        return self.opq(('el', lsym, i), elty)

    def sublist(self, st, l, off, ln):
        """window [off, off+ln) of list l"""
        f = st.facts
        off, ln = f.norm(off), f.norm(ln)
        if f.eq(off) and f.eq(ln - l.length()):
            return l
        segs = []
        pos = ZERO
        end = off + ln
        for s in l.segs:
            n = seglen(s)
            # skip segments before off
            if not f.eq(off - pos) and decide(st, c_le(pos + n - off)):
                pos = pos + n
                continue
            if decide(st, c_le(end - pos)):
                break
            start = off - pos if not decide(st, c_le(off - pos)) else ZERO
            stop = n if decide(st, c_le(pos + n - end)) else end - pos
            cl = st.facts.norm(stop - start)
            if s[0] == 'e':
                segs.append(s)
            elif s[0] == 'in':
                segs.append(('in', s[1], s[2] + start, cl))
            elif s[0] == 't' and start.const and stop.const:
                segs.append(('t', s[1][start.c:stop.c]))
            elif st.facts.eq(start) and st.facts.eq(stop - n):
                segs.append(s)
            elif s[0] == 's' and isrep(s[1]):
                segs.append(('s', s[1], cl, s[3]))
            else:
                segs.append(('s', ('win', s[1] if s[0] == 's' else s[1], start), cl, s[3] if s[0] == 's' else None))
            pos = pos + n
        return Lst(l.ty, tuple(segs))

    def store(self, st, cell, proj, v):
        if not proj:
            st.cells[cell] = v
            return
        old = self.getcell(st, cell)
        st.cells[cell] = self._upd(st, old, proj, 0, v, cell)

    def _upd(self, st, old, proj, i, v, cell):
        if i == len(proj):
            return v
        e = proj[i]
        c = old.__class__
        if old is None:
            # piecewise initialisation
            if cell[0] == 'p':
                raise Unsupported('store through unknown pointer')
            ty = UIDFN[cell[0]].locals[cell[1]] if cell[0].__class__ is int else None
            if ty is None or i != 0:
                raise Unsupported('store into uninitialised')
            n = self.nfields(ty)
            old = Agg(ty, None, tuple(None for _ in range(n)))
            c = Agg
        if c is Opq:
            if e.__class__ is tuple:
                old = self.expand(old, e[0])
            else:
                old = self.expand(old)
            c = Agg
        if c is Agg:
            if e == '*':
                return Agg(old.ty, old.var, (self._upd(st, old.f[0], proj, i + 1, v, cell),))
            if e.__class__ is int:
                j = e
            elif e[0] in ('ix', 'sl'):
                raise Unsupported('index store')
            else:
                j = e[1]
                if old.var != e[0]:
                    raise Unsupported('store into another variant')
            f = list(old.f)
            f[j] = self._upd(st, f[j], proj, i + 1, v, cell)
            return Agg(old.ty, old.var, tuple(f))
        if c is Lst and e.__class__ is tuple and e[0] == 'ix':
            f = st.facts
            idx = f.norm(e[1])
            off = ZERO
            segs = list(old.segs)
            for n, s in enumerate(segs):
                if s[0] == 'e':
                    if decide(st, c_eq(idx - off)):
                        segs[n] = ('e', self._upd(st, s[1], proj, i + 1, v, cell))
                        return Lst(old.ty, tuple(segs), old.tag)
                else:
                    ln = seglen(s)
                    if decide(st, c_le(idx - off - ln + 1)):
                        # split when the position is known
                        if s[0] == 't':
                            ii = st.facts.norm(idx - off)
                            if ii.const:
                                es = [('e', K(x)) for x in s[1]]
                                es[ii.c] = ('e', self._upd(st, es[ii.c][1], proj, i + 1, v, cell))
                                segs[n:n + 1] = es
                                return Lst(old.ty, tuple(segs), old.tag)
                        if s[0] == 's' and s[3] is not None or s[0] == 'in':
                            ii = st.facts.norm(idx - off)
                            x = self.elem_of(s[1], ii, s[3]) if s[0] == 's' else st.facts.byte(s[1], s[2] + ii)
                            win = [g for o, l in ((ZERO, ii), (ii + 1, st.facts.norm(ln - ii - 1)))
                                   for g in self.sublist(st, Lst(old.ty, (s,)), o, l).segs]
                            k = 0 if st.facts.eq(ii) else 1
                            segs[n:n + 1] = win[:k] + [('e', self._upd(st, x, proj, i + 1, v, cell))] + win[k:]
                            return Lst(old.ty, tuple(segs), old.tag)
                        self.havoc(st, None, 'store at an unknown index')
                        return Lst(old.ty, (('s', ('hv', cell, proj[:i], id(v)), old.length(), self.elty(old)),), old.tag)
                off = off + seglen(s)
            raise Unsupported('store outside list')
        if c is Havoc:
            return old
        raise Unsupported('store into %r' % (old,))

    def elty(self, l):
        lt = self.is_list_ty(l.ty)
        return 'char' if lt[0] == 'str' else lt[1]

    # ------------------------------------------------------------ places and operands
    def place(self, st, pl):
        """resolve a MIR place to (cell, proj)"""
        uid = st.frames[-1].uid
        cell = (uid, pl[0])
        proj = ()
        var = None
        for e in pl[1]:
            if e == '*':
                v = self.load(st, cell, proj)
                c = v.__class__
                if c is Ref:
                    cell, proj = v.cell, v.proj
                elif c is Sl:
                    cell, proj = v.cell, v.proj + (('sl', v.off, v.len),)
                elif c is Agg and self.is_box(v.ty):
                    proj = proj + ('*',)
                elif c is Opq and self.is_box(v.ty):
                    proj = proj + ('*',)
                elif c is Havoc:
                    t = v.ty
                    pt = self.T[t].get('ty') if t is not None else None
                    cell, proj = ('hv', uid, st.bb, len(st.cells)), ()
                    st.cells[cell] = Havoc(pt, v.why)
                else:
                    raise Unsupported('deref of %r' % (v,))
                var = None
                continue
            k = e[0]
            if k == 'f':
                # Box internals
                if var is None:
                    base = None
                    if e[1] == 0:
                        bv = self.load_opt(st, cell, proj)
                        if bv.__class__ in (Agg, Opq) and bv.ty.__class__ is int and self.is_box(bv.ty):
                            # (*box.0.0 as *const T): keep a reference to the content
                            cell2 = ('bx', uid, pl[0], len(st.cells))
                            st.cells[cell2] = Ref(cell, proj + ('*',))
                            cell, proj = cell2, ()
                            continue
                        if bv.__class__ is Ref and cell[0] == 'bx':
                            continue
                        if bv.__class__ is Ref:
                            continue
                    proj = proj + (e[1],)
                else:
                    proj = proj + ((var, e[1]),)
                var = None
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                idx = self.load(st, (uid, e[1]), ())
                proj = self.index_proj(proj, idx)
            elif k == 'ci':
                if e[3]:
                    base = self.load(st, cell, proj)
                    n = base.length()
                    proj = self.index_proj(proj, n - e[1])
                else:
                    proj = self.index_proj(proj, K(e[1]))
            elif k == 'ss':
                base = self.load(st, cell, proj)
                n = base.length()
                off = K(e[1])
                ln = (n - e[2] - e[1]) if e[3] else K(e[2] - e[1])
                if proj and proj[-1].__class__ is tuple and proj[-1][0] == 'sl':
                    o = proj[-1][1]
                    proj = proj[:-1] + (('sl', o + off, ln),)
                else:
                    proj = proj + (('sl', off, ln),)
            else:
                raise Unsupported('projection ' + str(e))
        return cell, proj

    def load_opt(self, st, cell, proj):
        try:
            return self.load(st, cell, proj)
        except Unsupported:
            return None

    def index_proj(self, proj, idx):
        if proj and proj[-1].__class__ is tuple and proj[-1][0] == 'sl':
            return proj[:-1] + (('ix', proj[-1][1] + idx),)
        return proj + (('ix', idx),)

    def operand(self, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            p = o[1]
            if not p[1]:
                v = st.cells.get((st.frames[-1].uid, p[0]))
                if v is not None:
                    return v
            cell, proj = self.place(st, p)
            return self.load(st, cell, proj)
        if k == 'k':
            return self.const(o[1])
        if k == 'rc':
            return o[1] == 'OverflowChecks'
        raise Unsupported('operand ' + str(o))

    def const(self, c):
        k = id(c)
        r = self._constc.get(k) if hasattr(self, '_constc') else None
        if r is None:
            if not hasattr(self, '_constc'):
                self._constc = {}
            r = self._const(c['ty'], c['v'], k)
            self._constc[k] = r
        return r

    def _const(self, ty, v, key):
        t = self.T[ty]
        k = t['k']
        if v == 'fn' or k == 'fndef':
            return Fnv(ty, t.get('fn_'), t.get('path'))
        if v is None:
            if k == 'closure':
                return Agg(ty, None, ())
            if k == 'tuple' and not t['tys']:
                return Agg(ty, None, ())
            return Opq(('const', t['s'], key), ty) if k not in ('int', 'bool', 'char', 'float', 'ref', 'ptr', 'tuple') else self.opq(('const', t['s'], key), ty)
        if 'i' in v:
            if k == 'bool':
                return bool(v['i'])
            if k == 'float':
                return Flt(K(v['i']), ty)
            return K(v['i'])
        if 'bytes' in v:
            return self.const_slice(v, ty)
        if 'slice' in v:
            et = self.T[t['ty']]['ty']
            vals = tuple(('e', self._const(et, x, (key, i))) for i, x in enumerate(v['slice']))
            cell = ('k', key)
            self.kcells[cell] = Lst(t['ty'], vals)
            return Sl(cell, (), ZERO, K(len(vals)))
        if 'ref_' in v:
            cell = ('k', key)
            self.kcells[cell] = self._const(v['ty'], v['ref_'], (key, 'r'))
            pt = self.T[v['ty']]
            return Ref(cell, ())
        if 'agg' in v:
            fs = v['agg']
            if k == 'array':
                if all(x and 'i' in x for x in fs) and self.T[t['ty']]['k'] in ('int', 'char'):
                    return Lst(ty, (('t', tuple(x['i'] for x in fs)),)) if fs else Lst(ty, ())
                return Lst(ty, tuple(('e', self._const(t['ty'], x, (key, i))) for i, x in enumerate(fs)))
            var = v.get('variant')
            isenum = k == 'adt' and t['kind'] == 'enum'
            out = []
            for i, x in enumerate(fs):
                out.append(self._const(self.field_ty(ty, var if isenum else None, i), x, (key, i)))
            lt = self.is_list_ty(ty)
            if lt:
                return Lst(ty, ())
            return Agg(ty, var if isenum else None, tuple(out))
        if 'zst' in v:
            return Agg(ty, None, ())
        raise Unsupported('const')

    kcells = {}

    def const_slice(self, v, ty):
        if v.get('str_'):
            txt = tuple(ord(ch) for ch in bytes(v['bytes']).decode('utf-8', 'replace'))
        else:
            txt = tuple(v['bytes'])
        cell = ('k', ('txt', v.get('str_', False), txt))
        pt = self.T[ty]['ty']
        self.kcells[cell] = Lst(pt, (('t', txt),) if txt else ())
        return Sl(cell, (), ZERO, K(len(txt)), bool(v.get('str_')))

    # ------------------------------------------------------------ running
    def new_state(self, fn, args, uid=None, facts=None, cells=None):
        st = State()
        fn.prep()
        uid = uid_of(('root', fn.id)) if uid is None else uid
        UIDFN[uid] = fn
        st.frames = (Frame(uid, fn, None, None, None, None),)
        st.bb = 0
        st.pc = 0
        st.cells = dict(cells or {})
        st.facts = facts or Facts()
        st.trace = None
        st.taint = None
        st.lines = None
        for i, a in enumerate(args):
            st.cells[(uid, i + 1)] = a
        return st

    def run(self, states, depth, loop=None, sample=None):
        """explores from states until the frame at depth-1 returns ('ret'), or, with
        loop=(header, blocks), until control comes back to the header or leaves the loop."""
        from loops import analyze_loop, is_failure
        work = list(states)
        out = []
        first = set(id(s) for s in states) if loop else set()
        rnd = None
        nback = 0
        nexit = 0
        if sample is not None:
            rnd = random.Random(sample[1])
        while work:
            if rnd is not None:
                if nback >= sample[0] and (nexit or not self.sampling):
                    break
                i = rnd.randrange(len(work))
                work[i], work[-1] = work[-1], work[i]
            st = work.pop()
            while True:
                n = len(st.frames)
                if n < depth:
                    out.append(('ret', st))
                    break
                if st.pc == 0:
                    if loop is not None and n == depth:
                        if st.bb == loop[0]:
                            if id(st) in first:
                                first.discard(id(st))
                            else:
                                out.append(('back', st))
                                nback += 1
                                break
                        elif st.bb not in loop[1]:
                            out.append(('exit', st))
                            if rnd is not None and not is_failure(self, st):
                                nexit += 1
                            break
                    fn = st.frames[-1].fn
                    if st.bb in fn.headers and not (loop is not None and n == depth and st.bb == loop[0]):
                        ex = analyze_loop(self, st)
                        work.extend(reversed(ex))
                        break
                try:
                    r = self.block(st)
                except ForkOn as e:
                    self.stats['forks'] += 1
                    fs = e.facts
                    if len(fs) > 1:
                        self.stats['states'] += len(fs) - 1
                    if vals.VAGUE is not None and ('g', 'vague') not in st.cells and any('vague' in f.strs for f in fs):
                        st.cells[('g', 'vague')] = Agg(('vague',), 0, ())
                    again = loop is not None and st.pc == 0 and st.bb == loop[0] and len(st.frames) == depth
                    for f in reversed(fs[1:]):
                        work.append(st.copy(f))
                        if again:           # still at the head, not back at it
                            first.add(id(work[-1]))
                    if not fs:
                        break
                    st.facts = fs[0]
                    if again:
                        first.add(id(st))
                    continue
                except (Unsupported, AttributeError, IndexError, TypeError, KeyError, ValueError, AssertionError) as e:
                    why = str(e) if e.__class__ is Unsupported else 'a value of another shape than expected (%s: %s)' % (
                        e.__class__.__name__, e)
                    if TB and why not in self.unsupported:
                        print('UNSUPPORTED', why, [f.fn.path[-60:] for f in st.frames[-4:]], st.bb)
                        if e.__class__ is not Unsupported:
                            traceback.print_exc()
                    self.unsupported[why] = self.unsupported.get(why, 0) + 1
                    self.report(st, 'unsupported', why)
                    self.look_at(st)
                    if not st.taint:
                        st.taint = why
                    if self.debug_unsupported:
                        raise
                    break
                if r is None:
                    break
                if r is not st:
                    work.extend(r)
                    break
        return out

    def look_at(self, st):
        """the loops of the same function that this path went through"""
        fn = self.site(st, None)[0]
        for e in st.events():
            if e[0] == 'loop':
                r = e[1]
                if next((f.fn for f in reversed(r.frames) if f.fn.local), None) is fn:
                    self.focus.add((r.uid, r.bb))
            elif e[0] == 'head':
                f = UIDFN.get(e[1][0])
                if f is fn or f is not None and not f.local:
                    self.focus.add(e[1][:2])

    debug_unsupported = False
    trace_loops = False
    trace_unroll = False
    sampling = False

    def block(self, st):
        """executes from st.pc to the end of the block; None when the path ends"""
        fr = st.frames[-1]
        fn = fr.fn
        b = fn.blocks[st.bb]
        self.stats['blocks'] += 1
        if self.stats['blocks'] > self.maxblocks:
            raise Undecided('more blocks to follow than the analysis allows')
        stmts = b[0]
        uid = fr.uid
        cells = st.cells
        i = st.pc
        n = len(stmts)
        while i < n:
            s = stmts[i]
            k = s[0]
            if k == '=':
                st.pc = i
                v = self.rvalue(st, s[2], s[3])
                pl = s[1]
                if not pl[1]:
                    st.cells[(uid, pl[0])] = v
                else:
                    cell, proj = self.place(st, pl)
                    self.store(st, cell, proj, v)
            elif k == 'live':
                pass
            elif k == 'dead':
                pass
            elif k == 'setd':
                st.pc = i
                cell, proj = self.place(st, s[1])
                old = self.load(st, cell, proj)
                if not (old.__class__ is Agg and old.var == s[2]):
                    raise Unsupported('set discriminant')
            elif k == 'assume':
                st.pc = i
                c = self.operand(st, s[1])
                if c.__class__ is Cnd:
                    fs = assume(st.facts, c)
                    if len(fs) == 1:
                        st.facts = fs[0]
                    else:
                        st.pc = i + 1
                        raise ForkOn(fs)
            elif k == 'copyno':
                raise Unsupported('copy_nonoverlapping')
            else:
                raise Unsupported('statement ' + k)
            i += 1
        st.pc = n
        t = b[1]
        k = t[0]
        if k == 'goto':
            st.bb = t[1]
            st.pc = 0
            return st
        if k == 'switch':
            return self.switch(st, t)
        if k == 'call':
            return self.call(st, t)
        if k == 'return':
            return self.ret(st)
        if k == 'drop':
            st.bb = t[2]
            st.pc = 0
            return st
        if k == 'assert':
            return self.do_assert(st, t)
        if k == 'unreachable':
            return None
        if k == 'resume':
            return None
        raise Unsupported('terminator ' + str(t[:2]))

    def switch(self, st, t):
        v = self.operand(st, t[1])
        c = v.__class__
        if c is bool or c is Cnd:
            x = decide(st, v)
            x = 1 if x else 0
            for val, bb in t[3]:
                if val == x:
                    st.bb = bb
                    st.pc = 0
                    return st
            st.bb = t[4]
            st.pc = 0
            return st
        if c is Havoc:
            out = []
            for bb in [b for _, b in t[3]] + [t[4]]:
                s = st.copy()
                s.bb = bb
                s.pc = 0
                out.append(s)
            return out
        if c is not Lin:
            raise Unsupported('switch on %r' % (v,))
        f = st.facts
        v = f.norm(v)
        if not v.t:
            for val, bb in t[3]:
                if val == v.c:
                    st.bb = bb
                    st.pc = 0
                    return st
            st.bb = t[4]
            st.pc = 0
            return st
        fs = []
        # single small atom: split its domain
        if len(v.t) == 1 and ATOMS[v.t[0][0]].small:
            a, w = v.t[0]
            m = f.mask(a)
            img = {}
            for x in mask_vals(m):
                y = wval(w, x) + v.c
                img[y] = img.get(y, 0) | (1 << x)
            rest = m
            groups = {}
            for val, bb in t[3]:
                q = img.get(val, 0)
                if q & rest:
                    groups.setdefault(bb, []).append((val, q & rest))
                    rest &= ~q
            todo = []
            for bb, l in groups.items():
                for val, q in l:
                    todo.append((bb, q))
            if rest:
                todo.append((t[4], rest))
            if len(todo) == 1:
                st.bb = todo[0][0]
                st.pc = 0
                return st
            out = []
            self.stats['forks'] += 1
            self.stats['states'] += len(todo) - 1
            for bb, q in todo:
                g = f.copy()
                if g.restrict(a, q):
                    s = st.copy(g)
                    s.bb = bb
                    s.pc = 0
                    out.append(s)
            return out
        self.typed(f, v, t[2])
        out = []
        g0 = f
        for val, bb in t[3]:
            g = g0.copy()
            if not g0.nonzero(v - val) and g.add_eq(v - val):
                s = st.copy(g)
                s.bb = bb
                s.pc = 0
                out.append(s)
                g1 = g0.copy()
                if not g1.add_ne(v - val):
                    g0 = None
                    break
                g0 = g1
        if g0 is not None:
            s = st.copy(g0.copy())
            s.bb = t[4]
            s.pc = 0
            out.append(s)
        return out

    def do_assert(self, st, t):
        c = self.operand(st, t[1])
        if not t[2]:
            c = c_not(c) if c.__class__ is not Havoc else c
        if c.__class__ is Havoc:
            self.oblige(st, t[3], t[6], False)
            self.report(st, 'panic', 'cannot show that this cannot fail: ' + t[3], t[6])
            st.bb = t[5]
            st.pc = 0
            return st
        r = tri(st.facts, c)
        st.bb = t[5]
        st.pc = 0
        if r is True:
            self.oblige(st, t[3], t[6], True)
            return st
        # it may fail on this path
        fs = assume(st.facts, c_not(c))
        self.oblige(st, t[3], t[6], not fs)
        if fs:
            self.panic(st, t[3], t[6])
        if r is False:
            return None
        out = []
        for g in assume(st.facts, c):
            s = st.copy(g)
            out.append(s)
        return out

    def panic(self, st, what, line=None, loose=False):
        self.report(st, 'panic', what, line, loose)

    def require(self, st, c, what, line=None, loose=False):
        """condition whose failure is a panic of a modelled call; continues with it assumed (loose: it depends
        on lengths in bytes)"""
        r = tri(st.facts, c)
        if r is True:
            self.oblige(st, what, line, True)
            return
        fs = assume(st.facts, c_not(c))
        self.oblige(st, what, line, not fs)
        if fs:
            self.panic(st, what, line, loose)
        fs = assume(st.facts, c)
        if len(fs) == 1:
            st.facts = fs[0]
            return
        raise ForkOn(fs)

    def ret(self, st):
        fr = st.frames[-1]
        uid = fr.uid
        snap = (st.frames, dict(st.cells), st.bb, st.pc) if fr.cont is not None else None
        v = st.cells.get((uid, 0))
        if v is None:
            rt = fr.fn.locals[0]
            if self.T[rt]['k'] == 'tuple':
                v = Agg(rt, None, ())
        if len(st.frames) > 1 or True:
            for l in range(fr.fn.nlocals):
                st.cells.pop((uid, l), None)
        st.frames = st.frames[:-1]
        if fr.cont is not None:
            st.bb = fr.target
            st.pc = 0
            try:
                return fr.cont(self, st, v)
            except ForkOn:
                # the return is taken again
                st.frames, st.cells, st.bb, st.pc = snap
                raise
        if not st.frames:
            st.cells['ret'] = v
            return st
        if fr.dest is not None:
            self.store(st, fr.dest[0], fr.dest[1], v)
        st.bb = fr.target
        st.pc = 0
        return st

    def push(self, st, fn, args, dest, target, line, cont=None, key=None):
        """enter fn"""
        fn.prep()
        if not fn.loops:
            raise Unsupported('irreducible control flow in ' + fn.path)
        top = st.frames[-1]
        for fr in st.frames:
            if fr.fn is fn:
                d = sum(1 for x in st.frames if x.fn is fn)
                if d >= 3 or fn.local:
                    raise Unsupported('recursion through ' + fn.path)
        uid = uid_of((top.uid, st.bb, fn.id, key))
        UIDFN[uid] = fn
        self.stats['calls'] += 1
        self.stats['fns'].add(fn.id)
        st.frames = st.frames + (Frame(uid, fn, dest, target, cont, line),)
        for i, a in enumerate(args):
            st.cells[(uid, i + 1)] = a
        st.bb = 0
        st.pc = 0
        return st

    # ------------------------------------------------------------ calls
    def call(self, st, t):
        fj = t[1]
        args = [self.operand(st, a) for a in t[2]]
        line = t[6]
        if 'invoke' in fj:
            uid = st.frames[-1].uid
            return self.invoke(st, Ref((uid, fj['invoke']), ()), args, self.place(st, t[3]), t[4], line)
        if 'ptr' in fj:
            fv = self.operand(st, fj['ptr'])
            return self.call_value(st, fv, args, t)
        fid = fj['fn_']
        fn = self.p.fns[fid] if fid is not None else None
        return self.call_fn(st, fn, fj['decl'], fj['targs'], args, t, line)

    def call_value(self, st, fv, args, t):
        if fv.__class__ is Fnv and fv.fn is not None:
            fn = self.p.fns[fv.fn]
            return self.call_fn(st, fn, fn.decl, self.T[fv.ty].get('targs', []), args, t, t[6])
        raise Unsupported('call of an unknown function value')

    def model_of(self, fn, decl):
        k = (fn.id if fn else None, decl)
        if k in self._model_of:
            return self._model_of[k]
        m = None
        if fn is not None:
            m = self.models.get(fn.path)
        if m is None and not (fn is not None and fn.local):
            m = self.models.get(decl)
            if m is None:
                for p, h in self.prefix:
                    if (fn is not None and fn.path.startswith(p)) or decl.startswith(p):
                        m = h
                        break
        self._model_of[k] = m
        return m

    def call_fn(self, st, fn, decl, targs, args, t, line):
        from models import Call
        if fn is not None and fn.id in self.nts:
            return self.nts[fn.id].call(self, st, fn, args, t)
        m = self.model_of(fn, decl)
        dest = t[3]
        target = t[4]
        if m is not None:
            ty = t[5]
            c = Call(self, st, fn, decl, targs, args, t, line)
            r = m(c)
            if r is NotImplemented:
                pass
            else:
                return self.finish_model(st, c, r)
        if fn is not None and fn.rec.get('stopped'):
            if self.synth is None:
                self.synth = self.p.synth = self.p.synth or synth.Synth(self.p)
            g = self.synth.get(fn, decl, targs, t[5])
            if g is not None:
                return self.push(st, g, args, self.place(st, dest), target, line)
        if fn is not None and fn.body is not None:
            d = self.place(st, dest)
            if target is None:
                if fn.krate != 'jbcrs' and ('panic' in fn.path or 'unwrap_failed' in fn.path or 'expect_failed' in fn.path):
                    self.panic(st, 'call of ' + fn.path, line)
                    return None
            spread_args = args
            if fn.spread is not None:
                # closure-call ABI: last argument is a tuple
                pass
            if decl.startswith('core::ops::function::Fn') and len(args) == 2 and fn.argc != 2 or (decl.startswith('core::ops::function::Fn') and fn.decl != decl):
                tup = args[1]
                rest = tup.f if tup.__class__ is Agg else ()
                if self.T[fn.locals[1]]['k'] != 'tuple' and '{closure' in fn.path:
                    selfv = args[0]
                    # by-ref closures called by value
                    if self.T[fn.locals[1]]['k'] == 'ref' and selfv.__class__ is Agg:
                        cell = ('cl', uid_of((st.frames[-1].uid, st.bb, 'clo')))
                        st.cells[cell] = selfv
                        selfv = Ref(cell, ())
                    spread_args = [selfv] + list(rest)
                else:
                    spread_args = list(rest)
            return self.push(st, fn, spread_args, d, target, line)
        if target is None:
            self.panic(st, 'call of ' + (fn.path if fn else decl), line)
            return None
        if fn is not None and fn.kind == 'shim':
            return self.call_shim(st, fn, decl, args, t)
        if fn is not None and fn.rec.get('ctor'):
            return self.finish_model(st, Call(self, st, fn, decl, targs, args, t, line), self.ctor(fn, t[5], args))
        why = 'no model of ' + (fn.path if fn else decl)
        v = self.havoc(st, t[5], why)
        self.havoc_args(st, args, why)
        cell, proj = self.place(st, dest)
        self.store(st, cell, proj, v)
        st.bb = target
        st.pc = 0
        return st

    def call_shim(self, st, fn, decl, args, t):
        # FnOnce::call_once of a closure or function item
        a0 = args[0] if args else None
        tup = args[1] if len(args) > 1 else None
        rest = list(tup.f) if tup.__class__ is Agg else []
        return self.invoke(st, a0, rest, self.place(st, t[3]), t[4], t[6])

    def invoke(self, st, f, args, dest, target, line, cont=None, key=None):
        """call the closure / function value f"""
        byref = None
        x = f
        while x.__class__ is Ref:
            byref = x
            x = self.load(st, x.cell, x.proj)
        if x.__class__ is Fnv:
            fn = self.p.fns[x.fn] if x.fn is not None else None
            if fn is None:
                raise Unsupported('call of unresolved ' + str(x.path))
            if fn.rec.get('ctor') or fn.body is None or self.model_of(fn, fn.decl):
                return self.invoke_leaf(st, fn, x, args, dest, target, line, cont)
            return self.push(st, fn, args, dest, target, line, cont, key)
        if x.__class__ is Agg and self.T[x.ty]['k'] == 'closure':
            fn = self.p.fns[self.T[x.ty]['fn_']]
            selfv = x
            fn.prep()
            if self.T[fn.locals[1]]['k'] == 'ref':
                if byref is not None:
                    selfv = byref
                else:
                    cell = ('cl', uid_of((st.frames[-1].uid, st.bb, 'clo', key)))
                    st.cells[cell] = x
                    selfv = Ref(cell, ())
            return self.push(st, fn, [selfv] + list(args), dest, target, line, cont, key)
        raise Unsupported('call of %r' % (f,))

    def invoke_leaf(self, st, fn, fv, args, dest, target, line, cont):
        from models import Call
        m = self.model_of(fn, fn.decl)
        rt = self.fn_ret(fn)
        if fn.rec.get('ctor'):
            v = self.ctor(fn, rt, args)
        elif m is not None:
            t = ['call', None, [], None, target, rt, line]
            c = Call(self, st, fn, fn.decl, self.T[fv.ty].get('targs', []), args, t, line)
            c.noframe = True
            v = m(c)
            if v is NotImplemented or v.__class__ is State or v.__class__ is list:
                raise Unsupported('function value ' + fn.path)
        else:
            raise Unsupported('function value ' + fn.path)
        if cont is not None:
            st.bb = target
            st.pc = 0
            return cont(self, st, v)
        self.store(st, dest[0], dest[1], v)
        st.bb = target
        st.pc = 0
        return st

    def fn_ret(self, fn):
        if fn.body:
            return fn.locals[0]
        return None

    def ctor(self, fn, ty, args):
        """tuple struct / variant constructor used as a function"""
        name = fn.path.split('::')[-1]
        if fn.body is not None and ty is None:
            ty = fn.locals[0]
        t = self.T[ty]
        if t['kind'] == 'enum':
            for i, v in enumerate(t['variants']):
                if v['name'] == name:
                    return Agg(ty, i, tuple(args))
        return Agg(ty, None, tuple(args))

    def havoc_args(self, st, args, why):
        for a in args:
            if a.__class__ is Ref:
                try:
                    old = self.load(st, a.cell, a.proj)
                except Unsupported:
                    continue

    def finish_model(self, st, c, r):
        if r is None or r.__class__ is list:
            return r
        if r.__class__ is State:
            return r
        t = c.t
        if t[4] is None:
            return None
        pl = t[3]
        if not pl[1]:
            st.cells[(st.frames[-1].uid, pl[0])] = r
        else:
            cell, proj = self.place(st, pl)
            self.store(st, cell, proj, r)
        st.bb = t[4]
        st.pc = 0
        return st

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, line):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref' or k == 'raw':
            return self.take_ref(st, r[1])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4], r[5], line)
        if k == 'un':
            v = self.operand(st, r[2])
            return self.unop(st, r[1], v, r[3])
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == 'discr':
            cell, proj = self.place(st, r[1])
            if not proj and self.getcell(st, cell) is None and self.T[r[2]]['k'] == 'adt':
                m = list(mask_vals(self.discr_mask(r[2])))
                if len(m) == 1 and not self.T[r[2]]['variants'][m[0]]['fields']:
                    # the only value of its type
                    d = self.T[r[2]]['variants'][m[0]]['discr']
                    return K(m[0] if d is None else d)
            v = self.load(st, cell, proj)
            return self.discr(st, v, r[2])
        if k == 'agg':
            a = r[1]
            ops = [self.operand(st, o) for o in r[2]]
            kk = a['k']
            if kk == 'adt':
                t = self.T[a['ty']]
                if t['kind'] == 'union':
                    return ops[0]
                return Agg(a['ty'], a['variant'] if t['kind'] == 'enum' else None, tuple(ops))
            if kk == 'tuple':
                return Agg(a.get('ty'), None, tuple(ops))
            if kk == 'array':
                return Lst(a.get('ty'), tuple(('e', o) for o in ops))
            if kk == 'closure':
                return Agg(a['ty'], None, tuple(ops))
            raise Unsupported('aggregate ' + kk)
        if k == 'rep':
            v = self.operand(st, r[1])
            n = r[2]
            if n is None or n > 4096:
                raise Unsupported('repeat')
            return Lst(None, tuple(('e', v) for _ in range(n)))
        if k == 'tls':
            raise Unsupported('thread local')
        raise Unsupported('rvalue ' + str(r[:2]))

    def discr(self, st, v, ty):
        c = v.__class__
        if c is Agg:
            t = self.T[v.ty]
            d = t['variants'][v.var]['discr']
            return K(v.var if d is None else d)
        if c is Opq:
            t = self.T[v.ty]
            a = self.discr_atom(v)
            ds = [x['discr'] for x in t['variants']]
            if all(d is None or d == i for i, d in enumerate(ds)):
                return st.facts.norm(A(a))
            tab = [0] * 256
            for i, d in enumerate(ds):
                tab[i] = d
            l = st.facts.norm(A(a))
            if not l.t:
                return K(tab[l.c])
            return from_table(a, tab)
        if c is Havoc:
            return Havoc(None, v.why)
        raise Unsupported('discriminant of %r' % (v,))

    def take_ref(self, st, pl):
        cell, proj = self.place(st, pl)
        if proj and proj[-1].__class__ is tuple and proj[-1][0] == 'sl':
            e = proj[-1]
            base = self.load(st, cell, proj[:-1])
            isstr = base.__class__ is Lst and base.ty.__class__ is int and self.is_list_ty(base.ty)[0] == 'str'
            return Sl(cell, proj[:-1], e[1], e[2], isstr)
        return Ref(cell, proj)

    def unop(self, st, op, v, ty):
        c = v.__class__
        if c is Havoc:
            return Havoc(ty, v.why)
        if op == 'Not':
            if c is bool or c is Cnd:
                return c_not(v)
            if c is Lin:
                lo, hi = self.int_range(ty)
                if lo == 0:
                    return K(hi) - v
                return (-v) - 1
        if op == 'Neg':
            if c is Lin:
                lo, hi = self.int_range(ty)
                return self.wrap(st, -v, ty)
            if c is Flt:
                return strmodels().float_neg(self, st, v)
        if op == 'PtrMetadata':
            if c is Sl:
                if v.str_:
                    from models import byte_len
                    return byte_len(self, st, v)
                return v.len
            if c is Ref:
                x = self.load(st, v.cell, v.proj)
                if x.__class__ is Lst:
                    return x.length()
                return Agg(None, None, ())
        raise Unsupported('unary %s of %r' % (op, v))

    def typed(self, f, v, ty):
        """an unsigned value is never negative: what lets "is not 0" mean "at least 1"."""
        if len(v.t) > 1 and self.T[ty]['k'] in ('int', 'char') and self.int_range(ty)[0] == 0 and not f.le(-v):
            f.add_le(-v)

    def wrap(self, st, v, ty):
        lo, hi = self.int_range(ty)
        f = st.facts
        if f.le(v - hi) and f.le(K(lo) - v):
            return v
        if decide(st, c_le(v - hi)):
            if decide(st, c_le(K(lo) - v)):
                return v
            return self.wrap(st, v + (hi - lo + 1), ty)
        return self.wrap(st, v - (hi - lo + 1), ty)

    def binop(self, st, op, a, b, ta, tb, line):
        ca, cb = a.__class__, b.__class__
        if ca is Havoc or cb is Havoc:
            w = a.why if ca is Havoc else b.why
            if op.endswith('WithOverflow'):
                return Agg(None, None, (Havoc(ta, w), Havoc(None, w)))
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return Havoc(None, w)
            return Havoc(ta, w)
        if (ca is bool or ca is Cnd) and (cb is bool or cb is Cnd):
            if op == 'BitAnd':
                return c_and([a, b])
            if op == 'BitOr':
                return c_or([a, b])
            if op in ('Eq', 'Ne', 'BitXor'):
                eq = op == 'Eq'
                if b is True or b is False:
                    return a if b == eq else c_not(a)
                if a is True or a is False:
                    return b if a == eq else c_not(b)
                x = decide(st, a)
                return b if x == eq else c_not(b)
        if ca is Flt and cb is Flt:
            if op not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return strmodels().float_op(self, st, op, a, b)
            x, y = st.facts.norm(a.bits), st.facts.norm(b.bits)
            if x.const and y.const:
                return strmodels().float_cmp(op, x.c, y.c, self.T[a.ty]['bits'])
            # unknown, but always the same for the same operands
            if op in ('Gt', 'Ge'):
                a, b, op = b, a, 'Lt' if op == 'Gt' else 'Le'
            x = c_eq(A(sym(('fcmp', 'Eq' if op == 'Ne' else op, st.facts.norm(a.bits), st.facts.norm(b.bits)), 0, 1)) - 1)
            return c_not(x) if op == 'Ne' else x
        if ca is not Lin or cb is not Lin:
            if ca in (Ref, Sl) and cb in (Ref, Sl) and op in ('Eq', 'Ne'):
                raise Unsupported('pointer comparison')
            raise Unsupported('%s of %r and %r' % (op, a, b))
        f = st.facts
        a = f.norm(a)
        b = f.norm(b)
        if op == 'Eq' or op == 'Ne':
            if a.t and not b.t:
                self.typed(f, a, ta)
            elif b.t and not a.t:
                self.typed(f, b, ta)
            return self.cmp_eq(a, b) if op == 'Eq' else c_not(self.cmp_eq(a, b))
        if op == 'Lt':
            return c_le(a - b + 1)
        if op == 'Le':
            return c_le(a - b)
        if op == 'Gt':
            return c_le(b - a + 1)
        if op == 'Ge':
            return c_le(b - a)
        if op == 'Cmp':
            d = a - b
            ot = None
            if decide(st, c_le(d + 1)):
                return self.ordering(-1)
            if decide(st, c_eq(d)):
                return self.ordering(0)
            return self.ordering(1)
        base = op[:-12] if op.endswith('WithOverflow') else (op[:-9] if op.endswith('Unchecked') else op)
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                v = a + b
            elif base == 'Sub':
                v = a - b
            elif not a.t:
                v = b.scale(a.c)
            elif not b.t:
                v = a.scale(b.c)
            else:
                v = self.op2(st, 'mul', a, b)
            if op.endswith('WithOverflow'):
                lo, hi = self.int_range(ta)
                ov = c_or([c_le(K(hi + 1) - v), c_le(v - lo + 1)])
                return Agg(None, None, (v, ov))
            if op.endswith('Unchecked'):
                return v
            return self.wrap(st, v, ta)
        return self.bitop(st, base, a, b, ta, tb)

    def ordering(self, n):
        ty = None
        for i, t in enumerate(self.T):
            if t['k'] == 'adt' and t['path'] == 'core::cmp::Ordering':
                ty = i
                break
        return Agg(ty, n + 1, ())

    def cmp_eq(self, a, b):
        d = a - b
        if not d.t:
            return d.c == 0
        # digits: several small atoms against a constant
        return c_eq(d)

    def op2(self, st, name, a, b, lo=None, hi=None):
        f = st.facts
        if name == 'mul':
            la, ha = f.bounds(a)
            lb, hb = f.bounds(b)
            if None not in (la, ha, lb, hb):
                ps = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(ps), max(ps)
        return A(sym(('op', name, a, b), lo, hi))

    def single(self, f, l):
        """l as a function of one small atom -> (atom, weight) or None"""
        if len(l.t) == 1 and ATOMS[l.t[0][0]].small:
            return l.t[0]
        return None

    def tabulate(self, f, l, fn):
        a, w = l.t[0]
        m = f.mask(a)
        tab = [0] * 256
        first = None
        c = l.c
        for x in range(256):
            if (m >> x) & 1:
                tab[x] = fn(wval(w, x) + c)
        # outside the feasible set: extend affinely when that keeps the table simple
        vals = mask_vals(m)
        if len(vals) >= 2:
            d = tab[vals[1]] - tab[vals[0]]
            g = vals[1] - vals[0]
            if d % g == 0:
                d //= g
                b = tab[vals[0]] - d * vals[0]
                if all(tab[x] == b + d * x for x in vals):
                    return Lin(b, ((a, d),)) if d else K(b)
        return from_table(a, tab)

    def bitop(self, st, op, a, b, ta, tb):
        f = st.facts
        lo, hi = self.int_range(ta)
        bits = (hi - lo + 1).bit_length() - 1
        signed = lo < 0

        def conc(x, y):
            if op == 'BitAnd':
                return x & y
            if op == 'BitOr':
                return x | y
            if op == 'BitXor':
                return x ^ y
            if op == 'Shl':
                r = (x << (y & (bits - 1))) & ((1 << bits) - 1)
                return r - (1 << bits) if signed and r >> (bits - 1) else r
            if op == 'Shr':
                return x >> (y & (bits - 1))
            if op == 'Div':
                q = abs(x) // abs(y) if y else 0
                return q if (x < 0) == (y < 0) else -q
            if op == 'Rem':
                if not y:
                    return 0
                r = abs(x) % abs(y)
                return r if x >= 0 else -r
            raise Unsupported(op)
        if not a.t and not b.t:
            return K(conc(a.c, b.c))
        if not b.t and self.single(f, a):
            return self.tabulate(f, a, lambda x: conc(x, b.c))
        if not a.t and self.single(f, b) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.tabulate(f, b, lambda x: conc(a.c, x))
        if not a.t and b.t and op in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = b, a
        la, ha = f.bounds(a)
        if not b.t:
            n = b.c
            if op == 'Shl':
                v = a.scale(1 << n)
                if f.le(v - hi) and f.le(K(lo) - v):
                    return v
                return self.reduce(st, v, bits, signed)
            if op == 'Shr' and la is not None and la >= 0:
                return self.divpow(st, a, n)
            if op == 'Div' and n > 0 and n & (n - 1) == 0 and la is not None and la >= 0:
                return self.divpow(st, a, n.bit_length() - 1)
            if op == 'Rem' and n > 0 and n & (n - 1) == 0 and la is not None and la >= 0:
                return self.modpow(st, a, n.bit_length() - 1)
            if op in ('Rem', 'Div') and n > 0 and la is not None and la >= 0:
                if ha is not None and ha < n:
                    return a if op == 'Rem' else ZERO
                m = self.modn(st, a, n)
                if op == 'Rem':
                    return m
                return self.divn(st, a, m, n)
            if op == 'BitAnd':
                if signed and n < 0:
                    n2 = n & ((1 << bits) - 1)
                else:
                    n2 = n
                if la is not None and la >= 0 and n2 >= 0:
                    # low mask
                    if n2 & (n2 + 1) == 0:
                        return self.modpow(st, a, n2.bit_length())
                    # split the mask into runs
                    return self.maskruns(st, a, n2, bits)
            if op in ('BitOr', 'BitXor') and n == 0:
                return a
            if op == 'BitXor' and n == hi and lo == 0:
                return K(hi) - a
            if op in ('BitOr', 'BitXor') and la is not None and la >= 0 and n > 0:
                # disjoint bits
                if self.disjoint(st, a, b):
                    return a + b
        else:
            if op in ('BitOr', 'BitXor') and self.disjoint(st, a, b):
                return a + b
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = (a, b) if (a.t, a.c) <= (b.t, b.c) or True else (b, a)
            self.inexact = True
            v = A(sym(('op', op, x, y), lo if signed else 0, hi))
            if op == 'BitAnd' and la is not None and la >= 0:
                f2 = st.facts
                f2.add_le(v - a)
                if not b.t and b.c >= 0:
                    f2.add_le(v - b)
            return v
        if op in ('Shl', 'Shr', 'Div', 'Rem'):
            self.inexact = True
            return A(sym(('op', op, a, b), lo, hi))
        raise Unsupported('operator ' + op)

    def gran(self, f, l):
        """largest power of two dividing every value of l (as exponent), for non-negative l"""
        g = l.c
        r = 64 if g == 0 else (g & -g).bit_length() - 1
        for a, w in l.t:
            if w.__class__ is int:
                e = (w & -w).bit_length() - 1
            else:
                e = 64
                for x in mask_vals(f.mask(a)):
                    y = w.v[x]
                    if y:
                        e = min(e, (y & -y).bit_length() - 1)
            r = min(r, e)
        return r

    def disjoint(self, st, a, b):
        f = st.facts
        for x, y in ((a, b), (b, a)):
            lo, hi = f.bounds(x)
            lo2, _ = f.bounds(y)
            if lo is not None and lo >= 0 and hi is not None and lo2 is not None and lo2 >= 0:
                if hi.bit_length() <= self.gran(f, y):
                    return True
        # interleaved digits: compare the bit sets of all single-atom parts
        pa, pb = self.bitset(f, a), self.bitset(f, b)
        return pa is not None and pb is not None and pa & pb == 0

    def bitset(self, f, l):
        """bits that can be set, if the parts of l do not overlap"""
        if l.c < 0:
            return None
        s = l.c
        for a, w in l.t:
            at = ATOMS[a]
            if at.small:
                m = 0
                for x in mask_vals(f.mask(a)):
                    y = wval(w, x)
                    if y < 0:
                        return None
                    m |= y
            else:
                lo, hi = f.rng(a)
                if lo is None or lo < 0 or hi is None or w.__class__ is not int or w <= 0 or w & (w - 1):
                    return None
                m = ((1 << hi.bit_length()) - 1) * w
            if s & m:
                return None
            s |= m
        return s

    def modpow(self, st, l, k):
        """l mod 2^k for l >= 0"""
        f = st.facts
        lo, hi = f.bounds(l)
        n = 1 << k
        if hi is not None and hi < n and lo is not None and lo >= 0:
            return l
        out = Lin(l.c % n)
        pend = []
        for a, w in l.t:
            if w.__class__ is int:
                w2 = w % n
                if w2 == 0:
                    continue
                out = out + Lin(0, ((a, w2),))
            else:
                out = out + from_table(a, tuple(x % n for x in w.v))
        lo, hi = f.bounds(out)
        if lo is not None and lo >= 0 and hi is not None and hi < n:
            return out
        s = self.single(f, out)
        if s:
            return self.tabulate(f, out, lambda x: x % n)
        # reduce each small atom's part separately when they are disjoint
        return self.modn(st, out, n)

    def modn(self, st, l, n):
        """l mod n: reduced, otherwise a fork over the residue of its base"""
        f = st.facts
        lo, hi = f.bounds(l)
        if lo is not None and hi is not None and lo // n == hi // n:
            return l - (lo // n) * n
        if n <= 16:
            base = Lin(0, l.t)
            red = []
            for a, w in base.t:
                if w.__class__ is int:
                    w2 = w % n
                    if w2:
                        red.append((a, w2))
                else:
                    red.append((a, w))
            base = Lin(0, tuple(red))
            if not base.t:
                return K(l.c % n)
            m = A(small(('mod', base, n), n))
            m = f.norm(m)
            if not m.t:
                return K((m.c + l.c) % n)
            fs = []
            a = m.t[0][0]
            for x in mask_vals(f.mask(a)):
                g = f.copy()
                if g.restrict(a, 1 << x):
                    fs.append(g)
            raise ForkOn(fs)
        return A(sym(('mod', l, n), 0, n - 1))

    def divpow(self, st, l, k):
        f = st.facts
        n = 1 << k
        s = self.single(f, l)
        if s:
            return self.tabulate(f, l, lambda x: x >> k)
        # split into a part divisible by 2^k and a remainder below 2^k
        hi_t, lo_t = [], []
        for a, w in l.t:
            if w.__class__ is int and w % n == 0:
                hi_t.append((a, w // n))
            else:
                lo_t.append((a, w))
        c = l.c
        rem = Lin(c % n, tuple(lo_t))
        lo, hi = f.bounds(rem)
        if lo is not None and lo >= 0 and hi is not None and hi < n:
            return Lin(c // n, tuple(hi_t))
        if len(lo_t) == 1 and ATOMS[lo_t[0][0]].small:
            q = self.tabulate(f, Lin(c % n, tuple(lo_t)), lambda x: x >> k)
            # valid when the low parts do not carry: rem>>k counted exactly
            return Lin(c // n, tuple(hi_t)) + q
        m = self.modn(st, l, n)
        return self.divn(st, l, m, n)

    def divn(self, st, l, m, n):
        f = st.facts
        lo, hi = f.bounds(l)
        q = A(sym(('div', l, n), None if lo is None else lo // n, None if hi is None else hi // n))
        f.add_eq(l - m - q.scale(n))
        return f.norm(q)

    def maskruns(self, st, a, n, bits):
        out = ZERO
        i = 0
        while i < bits:
            if (n >> i) & 1:
                j = i
                while j < bits and (n >> j) & 1:
                    j += 1
                x = self.modpow(st, a, j)
                if i:
                    x = x - self.modpow(st, a, i)
                out = out + x
                i = j
            else:
                i += 1
        return out

    def reduce(self, st, v, bits, signed):
        """v modulo 2^bits, as a value of the (un)signed type"""
        f = st.facts
        n = 1 << bits
        out = Lin(v.c % n)
        for a, w in v.t:
            if w.__class__ is int:
                w2 = w % n
                if w2:
                    out = out + Lin(0, ((a, w2),))
            else:
                out = out + from_table(a, tuple(x % n for x in w.v))
        lo, hi = f.bounds(out)
        if not (lo is not None and lo >= 0 and hi is not None and hi < n):
            if self.single(f, out):
                out = self.tabulate(f, out, lambda x: x % n)
            else:
                # maybe negative coefficients: sign-extended digit tables
                o2 = self.fixdigits(f, v, n)
                if o2 is not None:
                    out = o2
                else:
                    lo, hi = f.bounds(v)
                    if lo is not None and hi is not None and hi - lo < 4 * n:
                        k = 0
                        for q in range(lo // n, hi // n + 1):
                            if decide(st, c_and([c_le(K(q * n) - v), c_le(v - (q * n + n - 1))])):
                                out = v - q * n
                                break
                    else:
                        out = A(sym(('trunc', v, bits), 0, n - 1))
        if signed:
            return self.to_signed(st, out, bits)
        return out

    def fixdigits(self, f, v, n):
        """sum of digit functions where one digit is sign-extended"""
        out = Lin(v.c % n)
        for a, w in v.t:
            if not ATOMS[a].small:
                return None
            out = out + self.tabulate(f, Lin(0, ((a, w),)), lambda x: x % n)
        lo, hi = f.bounds(out)
        if lo is not None and lo >= 0 and hi < n:
            return out
        return None

    def to_signed(self, st, v, bits):
        """reinterpret 0 <= v < 2^bits as signed"""
        f = st.facts
        half = 1 << (bits - 1)
        n = 1 << bits
        if f.le(v - (half - 1)):
            return v
        if f.le(K(half) - v):
            return v - n
        if self.single(f, v):
            return self.tabulate(f, v, lambda x: x - n if x >= half else x)
        # top digit
        best = None
        for a, w in v.t:
            if ATOMS[a].small:
                rest = Lin(v.c, tuple(x for x in v.t if x[0] != a))
                lo, hi = f.bounds(rest)
                vals = [wval(w, x) for x in mask_vals(f.mask(a))]
                if lo is not None and lo >= 0 and hi is not None:
                    if all((y >= half) == (y + hi >= half) for y in vals):
                        tb = self.tabulate(f, Lin(0, ((a, w),)), lambda y: y - n if y >= half else y)
                        return rest + tb
        if decide(st, c_le(v - (half - 1))):
            return v
        return v - n

    def cast(self, st, kind, v, ta, tb):
        c = v.__class__
        if kind in ('IntToInt',):
            if c is bool or c is Cnd:
                if v is True or v is False:
                    return ONE if v else ZERO
                if v.op == 'ne' and len(v.a.t) == 1 and v.a.t[0][1] == 1 and v.a.c == 0 and ATOMS[v.a.t[0][0]].hi == 1:
                    return v.a
                return ONE if decide(st, v) else ZERO
            if c is Havoc:
                return Havoc(tb, v.why)
            if c is Agg or c is Opq:
                v = self.discr(st, v, ta)
            return self.int_cast(st, v, tb)
        if c is Havoc:
            return Havoc(tb, v.why)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                if c is Ref:
                    x = self.load(st, v.cell, v.proj)
                    if x.__class__ is Lst:
                        return Sl(v.cell, v.proj, ZERO, x.length())
                return v
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind or 'MutToConstPointer' in kind or 'UnsafeFnPointer' in kind:
                return v
        if kind in ('PtrToPtr', 'Transmute', 'FnPtrToPtr', 'Subtype'):
            if c is Ref or c is Sl:
                return v
            ka, kb = self.T[ta]['k'], self.T[tb]['k']
            if c is Lin and kb in ('int', 'char'):
                if ka == 'int' and kb == 'int':
                    return self.int_cast(st, v, tb)
                return v
            if c is Lin and kb == 'float':
                return Flt(v, tb)
            if c is Flt and kb == 'int':
                return self.int_cast(st, v.bits, tb)
            if c is Agg and len(v.f) == 1:
                return self.cast(st, kind, v.f[0], self.field_ty(v.ty, v.var, 0), tb)
            if ta == tb:
                return v
            if self.T[tb]['k'] == 'adt' and c is Lin and self.nfields(tb) == 1:
                return Agg(tb, None, (self.cast(st, kind, v, ta, self.field_ty(tb, None, 0)),))
            if c is Lst and kb == 'int':
                pass
        if kind in ('FloatToInt', 'FloatToFloat') and c is Flt or kind == 'IntToFloat' and c is Lin:
            return strmodels().float_cast(self, st, kind, v, tb)
        raise Unsupported('cast %s %s -> %s of %r' % (kind, self.T[ta]['s'], self.T[tb]['s'], v))

    def int_cast(self, st, v, tb):
        if v.__class__ is not Lin:
            raise Unsupported('int cast of %r' % (v,))
        lo, hi = self.int_range(tb)
        f = st.facts
        v = f.norm(v)
        if f.le(v - hi) and f.le(K(lo) - v):
            return v
        bits = (hi - lo + 1).bit_length() - 1
        return self.reduce(st, v, bits, lo < 0)


UIDFN = {}
