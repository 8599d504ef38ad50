"""Abstract values."""
from lin import *


class Agg:
    """struct / enum variant / tuple / closure / Box / Rc"""
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f

    def __repr__(self):
        return 'Agg(%s,%s,%s)' % (self.ty, self.var, list(self.f))


class Opq:
    """an unexpanded unknown value, identified by sym"""
    __slots__ = ('sym', 'ty')

    def __init__(self, sym, ty):
        self.sym = sym
        self.ty = ty

    def __repr__(self):
        return 'Opq(%s:%s)' % (show_name(self.sym), self.ty)


class Flt:
    __slots__ = ('bits', 'ty')

    def __init__(self, bits, ty):
        self.bits = bits
        self.ty = ty

    def __repr__(self):
        return 'Flt(%s)' % (self.bits,)


class Ref:
    __slots__ = ('cell', 'proj')

    def __init__(self, cell, proj=()):
        self.cell = cell
        self.proj = proj

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.cell, self.proj)


class Sl:
    """slice or str reference: window of the list at (cell, proj)"""
    __slots__ = ('cell', 'proj', 'off', 'len', 'str_')

    def __init__(self, cell, proj, off, ln, str_=False):
        self.cell = cell
        self.proj = proj
        self.off = off
        self.len = ln
        self.str_ = str_

    def __repr__(self):
        return 'Sl(%s,%s,%s..+%s)' % (self.cell, self.proj, self.off, self.len)


class Lst:
    """sequence: Vec, String (of chars), array, slice contents, map entries in insertion order.
    segs: ('e', v) | ('s', sym, len, elty) | ('in', obj, pos, len) | ('t', tuple of ints)"""
    __slots__ = ('ty', 'segs', 'tag', '_len')

    def __init__(self, ty, segs, tag=None):
        self.ty = ty
        self.segs = segs
        self.tag = tag
        self._len = None

    def length(self):
        l = self._len
        if l is None:
            l = ZERO
            for s in self.segs:
                l = l + seglen(s)
            self._len = l
        return l

    def __repr__(self):
        return 'Lst%s' % (list(self.segs),)


def seglen(s):
    k = s[0]
    if k == 'e':
        return ONE
    if k == 's':
        return s[2]
    if k == 'in':
        return s[3]
    return K(len(s[1]))


class Fnv:
    __slots__ = ('ty', 'fn', 'path')

    def __init__(self, ty, fn, path):
        self.ty = ty
        self.fn = fn
        self.path = path

    def __repr__(self):
        return 'Fn(%s)' % self.path


class Havoc:
    __slots__ = ('ty', 'why')

    def __init__(self, ty, why):
        self.ty = ty
        self.why = why

    def __repr__(self):
        return 'Havoc(%s)' % self.why


class Cnd:
    """lazy boolean: ('le',L) L<=0 | ('eq',L) | ('ne',L) | ('and',cs) | ('or',cs) | ('streq', sym, text, pos)"""
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __repr__(self):
        return '%s(%s)' % (self.op, self.a)


def c_le(l):
    return (l.c <= 0) if not l.t else Cnd('le', l)


def c_eq(l):
    return (l.c == 0) if not l.t else Cnd('eq', l)


def c_ne(l):
    return (l.c != 0) if not l.t else Cnd('ne', l)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    o = c.op
    if o == 'le':
        return c_le((-c.a) + 1)
    if o == 'eq':
        return Cnd('ne', c.a)
    if o == 'ne':
        return Cnd('eq', c.a)
    if o == 'and':
        return c_or([c_not(x) for x in c.a])
    if o == 'or':
        return c_and([c_not(x) for x in c.a])
    if o == 'streq':
        return Cnd('streq', (c.a[0], c.a[1], not c.a[2]))
    if o == 'unk':
        return Cnd('unk', (c.a[0], not c.a[1]))
    raise ValueError(o)


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cnd('and', tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.op == 'or':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cnd('or', tuple(out))


def bool_lin(b):
    """0/1 constants or None"""
    if b is True:
        return ONE
    if b is False:
        return ZERO
    return None


class ForkOn(Exception):
    def __init__(self, facts):
        self.facts = facts


class Unsupported(Exception):
    pass


class Undecided(Exception):
    """nothing can be said about the property"""


def tri(f, c):
    """three-valued truth of condition c under facts f"""
    if c is True or c is False:
        return c
    o = c.op
    if o == 'le':
        if f.le(c.a):
            return True
        if f.le((-c.a) + 1):
            return False
        return None
    if o == 'eq':
        if f.eq(c.a):
            return True
        if f.nonzero(c.a):
            return False
        return None
    if o == 'ne':
        if f.nonzero(c.a):
            return True
        if f.eq(c.a):
            return False
        return None
    if o == 'and':
        r = True
        for x in c.a:
            t = tri(f, x)
            if t is False:
                return False
            if t is None:
                r = None
        return r
    if o == 'or':
        r = False
        for x in c.a:
            t = tri(f, x)
            if t is True:
                return True
            if t is None:
                r = None
        return r
    if o == 'streq':
        sym_, text, pos = c.a
        k = f.strs.get(sym_)
        if k is None:
            return None
        if k[0] == '=':
            return (k[1] == text) == pos
        if text in k[1]:
            return not pos
        return None
    if o == 'unk':
        k = f.strs.get(('unk', c.a[0]))
        if k is None:
            return None
        return k == c.a[1]
    raise ValueError(o)


# decisions on quantities that are not related exactly to the text they come from are noted (descriptors)
VAGUE = None
_vague = {}


def vague_key(k):
    if k.__class__ is tuple:
        return any(vague_key(x) for x in k)
    if k.__class__ is Lin:
        return vague(k)
    return k in VAGUE if k.__class__ is str else False


def vague(l):
    for a, _ in l.t:
        v = _vague.get(a)
        if v is None:
            v = _vague[a] = vague_key(ATOMS[a].key)
        if v:
            return True
    return False


def assume(f, c):
    """facts extended with c: a list (disjunction); f is not modified"""
    if c is True:
        return [f]
    if c is False:
        return []
    o = c.op
    if o == 'and':
        fs = [f]
        for x in c.a:
            fs = [h for g in fs for h in assume(g, x)]
        return fs
    if o == 'or':
        # make the disjuncts exclusive
        out = []
        cur = [f]
        for x in c.a:
            nxt = []
            for g in cur:
                out.extend(assume(g, x))
                nxt.extend(assume(g, c_not(x)))
            cur = nxt
        return out
    g = f.copy()
    if o == 'le':
        ok = g.add_le(c.a)
    elif o == 'eq':
        ok = g.add_eq(c.a)
    elif o == 'ne':
        ok = g.add_ne(c.a)
    elif o == 'streq':
        s, text, pos = c.a
        k = g.strs.get(s)
        ok = True
        if k is not None and k[0] == '=':
            ok = (k[1] == text) == pos
        elif pos:
            if k is not None and text in k[1]:
                ok = False
            g.strs[s] = ('=', text)
        else:
            g.strs[s] = ('!', (k[1] if k else frozenset()) | {text})
    elif o == 'unk':
        k = g.strs.get(('unk', c.a[0]))
        ok = k is None or k == c.a[1]
        g.strs[('unk', c.a[0])] = c.a[1]
    else:
        raise ValueError(o)
    if VAGUE is not None and (o == 'unk' or o == 'streq' or vague(c.a)):
        g.strs['vague'] = True
    return [g] if ok else []


def decide(st, c):
    t = tri(st.facts, c)
    if t is not None:
        return t
    a = assume(st.facts, c)
    b = assume(st.facts, c_not(c))
    if not b:
        if len(a) == 1:
            st.facts = a[0]
            return True
    if not a:
        if len(b) == 1:
            st.facts = b[0]
            return False
    raise ForkOn(a + b)


def isrep(sym):
    """the same element over and over"""
    return sym.__class__ is tuple and len(sym) == 2 and sym[0] == 'rep'
