"""Models of the standard-library primitives the crate is built from.  Everything that is not
listed here is interpreted from its own MIR.  A model returns a value, a state / list of
states, None (the path ends), or NotImplemented (interpret the MIR)."""
from lin import *
import vals
from vals import *

MODELS = {}
PREFIX = []


class Call:
    __slots__ = ('ip', 'st', 'fn', 'decl', 'targs', 'args', 't', 'line', 'noframe')

    def __init__(self, ip, st, fn, decl, targs, args, t, line):
        self.ip = ip
        self.st = st
        self.fn = fn
        self.decl = decl
        self.targs = targs
        self.args = args
        self.t = t
        self.line = line
        self.noframe = False

    @property
    def ty(self):
        return self.t[5]

    @property
    def path(self):
        return self.fn.path if self.fn is not None else self.decl

    def target(self, i=0):
        """(cell, proj, value) the reference argument i finally points to"""
        ip, st = self.ip, self.st
        r = self.args[i]
        n = 0
        while True:
            if r.__class__ is Ref:
                v = ip.load(st, r.cell, r.proj)
                if v.__class__ is Ref or v.__class__ is Sl:
                    r = v
                    continue
                return r.cell, r.proj, v
            if r.__class__ is Sl:
                return r.cell, r.proj, r
            return None, None, r

    def slice(self, i=0):
        return to_slice(self.ip, self.st, self.args[i])

    def unit(self):
        return Agg(self.ty, None, ())

    def some(self, v, ty=None):
        return Agg(self.ty if ty is None else ty, 1, (v,))

    def none(self, ty=None):
        return Agg(self.ty if ty is None else ty, 0, ())

    def ok(self, v):
        return Agg(self.ty, 0, (v,))

    def err(self, v):
        return Agg(self.ty, 1, (v,))

    def decide(self, c):
        if c.__class__ is Havoc:
            raise Unsupported('decision on unknown value: ' + c.why)
        return decide(self.st, c)

    def setl(self, i, segs):
        cell, proj, v = self.target(i)
        self.ip.store(self.st, cell, proj, Lst(v.ty, tuple(segs), v.tag))


def to_slice(ip, st, r):
    """Sl for a (reference to a) Vec / array / slice / String / str"""
    n = 0
    while True:
        if r.__class__ is Sl:
            return r
        if r.__class__ is Ref:
            v = ip.load(st, r.cell, r.proj)
            if v.__class__ is Lst:
                isstr = v.ty.__class__ is int and (ip.is_list_ty(v.ty) or (0,))[0] == 'str'
                return Sl(r.cell, r.proj, ZERO, v.length(), isstr)
            if v.__class__ is Agg and v.ty.__class__ is int and ip.is_box(v.ty):
                r = Ref(r.cell, r.proj + ('*',))
                continue
            if v.__class__ is Opq and ip.is_box(v.ty):
                r = Ref(r.cell, r.proj + ('*',))
                continue
            r = v
            continue
        if r.__class__ is Agg and r.ty.__class__ is int and ip.is_box(r.ty) and r.f[0].__class__ in (Sl, Ref):
            r = r.f[0]
            continue
        if r.__class__ is Havoc:
            raise Unsupported('slice of unknown value: ' + r.why)
        raise Unsupported('not a slice: %r' % (r,))


def contents(ip, st, s):
    """the list a slice shows"""
    base = ip.load(st, s.cell, s.proj)
    return ip.sublist(st, base, s.off, s.len)


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def prefix(*ps):
    def deco(f):
        for p in ps:
            PREFIX.append((p, f))
        return f
    return deco


# ------------------------------------------------------------------ ? operator
@model('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch',
       '<core::option::Option<T> as core::ops::try_trait::Try>::branch')
def try_branch(c):
    v = c.args[0]
    if v.__class__ is Havoc:
        return havoc_enum(c, v)
    ip, st = c.ip, c.st
    var = ip.variant_of(st, v)
    if v.__class__ is Opq:
        v = ip.expand(v, var)
    if 'Result' in c.path.split(' as ')[0]:
        if var == 0:
            return Agg(c.ty, 0, (v.f[0],))
        return Agg(c.ty, 1, (Agg(ip.field_ty(c.ty, 1, 0), 1, (v.f[0],)),))
    if var == 1:
        return Agg(c.ty, 0, (v.f[0],))
    return Agg(c.ty, 1, (Agg(ip.field_ty(c.ty, 1, 0), 0, ()),))


def havoc_enum(c, v):
    return Havoc(c.ty, v.why)


@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual',
       '<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual')
def from_residual(c):
    v = c.args[0]
    ip = c.ip
    if v.__class__ is Havoc:
        return Havoc(c.ty, v.why)
    if v.__class__ is Opq:
        v = ip.expand(v, 1)
    et = ip.field_ty(c.ty, 1, 0)
    if v.ty.__class__ is int and ip.field_ty(v.ty, 1, 0) != et:
        return NotImplemented
    return Agg(c.ty, 1, (v.f[0],))


@model('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual',
       '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual')
def from_residual_opt(c):
    return c.none()


# ------------------------------------------------------------------ conversions
@prefix('core::convert::num::<impl core::convert::From<')
def conv_from(c):
    v = c.args[0]
    ip = c.ip
    to = ip.T[c.ty]
    if v.__class__ is Havoc:
        return Havoc(c.ty, v.why)
    if v.__class__ is Lin and to['k'] == 'int':
        return ip.int_cast(c.st, v, c.ty)
    if v.__class__ in (bool, Cnd) and to['k'] == 'int':
        return ip.cast(c.st, 'IntToInt', v, None, c.ty)
    return NotImplemented


@model('<T as core::convert::Into<U>>::into')
def conv_into(c):
    ip = c.ip
    v = c.args[0]
    if v.__class__ is Lin and ip.T[c.ty]['k'] == 'int':
        return ip.int_cast(c.st, v, c.ty)
    return NotImplemented


@model('<T as core::convert::From<T>>::from', '<I as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&mut I as core::iter::traits::iterator::Iterator>::by_ref', 'core::hint::black_box')
def ident(c):
    return c.args[0]


@prefix('core::convert::num::<impl core::convert::TryFrom<')
def conv_try_from(c):
    ip = c.ip
    v = c.args[0]
    if v.__class__ is not Lin:
        return NotImplemented
    tt = ip.field_ty(c.ty, 0, 0)
    lo, hi = ip.int_range(tt)
    if c.decide(c_and([c_le(v - hi), c_le(K(lo) - v)])):
        return c.ok(v)
    return c.err(ip.opq(('tryint',), ip.field_ty(c.ty, 1, 0)))


# ------------------------------------------------------------------ ranges
def range_next(c):
    ip, st = c.ip, c.st
    cell, proj, r = c.target(0)
    if r.__class__ is Havoc:
        return Havoc(c.ty, r.why)
    if r.__class__ is Opq:
        r = ip.expand(r)
    a, b = r.f[0], r.f[1]
    if a.__class__ is not Lin or b.__class__ is not Lin:
        return NotImplemented
    if c.decide(c_le(a - b + 1)):
        ip.store(st, cell, proj, Agg(r.ty, r.var, (a + 1, b)))
        return c.some(a)
    return c.none()


MODELS['core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next'] = range_next


@model('core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back')
def range_next_back(c):
    ip, st = c.ip, c.st
    cell, proj, r = c.target(0)
    a, b = r.f[0], r.f[1]
    if c.decide(c_le(a - b + 1)):
        ip.store(st, cell, proj, Agg(r.ty, r.var, (a, b - 1)))
        return c.some(b - 1)
    return c.none()


@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next')
def range_incl_next(c):
    ip, st = c.ip, c.st
    cell, proj, r = c.target(0)
    a, b, ex = r.f[0], r.f[1], r.f[2]
    if a.__class__ is not Lin:
        return NotImplemented
    if c.decide(ex):
        return c.none()
    if not c.decide(c_le(a - b)):
        return c.none()
    if c.decide(c_le(a - b + 1)):
        ip.store(st, cell, proj, Agg(r.ty, r.var, (a + 1, b, False)))
    else:
        ip.store(st, cell, proj, Agg(r.ty, r.var, (a, b, True)))
    return c.some(a)


@model('core::ops::range::RangeInclusive::<Idx>::new')
def range_incl_new(c):
    return Agg(c.ty, None, (c.args[0], c.args[1], False))


@model('core::ops::range::Range::<Idx>::contains', 'core::ops::range::RangeInclusive::<Idx>::contains')
def range_contains(c):
    ip, st = c.ip, c.st
    _, _, r = c.target(0)
    _, _, x = c.target(1)
    if x.__class__ is not Lin:
        return NotImplemented
    return c_and([c_le(r.f[0] - x), c_le(x - r.f[1]) if len(r.f) == 3 else c_le(x - r.f[1] + 1)])


@model('<core::ops::range::Range<T> as core::iter::traits::exact_size::ExactSizeIterator>::len',
       'core::iter::range::<impl core::iter::traits::exact_size::ExactSizeIterator for core::ops::range::Range<u16>>::len')
def range_len(c):
    _, _, r = c.target(0)
    d = r.f[1] - r.f[0]
    return d if c.decide(c_le(-d)) else ZERO


# ------------------------------------------------------------------ Vec
@model('alloc::vec::Vec::<T>::new', 'alloc::string::String::new',
       'alloc::collections::btree::map::BTreeMap::<K, V>::new',
       'std::collections::hash::map::HashMap::<K, V>::new',
       '<alloc::vec::Vec<T> as core::default::Default>::default',
       '<alloc::string::String as core::default::Default>::default',
       '<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default',
       '<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default')
def coll_new(c):
    return Lst(c.ty, ())


def cap_event(c, n, ty):
    """space for n elements is reserved in advance"""
    ip, st = c.ip, c.st
    if n.__class__ is not Lin:
        raise Unsupported('capacity')
    ip.cap(st, n, ty, c.line)


@model('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity',
       'std::collections::hash::map::HashMap::<K, V>::with_capacity',
       'std::collections::hash::map::HashMap::<K, V, S>::with_capacity_and_hasher')
def with_capacity(c):
    n = c.args[0]
    if n.__class__ is Havoc:
        c.ip.report(c.st, 'panic', 'capacity that cannot be bounded')
        return Lst(c.ty, ())
    n = c.st.facts.norm(n)
    # capacity overflow: more than isize::MAX bytes
    sz = 1
    lt = c.ip.is_list_ty(c.ty)
    if lt[0] == 'vec':
        sz = c.ip.T[lt[1]].get('size') or 8
        if lt[1].__class__ is int and c.ip.T[lt[1]]['k'] == 'int':
            sz = c.ip.T[lt[1]]['bits'] // 8
    elif lt[0] == 'hmap':
        sz = 64
    lim = ((1 << 63) - 1) // max(sz, 1)
    c.ip.require(c.st, c_le(n - lim), 'capacity overflow', c.line)
    cap_event(c, n, c.ty)
    return Lst(c.ty, (), ('cap', n))


@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'alloc::string::String::reserve')
def reserve(c):
    n = c.args[1]
    cell, proj, v = c.target(0)
    c.ip.require(c.st, c_le(n - (1 << 56)), 'capacity overflow', c.line)
    cap_event(c, n, v.ty)
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs, ('cap', n)))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::string::String::shrink_to_fit')
def noop_unit(c):
    return c.unit()


@model('alloc::vec::Vec::<T, A>::push', 'alloc::string::String::push')
def vec_push(c):
    cell, proj, v = c.target(0)
    if v.__class__ is Havoc:
        return c.unit()
    x = c.args[1]
    if x is True or x is False:
        pass
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs + (('e', x),), v.tag))
    return c.unit()


@model('alloc::string::String::push_str')
def string_push_str(c):
    cell, proj, v = c.target(0)
    s = contents(c.ip, c.st, c.slice(1))
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs + s.segs, v.tag))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def vec_extend_from_slice(c):
    cell, proj, v = c.target(0)
    s = contents(c.ip, c.st, c.slice(1))
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs + s.segs, v.tag))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::append')
def vec_append(c):
    cell, proj, v = c.target(0)
    cell2, proj2, w = c.target(1)
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs + w.segs, v.tag))
    c.ip.store(c.st, cell2, proj2, Lst(w.ty, ()))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::pop', 'alloc::string::String::pop')
def vec_pop(c):
    ip, st = c.ip, c.st
    cell, proj, v = c.target(0)
    n = v.length()
    if c.decide(c_le(n)):
        return c.none()
    x = ip.elem(st, v, n - 1)
    ip.store(st, cell, proj, Lst(v.ty, ip.sublist(st, v, ZERO, n - 1).segs, v.tag))
    return c.some(x)


@model('alloc::vec::Vec::<T, A>::truncate')
def vec_truncate(c):
    ip, st = c.ip, c.st
    cell, proj, v = c.target(0)
    n = v.length()
    k = c.args[1]
    if c.decide(c_le(n - k)):
        return c.unit()
    ip.store(st, cell, proj, Lst(v.ty, ip.sublist(st, v, ZERO, k).segs, v.tag))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
def vec_clear(c):
    cell, proj, v = c.target(0)
    c.ip.store(c.st, cell, proj, Lst(v.ty, (), v.tag))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', '<alloc::vec::Vec<T, A> as ExactSize>::len')
def seq_len(c):
    return c.st.facts.norm(c.slice(0).len)


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty',
       'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty')
def seq_is_empty(c):
    return c_eq(c.st.facts.norm(c.slice(0).len))


def utf8_len(f, x):
    lo, hi = f.bounds(x)
    if lo is not None and hi is not None:
        for n, a, b in ((1, 0, 0x7F), (2, 0x80, 0x7FF), (3, 0x800, 0xFFFF), (4, 0x10000, 0x10FFFF)):
            if a <= lo and hi <= b:
                return K(n)
    return A(sym(('u8len', x), 1, 4))


def byte_len(ip, st, s):
    """length of a str in bytes"""
    l = contents(ip, st, s)
    n = ZERO
    f = st.facts
    for g in l.segs:
        if g[0] == 't':
            n = n + sum(len(chr(x).encode('utf-8', 'surrogatepass')) for x in g[1])
        elif g[0] == 'e' and f.norm(g[1]).const:
            n = n + len(chr(f.norm(g[1]).c).encode('utf-8', 'surrogatepass'))
        elif g[0] == 'e':
            n = n + utf8_len(f, f.norm(g[1]))
        else:
            cl = f.norm(seglen(g))
            if ip.lclasses and not cl.t and cl.c <= 8:
                for i in range(cl.c):
                    n = n + utf8_len(f, f.norm(ip.elem(st, Lst(l.ty, (g,)), K(i))))
                continue
            off = f.norm(g[2]) if g[0] == 'in' else ZERO
            key = g[1]
            while key.__class__ is tuple and len(key) == 3 and key[0] == 'win' and key[2].__class__ is Lin:
                off = f.norm(off + key[2])
                key = key[1]
            a = A(sym(('blen', key, cl) if f.eq(off) else ('blen', key, off, cl), 0, (1 << 63) - 1))
            f.add_le(cl - a)
            f.add_le(a - cl.scale(4))
            w = ip.wholes.get(key)
            if w is not None:
                # a part is shorter than the whole by a byte at least for each character
                rest = f.norm(w - cl)
                if not f.eq(rest):
                    f.add_le(a + rest - A(sym(('blen', key, f.norm(w)), 0, (1 << 63) - 1)))
            n = n + a
    return f.norm(n)


@model('core::str::<impl str>::len', 'alloc::string::String::len')
def str_len(c):
    return byte_len(c.ip, c.st, c.slice(0))


@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes')
def str_as_bytes(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    f = st.facts
    l = contents(ip, st, s)
    n = f.norm(l.length())
    ascii_ = all(x < 128 for g in l.segs if g[0] == 't' for x in g[1]) if all(g[0] == 't' for g in l.segs) else None
    if ascii_ is None and not n.t and n.c <= 16:
        bs = [f.bounds(f.norm(ip.elem(st, l, K(i))))[1] for i in range(n.c)]
        ascii_ = all(b is not None and b < 128 for b in bs)
    if ascii_:
        return Sl(s.cell, s.proj, s.off, s.len, False)
    ip.inexact = True
    k = ('bytes', canon(ip, st, l))
    cell = ('lit', k)
    ip.wholes[k] = (l, byte_len(ip, st, s))
    if cell not in st.cells:
        st.cells[cell] = Lst(None, (('in', k, ZERO, byte_len(ip, st, s)),))
    return Sl(cell, (), ZERO, byte_len(ip, st, s), False)


@model('alloc::vec::Vec::<T, A>::capacity', 'alloc::string::String::capacity')
def seq_capacity(c):
    s = c.slice(0)
    a = A(sym(('capacity', c.ip.fresh_key(c.st)), 0, (1 << 63) - 1))
    c.st.facts.add_le(s.len - a)
    return a


@model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
       '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
       '<alloc::string::String as core::ops::deref::Deref>::deref',
       '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
       '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
       '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
       'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
       'alloc::string::String::as_str', 'alloc::string::String::as_mut_str',
       '<str as core::convert::AsRef<str>>::as_ref', '<[T] as core::convert::AsRef<[T]>>::as_ref',
       'core::str::<impl core::convert::AsRef<str> for str>::as_ref',
       'core::slice::<impl core::convert::AsRef<[T]> for [T]>::as_ref',
       'core::array::<impl [T; N]>::as_slice')
def seq_deref(c):
    return c.slice(0)


@model('<alloc::string::String as core::clone::Clone>::clone', 'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned',
       'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned',
       '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone', '<alloc::string::String as core::convert::From<&str>>::from',
       '<str as alloc::string::ToString>::to_string', '<alloc::string::String as alloc::string::ToString>::to_string',
       'alloc::slice::<impl [T]>::to_vec_in', '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from',
       'alloc::str::<impl str>::into_string', '<alloc::string::String as core::convert::From<&mut str>>::from',
       '<str as alloc::string::SpecToString>::spec_to_string', '<T as alloc::string::ToString>::to_string')
def seq_clone(c):
    if c.path == '<T as alloc::string::ToString>::to_string':
        if c.ip.T[c.targs[0]]['k'] != 'str' and c.ip.adt(c.targs[0]) != 'alloc::string::String':
            return NotImplemented
    l = contents(c.ip, c.st, c.slice(0))
    for s in l.segs:
        if s[0] == 'e' and s[1].__class__ in (Agg,) and 'Rc' in c.ip.T[s[1].ty]['s'] if s[0] == 'e' and s[1].__class__ is Agg and s[1].ty.__class__ is int else False:
            pass
    return Lst(c.ty, l.segs)


@model('alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str')
def str_into(c):
    raise Unsupported(c.path)


@model('alloc::str::<impl str>::repeat')
def str_repeat(c):
    l = contents(c.ip, c.st, c.slice(0))
    n = c.st.facts.norm(c.args[1])
    c.ip.require(c.st, c_le(n - (1 << 40)), 'capacity overflow', c.line)
    if n.const:
        return Lst(c.ty, tuple(l.segs) * n.c)
    if len(l.segs) == 1 and ((l.segs[0][0] == 't' and len(l.segs[0][1]) == 1) or l.segs[0][0] == 'e'):
        ch = l.segs[0][1][0] if l.segs[0][0] == 't' else c.st.facts.norm(l.segs[0][1])
        if ch.__class__ is Lin:
            if not ch.const:
                raise Unsupported('repeat')
            ch = ch.c
        return Lst(c.ty, (('s', ('rep', ch), n, 'char'),))
    raise Unsupported('repeat')


@model('alloc::vec::from_elem')
def vec_from_elem(c):
    n = c.st.facts.norm(c.args[1])
    cap_event(c, n, c.ty)
    v = c.args[0]
    if n.const and n.c <= 4096:
        return Lst(c.ty, tuple(('e', v) for _ in range(n.c)), ('cap', n))
    return Lst(c.ty, (('s', ('rep', canon(c.ip, c.st, v)), n, c.ip.is_list_ty(c.ty)[1]),), ('cap', n))


@model('alloc::vec::Vec::<T, A>::insert')
def vec_insert(c):
    ip, st = c.ip, c.st
    cell, proj, v = c.target(0)
    i = st.facts.norm(c.args[1])
    n = v.length()
    ip.require(st, c_le(i - n), 'insertion index out of range', c.line)
    a = ip.sublist(st, v, ZERO, i)
    b = ip.sublist(st, v, i, n - i)
    ip.store(st, cell, proj, Lst(v.ty, a.segs + (('e', c.args[2]),) + b.segs, v.tag))
    return c.unit()


@model('alloc::vec::Vec::<T, A>::swap_remove', 'alloc::vec::Vec::<T, A>::remove')
def vec_remove(c):
    ip, st = c.ip, c.st
    cell, proj, v = c.target(0)
    i = st.facts.norm(c.args[1])
    n = v.length()
    ip.require(st, c_le(i - n + 1), 'removal index out of range', c.line)
    x = ip.elem(st, v, i)
    a = ip.sublist(st, v, ZERO, i)
    if c.path.endswith('swap_remove') and not c.decide(c_eq(i - n + 1)):
        b = ip.sublist(st, v, i + 1, n - i - 2)
        b = Lst(v.ty, (('e', ip.elem(st, v, n - 1)),) + b.segs)
    else:
        b = ip.sublist(st, v, i + 1, n - i - 1)
    ip.store(st, cell, proj, Lst(v.ty, a.segs + b.segs, v.tag))
    return x


def put_window(c, s, segs):
    """replace the contents of a window"""
    ip, st = c.ip, c.st
    cell, proj = s.cell, s.proj
    if proj and proj[-1].__class__ is tuple and proj[-1][0] == 'sl':
        raise Unsupported('store into a window of a window')
    base = ip.load(st, cell, proj)
    if base.__class__ is not Lst:
        raise Unsupported('store into %r' % (base,))
    n = base.length()
    a = ip.sublist(st, base, ZERO, s.off).segs if not st.facts.eq(s.off) else ()
    e = st.facts.norm(s.off + s.len)
    b = ip.sublist(st, base, e, n - e).segs if not st.facts.eq(e - n) else ()
    ip.store(st, cell, proj, Lst(base.ty, a + tuple(segs) + b, base.tag))


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    r = c.slice(1)
    ip.require(st, c_eq(st.facts.norm(s.len - r.len)), 'copy between slices of different lengths', c.line)
    put_window(c, s, contents(ip, st, r).segs)
    return c.unit()


@model('core::slice::<impl [T]>::swap')
def slice_swap(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    i, j = st.facts.norm(c.args[1]), st.facts.norm(c.args[2])
    ip.require(st, c_le(i - s.len + 1), 'index out of bounds', c.line)
    ip.require(st, c_le(j - s.len + 1), 'index out of bounds', c.line)
    p, q = s.proj + (('ix', s.off + i),), s.proj + (('ix', s.off + j),)
    x, y = ip.load(st, s.cell, p), ip.load(st, s.cell, q)
    ip.store(st, s.cell, p, y)
    ip.store(st, s.cell, q, x)
    return c.unit()


# ------------------------------------------------------------------ indexing
def range_bounds(c, r, n):
    """(start, end) of a range argument over a sequence of length n"""
    ip, st = c.ip, c.st
    if r.__class__ is Opq:
        r = ip.expand(r)
    p = ip.T[r.ty]['path'] if r.ty.__class__ is int else ''
    p = p.split('::')[-1]
    if p == 'Range':
        return r.f[0], r.f[1]
    if p == 'RangeTo':
        return ZERO, r.f[0]
    if p == 'RangeFrom':
        return r.f[0], n
    if p == 'RangeFull':
        return ZERO, n
    if p == 'RangeInclusive':
        return r.f[0], r.f[1] + 1
    if p == 'RangeToInclusive':
        return ZERO, r.f[0] + 1
    raise Unsupported('index by ' + p)


def char_bytes(c, ch):
    """how many bytes a character takes, by cases"""
    for n, top in ((1, 0x7F), (2, 0x7FF), (3, 0xFFFF)):
        if c.decide(c_le(ch - top)):
            return n
    return 4


def char_index(c, s, x, n):
    """number of characters before byte x of a str of n bytes"""
    ip, st = c.ip, c.st
    f = st.facts
    x = f.norm(x)
    if f.eq(x):
        return ZERO
    if f.eq(x - n):
        return s.len
    base = ip.load(st, s.cell, s.proj)
    back = False
    k = x
    if not x.const:
        k = f.norm(n - x)
        back = True
    if not k.const or k.c > 16 or k.c < 0:
        raise Unsupported('part of a string')
    i = got = 0
    while got < k.c:
        if c.decide(c_le(s.len - i)):
            break
        got += char_bytes(c, st.facts.norm(ip.elem(st, base, s.off + s.len - 1 - i if back else s.off + i)))
        i += 1
    ip.require(st, got == k.c, 'not a character boundary', c.line, True)
    return st.facts.norm(s.len - i) if back else K(i)


@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index',
       '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
       'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index',
       'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
       'core::array::<impl core::ops::index::Index<I> for [T; N]>::index',
       '<alloc::string::String as core::ops::index::Index<I>>::index',
       'core::str::traits::<impl core::ops::index::Index<I> for str>::index')
def seq_index(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    i = c.args[1]
    if i.__class__ is Havoc:
        ip.report(st, 'panic', 'index that cannot be bounded', c.line)
        return Havoc(c.ty, i.why)
    if i.__class__ is Lin:
        i = st.facts.norm(i)
        ip.require(st, c_le(i - s.len + 1), 'index out of bounds', c.line)
        return Ref(s.cell, s.proj + (('ix', s.off + i),))
    if 'str' in c.path:
        # positions in bytes
        n = byte_len(ip, st, s)
        a, b = range_bounds(c, i, n)
        ip.require(st, c_le(a - b), 'slice index starts after its end', c.line)
        ip.require(st, c_le(b - n), 'slice index out of bounds', c.line)
        a, b = char_index(c, s, a, n), char_index(c, s, b, n)
        f = st.facts
        return Sl(s.cell, s.proj, f.norm(s.off + a), f.norm(b - a), s.str_)
    a, b = range_bounds(c, i, s.len)
    ip.require(st, c_le(a - b), 'slice index starts after its end', c.line)
    ip.require(st, c_le(b - s.len), 'slice index out of bounds', c.line)
    f = st.facts
    return Sl(s.cell, s.proj, f.norm(s.off + a), f.norm(b - a), s.str_)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def seq_get(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    i = c.args[1]
    f = st.facts
    if i.__class__ is Lin:
        if c.decide(c_le(f.norm(i - s.len + 1))):
            return c.some(Ref(s.cell, s.proj + (('ix', s.off + i),)))
        return c.none()
    a, b = range_bounds(c, i, s.len)
    if c.decide(c_le(a - b)) and c.decide(c_le(b - s.len)):
        return c.some(Sl(s.cell, s.proj, f.norm(s.off + a), f.norm(b - a), s.str_))
    return c.none()


@model('core::slice::<impl [T]>::first')
def seq_first(c):
    s = c.slice(0)
    if c.decide(c_le(s.len)):
        return c.none()
    return c.some(Ref(s.cell, s.proj + (('ix', s.off),)))


@model('core::slice::<impl [T]>::last')
def seq_last(c):
    s = c.slice(0)
    if c.decide(c_le(s.len)):
        return c.none()
    return c.some(Ref(s.cell, s.proj + (('ix', s.off + s.len - 1),)))


@model('core::slice::<impl [T]>::split_at')
def seq_split_at(c):
    s = c.slice(0)
    n = c.st.facts.norm(c.args[1])
    c.ip.require(c.st, c_le(n - s.len), 'split beyond the end', c.line)
    return Agg(c.ty, None, (Sl(s.cell, s.proj, s.off, n, s.str_), Sl(s.cell, s.proj, s.off + n, s.len - n, s.str_)))


@model('core::slice::<impl [T]>::split_first')
def seq_split_first(c):
    s = c.slice(0)
    if c.decide(c_le(s.len)):
        return c.none()
    tt = c.ip.field_ty(c.ty, 1, 0)
    return c.some(Agg(tt, None, (Ref(s.cell, s.proj + (('ix', s.off),)), Sl(s.cell, s.proj, s.off + 1, s.len - 1))))


# ------------------------------------------------------------------ iterators over sequences
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::str::<impl str>::chars',
       "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter")
def seq_iter(c):
    s = c.slice(0)
    f = c.st.facts
    return Agg(c.ty, None, (Sl(s.cell, s.proj, f.norm(s.off), f.norm(s.len), s.str_),))


def iter_slice(c, i=0):
    cell, proj, it = c.target(i)
    if it.__class__ is Sl:          # target() followed into the slice of a by-value iterator
        raise Unsupported('iterator')
    if it.__class__ is Opq:
        it = c.ip.iter_of(it)
        c.ip.store(c.st, cell, proj, it)
    if it.__class__ is not Agg or it.f[0].__class__ is not Sl:
        raise Unsupported('iterator %r' % (it,))
    return cell, proj, it, it.f[0]


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next")
def slice_iter_next(c):
    ip, st = c.ip, c.st
    cell, proj, it, s = iter_slice(c)
    if c.decide(c_le(s.len)):
        return c.none()
    f = st.facts
    ip.store(st, cell, proj, Agg(it.ty, it.var, (Sl(s.cell, s.proj, f.norm(s.off + 1), f.norm(s.len - 1), s.str_),)))
    return c.some(Ref(s.cell, s.proj + (('ix', s.off),)))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def slice_iter_next_back(c):
    ip, st = c.ip, c.st
    cell, proj, it, s = iter_slice(c)
    if c.decide(c_le(s.len)):
        return c.none()
    f = st.facts
    ip.store(st, cell, proj, Agg(it.ty, it.var, (Sl(s.cell, s.proj, s.off, f.norm(s.len - 1), s.str_),)))
    return c.some(Ref(s.cell, s.proj + (('ix', s.off + s.len - 1),)))


@model("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next")
def chars_next(c):
    ip, st = c.ip, c.st
    cell, proj, it, s = iter_slice(c)
    if c.decide(c_le(s.len)):
        return c.none()
    f = st.facts
    base = ip.load(st, s.cell, s.proj)
    ch = ip.elem(st, base, s.off)
    if ip.char_hook is not None:
        ip.char_hook(st, s, s.off, ch)
    ip.store(st, cell, proj, Agg(it.ty, it.var, (Sl(s.cell, s.proj, st.facts.norm(s.off + 1), st.facts.norm(s.len - 1), s.str_),)))
    return c.some(ch)


@model("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::count",
       "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::count")
def iter_count(c):
    it = c.args[0]
    return c.st.facts.norm(it.f[0].len)


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
       'core::iter::traits::exact_size::ExactSizeIterator::len')
def iter_len(c):
    cell, proj, it, s = iter_slice(c)
    return c.st.facts.norm(s.len)


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
       "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint")
def iter_size_hint(c):
    cell, proj, it, s = iter_slice(c)
    n = c.st.facts.norm(s.len)
    return Agg(c.ty, None, (n, Agg(c.ip.field_ty(c.ty, None, 1), 1, (n,))))


@model('core::iter::adapters::zip::Zip::<A, B>::new')
def zip_new(c):
    return Agg(c.ty, None, (c.args[0], c.args[1], ZERO, ZERO) + (ZERO,) * (c.ip.nfields(c.ty) - 4))


@model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(c):
    ip, st = c.ip, c.st
    v = c.args[0]
    if v.__class__ is Havoc:
        return Havoc(c.ty, v.why)
    if v.__class__ is not Lst:
        raise Unsupported('into_iter of %r' % (v,))
    cell = ('cl', ('into', st.frames[-1].uid, st.bb))
    st.cells[cell] = v
    return Agg(c.ty, None, (Sl(cell, (), ZERO, st.facts.norm(v.length())),))


@model('<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next',
       '<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next')
def into_iter_next(c):
    r = slice_iter_next(c)
    if r.var == 0:
        return r
    x = r.f[0]
    return Agg(r.ty, r.var, (c.ip.load(c.st, x.cell, x.proj),))


@model('<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
       '<core::array::iter::IntoIter<T, N> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
def into_iter_next_back(c):
    r = slice_iter_next_back(c)
    if r.var == 0:
        return r
    x = r.f[0]
    return Agg(r.ty, r.var, (c.ip.load(c.st, x.cell, x.proj),))


@model("core::str::iter::Chars::<'a>::as_str", "core::slice::iter::Iter::<'a, T>::as_slice")
def chars_as_str(c):
    cell, proj, it, s = iter_slice(c)
    return s


@model("<core::str::iter::Chars<'a> as core::clone::Clone>::clone", "<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone")
def iter_clone(c):
    cell, proj, it, s = iter_slice(c)
    return it


@model("core::iter::adapters::peekable::Peekable::<I>::peek__")
def _nope(c):
    return NotImplemented


@model('<&mut I as core::iter::traits::iterator::Iterator>::next')
def mutref_next(c):
    return NotImplemented


# ------------------------------------------------------------------ equality
def str_of(ip, st, l):
    """python text of a list of known characters, or None"""
    out = []
    f = st.facts
    for s in l.segs:
        if s[0] == 't':
            out.extend(s[1])
        elif s[0] == 'e':
            v = f.norm(s[1])
            if not v.const:
                return None
            out.append(v.c)
        elif s[0] == 's' and s[1].__class__ is tuple and s[1] and s[1][0] == 'rep' and f.norm(s[2]).const:
            out.extend([s[1][1]] * f.norm(s[2]).c)
        else:
            n = f.norm(seglen(s))
            if n.const and n.c == 0:
                continue
            return None
    return tuple(out)


def strkey(ip, st, l):
    """symbol of an opaque string, when the list is exactly one such segment"""
    segs = [s for s in l.segs if not (st.facts.norm(seglen(s)).const and st.facts.norm(seglen(s)).c == 0)]
    if len(segs) == 1 and segs[0][0] == 's':
        return segs[0][1]
    return None


def unbytes(ip, st, l):
    """the string all of whose bytes these are"""
    if len(l.segs) == 1 and l.segs[0][0] == 'in' and l.segs[0][1].__class__ is tuple and l.segs[0][1][:1] == ('bytes',):
        w = ip.wholes.get(l.segs[0][1])
        if w is not None and st.facts.eq(l.segs[0][2]) and st.facts.eq(l.segs[0][3] - w[1]):
            return w[0]


def seq_equal(ip, st, a, b):
    """condition for the equality of two lists of scalars"""
    f = st.facts
    ua, ub = unbytes(ip, st, a), unbytes(ip, st, b)
    if ua is not None and ub is not None:
        a, b = ua, ub
    ta, tb = str_of(ip, st, a), str_of(ip, st, b)
    if ta is not None and tb is not None:
        return ta == tb
    if tb is None and ta is not None:
        a, b, ta, tb = b, a, tb, ta
    if tb is not None:
        k = strkey(ip, st, a)
        if ip.lclasses and a.length().const and a.length().c <= 8:
            k = None        # short enough to look at each character
        if k is not None and not (k.__class__ is tuple and k and k[0] == 'rep'):
            known = f.strs.get(k)
            if known is None or known[0] == '!':
                # the length has to agree
                if f.nonzero(a.length() - len(tb)):
                    return False
            return Cnd('streq', (k, ''.join(map(chr, tb)), True))
        # element-wise
        n = a.length()
        if not decide(st, c_eq(st.facts.norm(n - len(tb)))):
            return False
        cs = []
        for i in range(len(tb)):
            cs.append(c_eq(st.facts.norm(ip.elem(st, a, K(i)) - tb[i])))
        return c_and(cs)
    na, nb = a.length(), b.length()
    ka, kb = canon(ip, st, a), canon(ip, st, b)
    if ka == kb:
        return True
    if f.norm(na).const and f.norm(nb).const:
        if f.norm(na).c != f.norm(nb).c:
            return False
        if f.norm(na).c <= 64:
            cs = []
            for i in range(f.norm(na).c):
                x, y = ip.elem(st, a, K(i)), ip.elem(st, b, K(i))
                if x.__class__ is not Lin or y.__class__ is not Lin:
                    raise Unsupported('sequence equality')
                cs.append(c_eq(f.norm(x - y)))
            return c_and(cs)
    if f.nonzero(na - nb):
        return False
    return Cnd('unk', (('seqeq',) + tuple(sorted((ka, kb), key=repr)), True))


@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq',
       '<alloc::string::String as core::cmp::PartialEq>::eq',
       '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
       "<alloc::string::String as core::cmp::PartialEq<&'a str>>::eq",
       "<alloc::string::String as core::cmp::PartialEq<&str>>::eq",
       '<str as core::cmp::PartialEq<alloc::string::String>>::eq',
       "<&'a str as core::cmp::PartialEq<alloc::string::String>>::eq",
       "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for str>::eq",
       "alloc::string::<impl core::cmp::PartialEq<str> for alloc::string::String>::eq",
       "alloc::string::<impl core::cmp::PartialEq<&'a str> for alloc::string::String>::eq",
       "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for &'a str>::eq")
def str_eq(c):
    a = contents(c.ip, c.st, c.slice(0))
    b = contents(c.ip, c.st, c.slice(1))
    return seq_equal(c.ip, c.st, a, b)


def negated(f):
    def ne(c):
        return c_not(f(c))
    return ne


MODELS.update((p[:-2] + 'ne', negated(str_eq)) for p in [p for p in MODELS if MODELS[p] is str_eq])


@model('core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq',
       'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::eq',
       'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::eq',
       'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &[T]>::eq',
       'alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq')
def slice_eq(c):
    a = contents(c.ip, c.st, c.slice(0))
    b = contents(c.ip, c.st, c.slice(1))
    for l in (a, b):
        if l.ty.__class__ is int:
            lt = c.ip.is_list_ty(l.ty)
            if lt and lt[1].__class__ is int and c.ip.T[lt[1]]['k'] not in ('int', 'char', 'bool'):
                if lt[1] in c.ip.eq_types:
                    # the equality of these is judged on its own
                    ka, kb = canon(c.ip, c.st, a), canon(c.ip, c.st, b)
                    if ka == kb:
                        return True
                    if c.st.facts.nonzero(a.length() - b.length()):
                        return False
                    return Cnd('unk', (('seqeq',) + tuple(sorted((ka, kb), key=repr)), True))
                raise Unsupported('equality of structured sequences')
    return seq_equal(c.ip, c.st, a, b)


MODELS.update((p[:-2] + 'ne', negated(slice_eq)) for p in [p for p in MODELS if MODELS[p] is slice_eq])


@model('core::slice::<impl [T]>::starts_with')
def slice_starts_with(c):
    ip, st = c.ip, c.st
    a = contents(ip, st, c.slice(0))
    b = contents(ip, st, c.slice(1))
    if not c.decide(c_le(b.length() - a.length())):
        return False
    return seq_equal(ip, st, ip.sublist(st, a, ZERO, b.length()), b)


def canon(ip, st, v, depth=0):
    """hashable canonical form of an abstract value"""
    f = st.facts
    c = v.__class__
    if c is Lin:
        return f.norm(v)
    if c is bool:
        return v
    if c is Cnd:
        return ('cnd', v.op, v.a if v.a.__class__ is not Lin else f.norm(v.a))
    if c is Agg:
        return ('agg', v.ty if v.ty.__class__ is int else None, v.var, tuple(canon(ip, st, x, depth) if x is not None else None for x in v.f))
    if c is Opq:
        return ('opq', v.sym)
    if c is Flt:
        return ('flt', f.norm(v.bits))
    if c is Lst:
        out = []
        for s in v.segs:
            if s[0] == 'e':
                out.append(('e', canon(ip, st, s[1], depth)))
            elif s[0] == 't':
                out.extend(('e', K(x)) for x in s[1])
            elif s[0] == 's':
                n = f.norm(s[2])
                if n.const and n.c == 0:
                    continue
                out.append(('s', s[1], n))
            else:
                out.append(('in', s[1], f.norm(s[2]), f.norm(s[3])))
        return ('lst', tuple(out))
    if c is Ref:
        if depth > 6:
            return ('ref', v.cell, v.proj)
        try:
            return ('&', canon(ip, st, ip.load(st, v.cell, v.proj), depth + 1))
        except Unsupported:
            return ('ref', v.cell, v.proj)
    if c is Sl:
        return ('&', canon(ip, st, contents(ip, st, v), depth + 1))
    if c is Fnv:
        return ('fn', v.path)
    if c is Havoc:
        return ('hv', id(v))
    return ('?', repr(v))


def scalar_cmp(c):
    """PartialEq / PartialOrd / Ord of primitives through references"""
    m = c.decl.split('::')[-1]
    _, _, a = c.target(0)
    _, _, b = c.target(1)
    if a.__class__ is not Lin or b.__class__ is not Lin:
        if a.__class__ in (bool, Cnd) and b.__class__ in (bool, Cnd) and m in ('eq', 'ne'):
            return c.ip.binop(c.st, 'Eq' if m == 'eq' else 'Ne', a, b, None, None, c.line)
        return NotImplemented
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}.get(m)
    if op:
        return c.ip.binop(c.st, op, a, b, None, None, c.line)
    if m == 'cmp':
        return c.ip.binop(c.st, 'Cmp', a, b, None, None, c.line)
    if m == 'max':
        return b if c.decide(c_le(a - b)) else a
    if m == 'min':
        return a if c.decide(c_le(a - b)) else b
    return NotImplemented


@prefix('core::cmp::impls::<impl core::cmp::PartialEq for ', 'core::cmp::impls::<impl core::cmp::PartialOrd for ',
        'core::cmp::impls::<impl core::cmp::Ord for ')
def scalar_cmp_p(c):
    return scalar_cmp(c)


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def scalar_maxmin(c):
    a, b = c.args[0], c.args[1]
    if a.__class__ is not Lin or b.__class__ is not Lin:
        return NotImplemented
    m = c.decl.split('::')[-1]
    f = c.st.facts
    a, b = f.norm(a), f.norm(b)
    import vals
    if vals.VAGUE is not None and (vals.vague(a) or vals.vague(b)) and tri(f, c_le(a - b)) is None:
        # only the bounds
        d = A(sym(('vague', m, a, b), 0, (1 << 64) - 1))
        for x in (a, b):
            f.add_le(x - d if m == 'max' else d - x)
        if m == 'max' and f.le(-a) and f.le(-b):
            f.add_le(d - a - b)
        return d
    if m == 'max':
        return b if c.decide(c_le(a - b)) else a
    return a if c.decide(c_le(a - b)) else b


# ------------------------------------------------------------------ chars and floats
@model('core::char::from_u32', 'core::char::convert::from_u32', 'core::char::methods::<impl char>::from_u32')
def char_from_u32(c):
    v = c.st.facts.norm(c.args[0])
    ok = c_and([c_le(v - 0x10FFFF), c_or([c_le(v - 0xD7FF), c_le(K(0xE000) - v)])])
    if c.decide(ok):
        return c.some(v)
    return c.none()


@model('core::f32::<impl f32>::from_bits', 'core::f64::<impl f64>::from_bits')
def f_from_bits(c):
    return Flt(c.args[0], c.ty)


@model('core::f32::<impl f32>::to_bits', 'core::f64::<impl f64>::to_bits')
def f_to_bits(c):
    return c.args[0].bits


# ------------------------------------------------------------------ integers
_INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'usize': (64, 0), 'u128': (128, 0),
         'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'isize': (64, 1), 'i128': (128, 1)}


@prefix('core::num::<impl ')
def int_method(c):
    p = c.path
    q = p[len('core::num::<impl '):]
    tn, m = q.split('>::', 1)
    if tn not in _INTS:
        return NotImplemented
    bits, sg = _INTS[tn]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    ip, st = c.ip, c.st
    a = c.args[0] if c.args else None
    b = c.args[1] if len(c.args) > 1 else None
    if a.__class__ is Havoc or b.__class__ is Havoc:
        return Havoc(c.ty, (a if a.__class__ is Havoc else b).why)
    if m == 'max_value':
        return K(hi)
    if m == 'min_value':
        return K(lo)
    if m in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        bs = [ip.elem(st, a, K(i)) for i in range(bits // 8)]
        if m != 'from_be_bytes':
            bs = bs[::-1]
        return combine(ip, st, bs, bits, sg)
    if m in ('to_be_bytes', 'to_le_bytes'):
        return NotImplemented
    if m == 'is_power_of_two':
        return NotImplemented
    ops = {'add': lambda: a + b, 'sub': lambda: a - b}
    kind, _, op = m.partition('_')
    if kind in ('checked', 'wrapping', 'saturating', 'overflowing') and op in ('add', 'sub', 'mul'):
        if op == 'mul':
            if a.const:
                v = b.scale(a.c)
            elif b.const:
                v = a.scale(b.c)
            else:
                v = ip.op2(st, 'mul', a, b)
        else:
            v = ops[op]()
        v = st.facts.norm(v)
        if kind == 'wrapping':
            return ip.reduce(st, v, bits, bool(sg)) if not (st.facts.le(v - hi) and st.facts.le(K(lo) - v)) else v
        if not c.decide(c_le(v - hi)):
            if kind == 'checked':
                return c.none()
            if kind == 'saturating':
                return K(hi)
            return Agg(c.ty, None, (ip.reduce(st, v, bits, bool(sg)), True))
        if not c.decide(c_le(K(lo) - v)):
            if kind == 'checked':
                return c.none()
            if kind == 'saturating':
                return K(lo)
            return Agg(c.ty, None, (ip.reduce(st, v, bits, bool(sg)), True))
        if kind == 'checked':
            return c.some(v)
        if kind == 'saturating':
            return v
        return Agg(c.ty, None, (v, False))
    if m in ('swap_bytes', 'to_be', 'from_be', 'to_le', 'from_le'):
        if m in ('to_le', 'from_le'):
            return a
        import strmodels
        if bits == 8:
            return a
        it = next(i for i, t in enumerate(ip.T) if t['s'] == tn)
        return strmodels.by_example(c, strmodels.bit_ops(bits, bool(sg))['swap_bytes'], it)
    if m in ('wrapping_neg',):
        return ip.wrap(st, -a, c.ty)
    return NotImplemented


def combine(ip, st, bs, bits, sg):
    """big-endian bytes -> number"""
    v = ZERO
    for x in bs:
        if x.__class__ is not Lin:
            raise Unsupported('bytes')
        v = v.scale(256) + x
    v = st.facts.norm(v)
    if sg:
        return ip.to_signed(st, v, bits)
    return v


def bo_read(c):
    p = c.path
    big = 'BigEndian' in p
    m = p.split('::')[-1]
    ip, st = c.ip, c.st
    n = {'16': 2, '32': 4, '64': 8, '24': 3}[m[-2:]]
    sg = m.split('_')[1][0] == 'i'
    fl = m.split('_')[1][0] == 'f'
    s = c.slice(0)
    ip.require(st, c_le(K(n) - s.len), 'byteorder read beyond the slice', c.line)
    l = ip.load(st, s.cell, s.proj)
    bs = [ip.elem(st, l, s.off + i) for i in range(n)]
    if not big:
        bs = bs[::-1]
    v = combine(ip, st, bs, 8 * n, sg)
    return Flt(v, c.ty) if fl else v


for _e in ('BigEndian', 'LittleEndian'):
    for _m in ('u16', 'u24', 'u32', 'u64', 'i16', 'i24', 'i32', 'i64', 'f32', 'f64'):
        MODELS['<byteorder::%s as byteorder::ByteOrder>::read_%s' % (_e, _m)] = bo_read


@model('byteorder::ByteOrder::read_i16', 'byteorder::ByteOrder::read_i32', 'byteorder::ByteOrder::read_i64',
       'byteorder::ByteOrder::read_f32', 'byteorder::ByteOrder::read_f64', 'byteorder::ByteOrder::read_i24')
def bo_read_default(c):
    # provided methods: Self is the first type argument
    self_ty = c.ip.T[c.targs[0]] if c.targs else None
    if self_ty is None:
        return NotImplemented
    big = 'BigEndian' in self_ty['s']
    m = c.decl.split('::')[-1]
    ip, st = c.ip, c.st
    n = {'16': 2, '32': 4, '64': 8, '24': 3}[m[-2:]]
    sg = m.split('_')[1][0] == 'i'
    fl = m.split('_')[1][0] == 'f'
    s = c.slice(0)
    ip.require(st, c_le(K(n) - s.len), 'byteorder read beyond the slice', c.line)
    l = ip.load(st, s.cell, s.proj)
    bs = [ip.elem(st, l, s.off + i) for i in range(n)]
    if not big:
        bs = bs[::-1]
    v = combine(ip, st, bs, 8 * n, sg)
    return Flt(v, c.ty) if fl else v


@model("core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from",
       "core::array::<impl core::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from")
def arr_try_from(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    t = ip.T[ip.field_ty(c.ty, 0, 0)]
    if t['k'] == 'ref':
        t = ip.T[t['ty']]
    n = t['len']
    if c.decide(c_eq(st.facts.norm(s.len - n))):
        l = ip.load(st, s.cell, s.proj)
        v = Lst(ip.field_ty(c.ty, 0, 0), tuple(('e', ip.elem(st, l, s.off + i)) for i in range(n)))
        return c.ok(v)
    return c.err(ip.opq(('tryslice',), ip.field_ty(c.ty, 1, 0)))


# ------------------------------------------------------------------ memory
@model('core::mem::replace')
def mem_replace(c):
    cell, proj = c.args[0].cell, c.args[0].proj
    old = c.ip.load(c.st, cell, proj)
    c.ip.store(c.st, cell, proj, c.args[1])
    return old


@model('core::mem::swap')
def mem_swap(c):
    a, b = c.args[0], c.args[1]
    x = c.ip.load(c.st, a.cell, a.proj)
    y = c.ip.load(c.st, b.cell, b.proj)
    c.ip.store(c.st, a.cell, a.proj, y)
    c.ip.store(c.st, b.cell, b.proj, x)
    return c.unit()


@model('core::mem::take')
def mem_take(c):
    cell, proj = c.args[0].cell, c.args[0].proj
    old = c.ip.load(c.st, cell, proj)
    if old.__class__ is Lst:
        c.ip.store(c.st, cell, proj, Lst(old.ty, ()))
        return old
    if old.__class__ is Lin:
        c.ip.store(c.st, cell, proj, ZERO)
        return old
    if old.__class__ in (bool, Cnd):
        c.ip.store(c.st, cell, proj, False)
        return old
    if old.__class__ in (Agg, Opq) and c.ip.adt(old.ty) == 'core::option::Option':
        c.ip.store(c.st, cell, proj, Agg(old.ty, 0, ()))
        return old
    return NotImplemented


@model('core::mem::drop', 'core::mem::forget')
def mem_drop(c):
    return c.unit()


@model('alloc::boxed::Box::<T>::new', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::rcs::arc::Arc::<T>::new',
       '<alloc::boxed::Box<T> as core::convert::From<T>>::from', '<alloc::rcs::rc::Rc<T> as core::convert::From<T>>::from')
def box_new(c):
    return Agg(c.ty, None, (c.args[0],))


@model('<alloc::rcs::rc::Rc<T, A> as core::clone::Clone>::clone', '<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone')
def rc_clone(c):
    r = c.args[0]
    return c.ip.load(c.st, r.cell, r.proj)


@model('<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
       '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
       '<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref',
       '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut',
       '<alloc::rcs::rc::Rc<T, A> as core::borrow::Borrow<T>>::borrow', '<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref')
def rc_deref(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.cell, r.proj)
    if v.__class__ in (Agg, Opq) and v.ty.__class__ is int and c.ip.is_box(v.ty):
        return Ref(r.cell, r.proj + ('*',))
    raise Unsupported('deref of %r' % (v,))


@model('<&T as core::clone::Clone>::clone', 'core::clone::impls::<impl core::clone::Clone for &T>::clone')
def ref_clone(c):
    return c.ip.load(c.st, c.args[0].cell, c.args[0].proj)


@prefix('core::clone::impls::<impl core::clone::Clone for ')
def prim_clone(c):
    r = c.args[0]
    return c.ip.load(c.st, r.cell, r.proj)


# ------------------------------------------------------------------ maps
def map_probe(c, cell, proj, m, key):
    """('e', n) entry n holds the key | ('s', sym, value) an older entry does | None"""
    ip, st = c.ip, c.st
    kc = canon(ip, st, key)
    for n in range(len(m.segs) - 1, -1, -1):
        s = m.segs[n]
        if s[0] == 'e':
            k2 = canon(ip, st, s[1].f[0])
            if k2 == kc:
                return ('e', n)
            r = distinct(ip, st, key, s[1].f[0])
            if r is not True:
                if same_keys(c, key, s[1].f[0], kc, k2):
                    return ('e', n)
        else:
            ln = st.facts.norm(s[2])
            if ln.const and ln.c == 0:
                continue
            if decide(st, Cnd('unk', (('has', s[1], kc), True))):
                vt = s[3][1] if s[3].__class__ is tuple else None
                if vt is None:
                    raise Unsupported('map of unknown type')
                return ('s', n, ip.opq(('mv', s[1], kc), vt))
    return None


def same_keys(c, a, b, kc, k2):
    ip, st = c.ip, c.st
    if ip.plain_keys:
        def plain(x):
            while x.__class__ is Ref or x.__class__ is Agg and x.ty.__class__ is int and ip.is_box(x.ty):
                x = ip.load(st, x.cell, x.proj) if x.__class__ is Ref else x.f[0]
            return x
        a, b = plain(a), plain(b)
        if a.__class__ is Agg and b.__class__ is Agg and a.var == b.var and all(x.__class__ is Lin for x in a.f + b.f):
            for x, y in zip(a.f, b.f):
                if not c.decide(c_eq(st.facts.norm(x - y))):
                    return False
            return True
    return decide(st, Cnd('unk', (('keq',) + tuple(sorted((kc, k2), key=repr)), True)))


def distinct(ip, st, a, b):
    """True when two keys are certainly different"""
    while a.__class__ is Ref:
        a = ip.load(st, a.cell, a.proj)
    while b.__class__ is Ref:
        b = ip.load(st, b.cell, b.proj)
    if a.__class__ is Lin and b.__class__ is Lin:
        return True if st.facts.nonzero(a - b) else None
    if a.__class__ is Agg and b.__class__ is Agg and a.ty == b.ty:
        if a.var != b.var:
            return True
        for x, y in zip(a.f, b.f):
            if x.__class__ in (Lin, Agg) and y.__class__ in (Lin, Agg) and distinct(ip, st, x, y):
                return True
    return None


def map_put(ip, st, cell, proj, m, key, val):
    i = len(m.segs)
    ip.store(st, cell, proj, Lst(m.ty, m.segs + (('e', Agg(('pair',), None, (key, val))),), m.tag))
    st.ev(('mapins', key, val))
    off = ZERO
    for s in m.segs:
        off = off + seglen(s)
    return Ref(cell, proj + (('ix', off), 1))


_MAPS = [('std::collections::hash::map::HashMap::<K, V, S, A>', 'h'), ('std::collections::hash::map::HashMap::<K, V, S>', 'h'),
         ('std::collections::hash::map::HashMap::<K, V>', 'h'),
         ('alloc::collections::btree::map::BTreeMap::<K, V, A>', 'b'), ('alloc::collections::btree::map::BTreeMap::<K, V>', 'b')]


def mapm(*names):
    def deco(f):
        for p, _ in _MAPS:
            for n in names:
                MODELS[p + '::' + n] = f
        return f
    return deco


@mapm('insert')
def map_insert(c):
    ip, st = c.ip, c.st
    cell, proj, m = c.target(0)
    if m.__class__ is Havoc:
        return Havoc(c.ty, m.why)
    v = ip.opq(('prev', ip.fresh_key(st)), c.ty)
    map_put(ip, st, cell, proj, m, c.args[1], c.args[2])
    return v


@mapm('get', 'contains_key', 'get_mut', 'get_key_value')
def map_get(c):
    ip, st = c.ip, c.st
    cell, proj, m = c.target(0)
    nm = c.path.split('::')[-1]
    key = c.args[1]
    if key.__class__ is Ref:
        key = ip.load(st, key.cell, key.proj)
        # &T of a borrowed key: Rc<K> and K are the same key
    key = unbox(ip, key)
    r = map_probe2(c, cell, proj, m, key)
    if nm == 'contains_key':
        return r is not None
    if r is None:
        return c.none()
    if nm == 'get_key_value':
        raise Unsupported(c.path)
    if nm == 'get_mut':
        st.ev(('mapmut', nm))
    if r[0] == 'e':
        off = ZERO
        for s in m.segs[:r[1]]:
            off = off + seglen(s)
        return c.some(Ref(cell, proj + (('ix', off), 1)))
    hc = ('mv', canon(ip, st, r[2]))
    st.cells[hc] = r[2]
    return c.some(Ref(hc, ()))


def unbox(ip, v):
    while v.__class__ is Agg and v.ty.__class__ is int and ip.is_box(v.ty):
        v = v.f[0]
    return v


def map_probe2(c, cell, proj, m, key):
    """probe with keys compared without their Rc / Box"""
    ip, st = c.ip, c.st
    kc = canon(ip, st, key)
    for n in range(len(m.segs) - 1, -1, -1):
        s = m.segs[n]
        if s[0] == 'e':
            k2v = unbox(ip, s[1].f[0])
            k2 = canon(ip, st, k2v)
            if k2 == kc:
                return ('e', n)
            if distinct(ip, st, key, k2v) is not True:
                if same_keys(c, key, s[1].f[0], kc, k2):
                    return ('e', n)
        else:
            ln = st.facts.norm(s[2])
            if ln.const and ln.c == 0:
                continue
            if decide(st, Cnd('unk', (('has', s[1], kc), True))):
                vt = s[3][1] if s[3].__class__ is tuple else None
                if vt is None:
                    raise Unsupported('map of unknown type')
                # a map with an entry is not empty
                st.facts.add_le(K(1) - ln)
                st.ev(('mapfound', s[1], key))
                return ('s', n, ip.opq(('mv', s[1], kc), vt))
    return None


def unknown_list(c, v, hi):
    """a list like v of unknown contents with up to hi elements"""
    ip, st = c.ip, c.st
    sy = ('lost', ip.fresh_key(st), sum(1 for _ in st.events()))
    n = A(sym(('len', sy), 0, (1 << 63) - 1))
    if hi is not None:
        st.facts.add_le(n - hi)
    et = next((s[3] for s in v.segs if s[0] == 's'), None)
    if et is None:
        lt = ip.is_list_ty(v.ty) if v.ty.__class__ is int else None
        if lt is None:
            raise Unsupported('list of unknown type')
        et = lt[1]
    return Lst(v.ty, (('s', sy, n, et),), v.tag)


def no_effect(c, f):
    """a closure that holds no mutable reference"""
    if f.__class__ is not Agg or f.ty.__class__ is not int or c.ip.T[f.ty]['k'] != 'closure':
        raise Unsupported('unknown closure')
    for t in c.ip.T[f.ty]['upvars']:
        t = c.ip.T[t]
        if t['k'] not in ('int', 'bool', 'float', 'char') and not (t['k'] == 'ref' and not t.get('mutable')):
            raise Unsupported('closure with captured state')


@mapm('remove', 'remove_entry')
def map_remove(c):
    cell, proj, m = c.target(0)
    if m.__class__ is Havoc:
        return Havoc(c.ty, m.why)
    c.st.ev(('mapmut', 'remove'))
    c.ip.store(c.st, cell, proj, unknown_list(c, m, m.length()))
    return c.ip.opq(('removed', c.ip.fresh_key(c.st)), c.ty)


@mapm('retain')
def map_retain(c):
    cell, proj, m = c.target(0)
    no_effect(c, c.args[1])
    c.st.ev(('mapmut', 'retain'))
    c.ip.store(c.st, cell, proj, unknown_list(c, m, m.length()))
    return c.unit()


@mapm('clear')
def map_clear(c):
    cell, proj, m = c.target(0)
    c.st.ev(('mapmut', 'clear'))
    c.ip.store(c.st, cell, proj, Lst(m.ty, (), m.tag))
    return c.unit()


@mapm('len')
def map_len(c):
    _, _, m = c.target(0)
    return c.ip.opq(('maplen', canon(c.ip, c.st, m)), c.ty)


@mapm('is_empty')
def map_is_empty(c):
    _, _, m = c.target(0)
    return c_eq(c.st.facts.norm(m.length()))


@mapm('entry')
def map_entry(c):
    ip, st = c.ip, c.st
    cell, proj, m = c.target(0)
    if m.__class__ is Havoc:
        return Havoc(c.ty, m.why)
    key = c.args[1]
    r = map_probe2(c, cell, proj, m, unbox(ip, key))
    names = [v['name'] for v in ip.T[c.ty]['variants']]
    occ = names.index('Occupied')
    vac = names.index('Vacant')
    mr = Ref(cell, proj)
    if r is None:
        return Agg(c.ty, vac, (Agg(('vacant',), None, (mr, key)),))
    if r[0] == 'e':
        off = ZERO
        for s in m.segs[:r[1]]:
            off = off + seglen(s)
        ref = Ref(cell, proj + (('ix', off), 1))
    else:
        hc = ('mv', canon(ip, st, r[2]))
        st.cells[hc] = r[2]
        ref = Ref(hc, ())
    return Agg(c.ty, occ, (Agg(('occupied',), None, (mr, key, ref)),))


_ENT = ["std::collections::hash::map::Entry::<'a, K, V, A>", "std::collections::hash::map::Entry::<'a, K, V>",
        "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>", "alloc::collections::btree::map::entry::Entry::<'a, K, V>"]
_OCC = ["std::collections::hash::map::OccupiedEntry::<'a, K, V, A>", "std::collections::hash::map::OccupiedEntry::<'a, K, V>",
        "alloc::collections::btree::map::entry::OccupiedEntry::<'a, K, V, A>"]
_VAC = ["std::collections::hash::map::VacantEntry::<'a, K, V, A>", "std::collections::hash::map::VacantEntry::<'a, K, V>",
        "alloc::collections::btree::map::entry::VacantEntry::<'a, K, V, A>"]


def entm(bases, *names):
    def deco(f):
        for p in bases:
            for n in names:
                MODELS[p + '::' + n] = f
        return f
    return deco


@entm(_ENT, 'or_insert')
def entry_or_insert(c):
    ip, st = c.ip, c.st
    e = c.args[0]
    if e.__class__ is Havoc:
        return Havoc(c.ty, e.why)
    x = e.f[0]
    if x.ty == ('occupied',):
        return x.f[2]
    mr = x.f[0]
    return map_put(ip, st, mr.cell, mr.proj, ip.load(st, mr.cell, mr.proj), x.f[1], c.args[1])


@entm(_ENT, 'or_insert_with', 'or_insert_with_key', 'or_default')
def entry_or_insert_with(c):
    ip, st = c.ip, c.st
    if c.path.endswith('or_default'):
        return NotImplemented
    e = c.args[0]
    x = e.f[0]
    if x.ty == ('occupied',):
        return x.f[2]
    mr, key = x.f[0], x.f[1]
    dest = ip.place(st, c.t[3])
    target = c.t[4]

    def cont(ip, st, v):
        r = map_put(ip, st, mr.cell, mr.proj, ip.load(st, mr.cell, mr.proj), key, v)
        ip.store(st, dest[0], dest[1], r)
        st.bb = target
        st.pc = 0
        return st
    args = []
    if c.path.endswith('with_key'):
        raise Unsupported(c.path)
    return ip.invoke(st, c.args[1], args, dest, target, c.line, cont)


@entm(_OCC, 'get', 'into_mut', 'get_mut')
def occ_get(c):
    e = c.args[0]
    if e.__class__ is Ref:
        e = c.ip.load(c.st, e.cell, e.proj)
    return e.f[2]


@entm(_VAC, 'insert')
def vac_insert(c):
    ip, st = c.ip, c.st
    x = c.args[0]
    mr = x.f[0]
    return map_put(ip, st, mr.cell, mr.proj, ip.load(st, mr.cell, mr.proj), x.f[1], c.args[1])


# ------------------------------------------------------------------ Option helpers that need shapes
@model('core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut')
def opt_as_ref(c):
    ip, st = c.ip, c.st
    r = c.args[0]
    v = ip.load(st, r.cell, r.proj)
    if v.__class__ is Havoc:
        return Havoc(c.ty, v.why)
    var = ip.variant_of(st, v)
    if var == 0:
        return c.none()
    return c.some(Ref(r.cell, r.proj + ((1, 0),)))


@model('core::option::Option::<T>::take')
def opt_take(c):
    ip, st = c.ip, c.st
    r = c.args[0]
    v = ip.load(st, r.cell, r.proj)
    ip.store(st, r.cell, r.proj, Agg(c.ty, 0, ()))
    return v


# ------------------------------------------------------------------ formatting
def fmt_out(c, segs):
    """append to the output of a Formatter; writing may fail"""
    return emit(c.ip, c.st, c.args[0], segs, c.ty, c.ip.fresh_key(c.st))


def fmt_to(c, segs):
    """the same where the Formatter is the second argument"""
    return emit(c.ip, c.st, c.args[1], segs, c.ty, c.ip.fresh_key(c.st))


def emit(ip, st, to, segs, ty, key):
    def done(var):
        return Agg(ty, var, (Agg(ip.field_ty(ty, var, 0), None, ()),))
    r = to
    while True:
        v = ip.load(st, r.cell, r.proj) if r.__class__ is Ref else r
        if v.__class__ is Ref:
            r = v
        elif v.__class__ is Agg and v.ty == ('formatter',):
            r = v.f[0]
        else:
            break
    if v.__class__ is Lst and r.__class__ is Ref:
        ip.store(st, r.cell, r.proj, Lst(v.ty, v.segs + tuple(segs), v.tag))
        return done(0)
    if decide(st, Cnd('unk', (('fmtfail', key), True))):
        st.cells[('fmterr',)] = True
        return done(1)
    if ip.out_hook is not None:
        ip.out_hook(st, segs)
        return done(0)
    out = st.cells.get(('out',))
    if out is None:
        out = Lst(None, ())
    st.cells[('out',)] = Lst(None, out.segs + tuple(segs))
    return done(0)


@model("core::fmt::Formatter::<'a>::new")
def formatter_new(c):
    return Agg(('formatter',), None, (c.args[0],))


def fmt_target(c):
    """the Formatter, or a String, behind argument 0"""
    cell, proj, v = c.target(0)
    return cell, proj, v


@model("core::fmt::Formatter::<'a>::write_str", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str",
       "core::fmt::Formatter::<'a>::pad")
def fmt_write_str(c):
    l = contents(c.ip, c.st, c.slice(1))
    return fmt_out(c, l.segs)


@model("<core::fmt::Formatter<'_> as core::fmt::Write>::write_char")
def fmt_write_char(c):
    return fmt_out(c, (('e', c.args[1]),))


@model('<str as core::fmt::Display>::fmt', '<alloc::string::String as core::fmt::Display>::fmt')
def str_display(c):
    l = contents(c.ip, c.st, c.slice(0))
    return fmt_to(c, l.segs)


@model('<char as core::fmt::Display>::fmt')
def char_display(c):
    _, _, v = c.target(0)
    return fmt_to(c, (('e', v),))


@model("core::fmt::Arguments::<'a>::from_str_nonconst", "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const")
def args_from_str(c):
    return Agg(('fmtargs',), None, (c.args[0], None))


@model("core::fmt::Arguments::<'a>::new")
def args_new(c):
    return Agg(('fmtargs',), None, (c.args[0], c.args[1]))


@model("core::fmt::rt::Argument::<'_>::new_display")
def arg_display(c):
    tt = c.targs[0] if c.targs else None
    for x in c.targs:
        tt = x
    return Agg(('fmtarg',), None, (c.args[0], tt))


def parse_template(bs):
    out = []
    i = 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf-8'))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + ln]).decode('utf-8'))
            i += 2 + ln
        elif n == 0xC0:
            out.append(None)
        else:
            raise Unsupported('format options')


def fmt_items(c, a):
    """what format arguments write: [('segs', segs) | ('call', fn, ref)]"""
    ip, st = c.ip, c.st
    if a.__class__ is not Agg or a.ty != ('fmtargs',):
        raise Unsupported('format arguments')
    if a.f[1] is None:
        return [('segs', tuple(contents(ip, st, to_slice(ip, st, a.f[0])).segs))]
    tl = contents(ip, st, to_slice(ip, st, a.f[0]))
    bs = str_of(ip, st, tl)
    parts = parse_template(bs)
    argl = contents(ip, st, to_slice(ip, st, a.f[1]))
    items = []
    n = 0

    def add(segs):
        if items and items[-1][0] == 'segs':
            items[-1] = ('segs', items[-1][1] + tuple(segs))
        else:
            items.append(('segs', tuple(segs)))
    for p in parts:
        if p is not None:
            add((('t', tuple(ord(x) for x in p)),))
            continue
        arg = ip.elem(st, argl, K(n))
        n += 1
        v = arg.f[0]
        ty = arg.f[1]
        ref = v
        while v.__class__ is Ref:
            ref = v
            v = ip.load(st, v.cell, v.proj)
        if v.__class__ is Sl:
            add(contents(ip, st, v).segs)
        elif v.__class__ is Lst and (ip.is_list_ty(v.ty) or (0,))[0] == 'str':
            add(v.segs)
        elif v.__class__ is Lin and ty is not None and 'char' in ip.T[ty]['s']:
            add((('e', v),))
        elif v.__class__ is Lin:
            v = st.facts.norm(v)
            if v.const:
                add((('t', tuple(ord(x) for x in str(v.c))),))
            else:
                add((('s', ('dec', v), A(sym(('declen', v), 1, 40)), 'char'),))
        else:
            while ty is not None and ip.T[ty]['k'] == 'ref':
                ty = ip.T[ty]['ty']
            fs = [f for f in ip.p.fns if f is not None and f.local and f.body and f.decl == 'core::fmt::Display::fmt'
                  and ty is not None and f.path == '<%s as core::fmt::Display>::fmt' % ip.T[ty]['s']]
            if len(fs) != 1 or ref.__class__ is not Ref:
                raise Unsupported('formatting through format_args')
            items.append(('call', fs[0], ref))
    return items


def write_items(ip, st, to, items, i, ty, site, target, line, done):
    while i < len(items):
        it = items[i]
        if it[0] == 'segs':
            r = emit(ip, st, to, it[1], ty, site + (i,))
            if r.var == 1:
                return done(ip, st, r)
            i += 1
            continue

        def cont(ip, st, v, i=i):
            if ip.variant_of(st, v) == 1:
                return done(ip, st, v)
            return write_items(ip, st, to, items, i + 1, ty, site, target, line, done)
        return ip.push(st, it[1], [it[2], to], None, target, line, cont, ('fmt', i))
    return done(ip, st, Agg(ty, 0, (Agg(ip.field_ty(ty, 0, 0), None, ()),)))


@model("core::fmt::Formatter::<'a>::write_fmt", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt", 'core::fmt::Write::write_fmt')
def fmt_write_fmt(c):
    ip, st = c.ip, c.st
    items = fmt_items(c, c.args[1])
    if all(x[0] == 'segs' for x in items):
        return fmt_out(c, items[0][1] if items else ())
    if c.noframe:
        raise Unsupported('format arguments')
    dest = ip.place(st, c.t[3])
    target = c.t[4]

    def done(ip, st, v):
        ip.store(st, dest[0], dest[1], v)
        st.bb = target
        st.pc = 0
        return st
    return write_items(ip, st, c.args[0], items, 0, c.ty, ip.fresh_key(st), target, c.line, done)


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def alloc_format(c):
    ip, st = c.ip, c.st
    items = fmt_items(c, c.args[0])
    if all(x[0] == 'segs' for x in items):
        return Lst(c.ty, items[0][1] if items else ())
    dest = ip.place(st, c.t[3])
    target = c.t[4]
    cell = ('fmtbuf', ip.fresh_key(st))
    st.cells[cell] = Lst(c.ty, ())
    rty = ip.p.fns[[x for x in items if x[0] == 'call'][0][1].id].locals[0]

    def done(ip, st, v):
        ip.store(st, dest[0], dest[1], st.cells.pop(cell))
        st.bb = target
        st.pc = 0
        return st
    return write_items(ip, st, Ref(cell, ()), items, 0, rty, ip.fresh_key(st), target, c.line, done)


# ------------------------------------------------------------------ hashing
def hash_ev(c, what):
    """feeds `what` to the hasher: recorded in the cell of the hasher"""
    ip, st = c.ip, c.st
    h = st.cells.get(('hash',), ())
    st.cells[('hash',)] = h + (what,)
    return c.unit()


@prefix('core::hash::Hasher::write_', 'core::hash::Hasher::write')
def hasher_write(c):
    m = c.decl.split('::')[-1]
    v = c.args[1]
    if m == 'write' or m == 'write_str':
        l = contents(c.ip, c.st, to_slice(c.ip, c.st, v))
        return hash_ev(c, (m, canon(c.ip, c.st, l)))
    return hash_ev(c, (m, canon(c.ip, c.st, v)))


@prefix('core::hash::impls::<impl core::hash::Hash for ')
def prim_hash(c):
    _, _, v = c.target(0)
    if c.path.endswith('hash_slice'):
        return NotImplemented
    nm = c.path[len('core::hash::impls::<impl core::hash::Hash for '):].split('>')[0]
    if v.__class__ is Sl:
        v = contents(c.ip, c.st, v)
    if v.__class__ not in (Lin, bool, Cnd, Lst):
        return NotImplemented
    return hash_ev(c, (nm, canon(c.ip, c.st, v)))


@model('<alloc::string::String as core::hash::Hash>::hash', '<str as core::hash::Hash>::hash')
def str_hash(c):
    l = contents(c.ip, c.st, c.slice(0))
    return hash_ev(c, ('str', canon(c.ip, c.st, l)))


# ------------------------------------------------------------------ intrinsics
def intr(*names):
    return model(*('core::intrinsics::' + n for n in names))


@intr('unlikely', 'likely', 'black_box')
def intr_id(c):
    return c.args[0]


@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid')
def intr_nop(c):
    return c.unit()


@intr('discriminant_value')
def intr_discr(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.cell, r.proj)
    return c.ip.discr(c.st, v, None)


@model('core::mem::discriminant')
def mem_discr(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.cell, r.proj)
    return Agg(c.ty, None, (c.ip.discr(c.st, v, None),))


@intr('assume')
def intr_assume(c):
    v = c.args[0]
    if v.__class__ is Cnd:
        fs = assume(c.st.facts, v)
        if len(fs) == 1:
            c.st.facts = fs[0]
        elif not fs:
            return None
    return c.unit()


@intr('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub', 'unchecked_add', 'unchecked_sub', 'unchecked_mul',
      'wrapping_mul', 'add_with_overflow', 'sub_with_overflow', 'mul_with_overflow', 'exact_div')
def intr_arith(c):
    ip, st = c.ip, c.st
    a, b = c.args[0], c.args[1]
    if a.__class__ is not Lin or b.__class__ is not Lin:
        raise Unsupported(c.path)
    n = c.path.split('::')[-1]
    if n.endswith('_with_overflow'):
        tt = ip.T[c.ty]['tys'][0]
        return ip.binop(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[n[:3]] + 'WithOverflow', a, b, tt, tt, c.line)
    op = 'add' if 'add' in n else 'sub' if 'sub' in n else 'mul'
    lo, hi = ip.int_range(c.ty)
    if op == 'mul':
        v = b.scale(a.c) if a.const else a.scale(b.c) if b.const else ip.op2(st, 'mul', a, b)
    else:
        v = a + b if op == 'add' else a - b
    if n.startswith('unchecked'):
        return v
    if n.startswith('wrapping'):
        return ip.wrap(st, v, c.ty)
    if not c.decide(c_le(v - hi)):
        return K(hi)
    if not c.decide(c_le(K(lo) - v)):
        return K(lo)
    return v


@intr('three_way_compare')
def intr_cmp(c):
    return c.ip.binop(c.st, 'Cmp', c.args[0], c.args[1], None, None, c.line)


@intr('integer_min', 'integer_max')
def intr_minmax(c):
    a, b = c.args[0], c.args[1]
    if a.__class__ is not Lin or b.__class__ is not Lin:
        raise Unsupported(c.path)
    le = c.decide(c_le(a - b))
    return (a if le else b) if c.path.endswith('min') else (b if le else a)


@intr('needs_drop')
def intr_needs_drop(c):
    return True


@intr('abort')
def intr_abort(c):
    c.ip.panic(c.st, 'abort', c.line)
    return None
