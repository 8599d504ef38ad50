"""Models of what the library does to whole sequences: sorting, removing duplicates, sets, iteration over maps.
A sequence of a known number of elements is followed exactly; of any other, the result is a list of unknown
contents, which nothing can be proved about."""
from lin import *
import vals
from vals import *
from models import *
from models import MODELS, PREFIX, Call, contents, put_window, unknown_list, no_effect, slice_iter_next, slice_iter_next_back

KNOWN = 5


def known(ip, st, l, most=KNOWN):
    """the elements of a list of a known, small length"""
    out = []
    for s in l.segs:
        n = st.facts.norm(seglen(s))
        if not n.const or len(out) + n.c > most:
            return None
        for i in range(n.c):
            if s[0] == 'e':
                out.append(s[1])
            else:
                out.append(ip.elem(st, Lst(l.ty, (s,)), K(i)))
    return out


def elems(xs):
    return tuple(('e', x) for x in xs)


def calls(c, f, nextargs, fin):
    """f is called with nextargs(ip, st, results so far) until that is None; the value is fin(ip, st, results)"""
    ip, st = c.ip, c.st
    if c.noframe:
        raise Unsupported('call from a function value')
    while f.__class__ is Ref:
        g = ip.load(st, f.cell, f.proj)
        if g.__class__ is not Ref:
            break
        f = g
    if f.__class__ is not Ref:
        cell = ('cl', ('calls', st.frames[-1].uid, st.bb))
        st.cells[cell] = f
        f = Ref(cell, ())
    dest = ip.place(st, c.t[3])
    target, line = c.t[4], c.line

    def step(ip, st, got):
        a = nextargs(ip, st, got)
        if a is None:
            v = fin(ip, st, got)
            ip.store(st, dest[0], dest[1], v)
            st.bb = target
            st.pc = 0
            return st

        def cont(ip, st, v):
            return step(ip, st, got + (v,))
        return ip.invoke(st, f, a, None, target, line, cont, ('calls', len(got)))
    return step(ip, st, ())


def lose(c, f, why):
    """whatever f can write to is not known any more"""
    ip, st = c.ip, c.st
    while f.__class__ is Ref:
        f = ip.load(st, f.cell, f.proj)
    if f.__class__ is Fnv:
        return
    if f.__class__ is not Agg or f.ty.__class__ is not int or ip.T[f.ty]['k'] != 'closure':
        raise Unsupported('unknown closure')
    for t, v in zip(ip.T[f.ty]['upvars'], f.f):
        t = ip.T[t]
        if t['k'] in ('int', 'bool', 'float', 'char') or t['k'] == 'ref' and not t.get('mutable'):
            continue
        if v.__class__ is not Ref:
            raise Unsupported('closure with captured state')
        x = ip.load(st, v.cell, v.proj)
        if x.__class__ is Lst:
            ip.store(st, v.cell, v.proj, unknown_list(c, x, None))
        else:
            ip.store(st, v.cell, v.proj, ip.havoc(st, t['ty'], why))


def lost_like(c, l, n):
    """a list of n unknown elements"""
    ip = c.ip
    u = unknown_list(c, l, n)
    s = u.segs[0]
    return Lst(u.ty, (('s', s[1], c.st.facts.norm(n), s[3]),), u.tag)


# ------------------------------------------------------------------ comparing
def veq(ip, st, a, b, depth=0):
    """whether two values are equal, as the derived comparison has it"""
    while a.__class__ is Ref:
        a = ip.load(st, a.cell, a.proj)
    while b.__class__ is Ref:
        b = ip.load(st, b.cell, b.proj)
    if a.__class__ is Lin and b.__class__ is Lin:
        return decide(st, c_eq(st.facts.norm(a - b)))
    if a in (True, False) and b in (True, False):
        return a == b
    if a.__class__ is Lst and b.__class__ is Lst or a.__class__ is Sl and b.__class__ is Sl:
        if a.__class__ is Sl:
            a, b = contents(ip, st, a), contents(ip, st, b)
        lt = ip.is_list_ty(a.ty) if a.ty.__class__ is int else None
        if lt and lt[0] == 'str':
            return decide(st, seq_equal(ip, st, a, b))
    if a.__class__ is Agg and b.__class__ is Agg and a.ty == b.ty and depth < 4 and a.ty.__class__ is int:
        t = ip.T[a.ty]
        if t['k'] == 'tuple' or t['k'] == 'adt' and t['path'].split('::')[0] in ('basic', 'types', 'core') \
                and not t['path'].endswith('::Item'):
            if a.var != b.var:
                return False
            for x, y in zip(a.f, b.f):
                if not veq(ip, st, x, y, depth + 1):
                    return False
            return True
    if a.__class__ is Opq and b.__class__ is Opq and a.ty == b.ty and a.sym == b.sym and ip.T[a.ty]['k'] != 'float':
        return True
    raise Unsupported('comparison of values')


def vcmp(ip, st, a, b, depth=0):
    """-1, 0 or 1, as the derived order has it"""
    while a.__class__ is Ref:
        a = ip.load(st, a.cell, a.proj)
    while b.__class__ is Ref:
        b = ip.load(st, b.cell, b.proj)
    if a.__class__ is Lin and b.__class__ is Lin:
        d = st.facts.norm(a - b)
        if decide(st, c_eq(d)):
            return 0
        return -1 if decide(st, c_le(st.facts.norm(d))) else 1
    if a.__class__ is Agg and b.__class__ is Agg and a.ty == b.ty and depth < 4 and a.ty.__class__ is int \
            and ip.T[a.ty]['k'] in ('tuple', 'adt'):
        if ip.T[a.ty]['k'] == 'adt' and ip.T[a.ty]['path'] == 'core::cmp::Reverse':
            return -vcmp(ip, st, a.f[0], b.f[0], depth + 1)
        if a.var != b.var:
            return -1 if a.var < b.var else 1
        for x, y in zip(a.f, b.f):
            r = vcmp(ip, st, x, y, depth + 1)
            if r:
                return r
        return 0
    raise Unsupported('order of values')


def insertion(n):
    """a stable sort as the comparisons it makes: yields (i, j), is sent the order of i and j"""
    perm = []
    for i in range(n):
        k = len(perm)
        while k > 0:
            r = yield (perm[k - 1], i)
            if r <= 0:
                break
            k -= 1
        perm.insert(k, i)
    return perm


def replayed(n, answers):
    """the next comparison after these answers, or the order"""
    g = insertion(n)
    try:
        q = next(g)
        for a in answers:
            q = g.send(a)
        return q, None
    except StopIteration as e:
        return None, e.value


def sorted_(ip, st, xs):
    ans = []
    while True:
        q, perm = replayed(len(xs), ans)
        if perm is not None:
            return [xs[i] for i in perm]
        ans.append(vcmp(ip, st, xs[q[0]], xs[q[1]]))


_S = 'alloc::slice::<impl [T]>::'
_U = 'core::slice::<impl [T]>::'


def window(c):
    s = c.slice(0)
    base = c.ip.load(c.st, s.cell, s.proj)
    if base.__class__ is Havoc:
        raise Unsupported('slice of unknown value: ' + base.why)
    return s, contents(c.ip, c.st, s)


def at(s, i):
    return Ref(s.cell, s.proj + (('ix', s.off + i),))


@model(_S + 'sort', _U + 'sort_unstable')
def seq_sort(c):
    s, l = window(c)
    xs = known(c.ip, c.st, l)
    if xs is None:
        put_window(c, s, lost_like(c, l, s.len).segs)
    else:
        put_window(c, s, elems(sorted_(c.ip, c.st, xs)))
    return c.unit()


@model(_S + 'sort_by', _U + 'sort_unstable_by')
def seq_sort_by(c):
    s, l = window(c)
    xs = known(c.ip, c.st, l)
    if xs is None:
        lose(c, c.args[1], 'sort')
        put_window(c, s, lost_like(c, l, s.len).segs)
        return c.unit()
    put_window(c, s, elems(xs))
    unit = c.unit()

    def answers(ip, st, got):
        return [ip.variant_of(st, v) - 1 for v in got]

    def nxt(ip, st, got):
        q, perm = replayed(len(xs), answers(ip, st, got))
        return None if q is None else [at(s, q[0]), at(s, q[1])]

    def fin(ip, st, got):
        q, perm = replayed(len(xs), answers(ip, st, got))
        put_window(here(ip, st), s, elems([xs[i] for i in perm]))
        return unit
    return calls(c, c.args[1], nxt, fin)


class here:
    """what put_window wants of a call"""
    def __init__(self, ip, st):
        self.ip, self.st = ip, st


@model(_S + 'sort_by_key', _S + 'sort_by_cached_key', _U + 'sort_unstable_by_key')
def seq_sort_by_key(c):
    s, l = window(c)
    xs = known(c.ip, c.st, l)
    if xs is None:
        lose(c, c.args[1], 'sort')
        put_window(c, s, lost_like(c, l, s.len).segs)
        return c.unit()
    put_window(c, s, elems(xs))
    unit = c.unit()

    def nxt(ip, st, got):
        return None if len(got) == len(xs) else [at(s, len(got))]

    def fin(ip, st, got):
        ks = [Agg(('pair',), i, (k,)) for i, k in enumerate(got)]
        ans = []
        while True:
            q, perm = replayed(len(xs), ans)
            if perm is not None:
                break
            ans.append(vcmp(ip, st, got[q[0]], got[q[1]]))
        put_window(here(ip, st), s, elems([xs[i] for i in perm]))
        return unit
    return calls(c, c.args[1], nxt, fin)


@model(_U + 'reverse')
def seq_reverse(c):
    s, l = window(c)
    xs = known(c.ip, c.st, l)
    if xs is None:
        put_window(c, s, lost_like(c, l, s.len).segs)
    else:
        put_window(c, s, elems(xs[::-1]))
    return c.unit()


@model(_U + 'rotate_left', _U + 'rotate_right')
def seq_rotate(c):
    s, l = window(c)
    k = c.st.facts.norm(c.args[1])
    c.ip.require(c.st, c_le(k - s.len), 'mid > len', c.line)
    xs = known(c.ip, c.st, l)
    if xs is None or not k.const:
        put_window(c, s, lost_like(c, l, s.len).segs)
    else:
        n = k.c if c.path.endswith('left') else len(xs) - k.c
        put_window(c, s, elems(xs[n:] + xs[:n]))
    return c.unit()


@model(_U + 'contains')
def seq_contains(c):
    s, l = window(c)
    xs = known(c.ip, c.st, l, 64)
    x = c.args[1]
    while x.__class__ is Ref:
        x = c.ip.load(c.st, x.cell, x.proj)
    if xs is not None and x.__class__ is Lin and all(y.__class__ is Lin for y in xs):
        return c_or([c_eq(c.st.facts.norm(y - x)) for y in xs])
    if xs is None or len(xs) > KNOWN:
        return Cnd('unk', (('contains', c.ip.fresh_key(c.st), canon(c.ip, c.st, l), canon(c.ip, c.st, c.args[1])), True))
    return any(veq(c.ip, c.st, x, c.args[1]) for x in xs)


_V = 'alloc::vec::Vec::<T, A>::'


@model(_V + 'dedup')
def vec_dedup(c):
    cell, proj, v = c.target(0)
    xs = known(c.ip, c.st, v)
    if xs is None:
        c.ip.store(c.st, cell, proj, unknown_list(c, v, v.length()))
        return c.unit()
    out = []
    for x in xs:
        if not out or not veq(c.ip, c.st, x, out[-1]):
            out.append(x)
    c.ip.store(c.st, cell, proj, Lst(v.ty, elems(out), v.tag))
    return c.unit()


@model(_V + 'dedup_by')
def vec_dedup_by(c):
    cell, proj, v = c.target(0)
    xs = known(c.ip, c.st, v)
    if xs is None:
        lose(c, c.args[1], 'dedup')
        c.ip.store(c.st, cell, proj, unknown_list(c, v, v.length()))
        return c.unit()
    unit = c.unit()
    c.ip.store(c.st, cell, proj, Lst(v.ty, elems(xs), v.tag))

    def kept(ip, st, got):
        out = [0]
        for i, r in enumerate(got):
            if not decide(st, r):
                out.append(i + 1)
        return out

    def nxt(ip, st, got):
        if len(got) + 1 >= len(xs):
            return None
        return [Ref(cell, proj + (('ix', K(len(got) + 1)),)), Ref(cell, proj + (('ix', K(kept(ip, st, got)[-1])),))]

    def fin(ip, st, got):
        if xs:
            ip.store(st, cell, proj, Lst(v.ty, elems([xs[i] for i in kept(ip, st, got)]), v.tag))
        return unit
    return calls(c, c.args[1], nxt, fin)


@model(_V + 'dedup_by_key')
def vec_dedup_by_key(c):
    cell, proj, v = c.target(0)
    xs = known(c.ip, c.st, v)
    if xs is None:
        lose(c, c.args[1], 'dedup')
        c.ip.store(c.st, cell, proj, unknown_list(c, v, v.length()))
        return c.unit()
    unit = c.unit()
    c.ip.store(c.st, cell, proj, Lst(v.ty, elems(xs), v.tag))

    def nxt(ip, st, got):
        return None if len(got) == len(xs) else [Ref(cell, proj + (('ix', K(len(got))),))]

    def fin(ip, st, got):
        out = []
        for i in range(len(xs)):
            if not out or not veq(ip, st, got[i], got[out[-1]]):
                out.append(i)
        ip.store(st, cell, proj, Lst(v.ty, elems([xs[i] for i in out]), v.tag))
        return unit
    return calls(c, c.args[1], nxt, fin)


@model(_V + 'retain', _V + 'retain_mut')
def vec_retain(c):
    cell, proj, v = c.target(0)
    if v.__class__ is Havoc:
        raise Unsupported('slice of unknown value: ' + v.why)
    xs = known(c.ip, c.st, v)
    if xs is None:
        lose(c, c.args[1], 'retain')
        c.ip.store(c.st, cell, proj, unknown_list(c, v, v.length()))
        return c.unit()
    unit = c.unit()
    c.ip.store(c.st, cell, proj, Lst(v.ty, elems(xs), v.tag))

    def nxt(ip, st, got):
        return None if len(got) == len(xs) else [Ref(cell, proj + (('ix', K(len(got))),))]

    def fin(ip, st, got):
        now = ip.load(st, cell, proj)
        out = [ip.elem(st, now, K(i)) for i in range(len(xs)) if decide(st, got[i])]
        ip.store(st, cell, proj, Lst(v.ty, elems(out), v.tag))
        return unit
    return calls(c, c.args[1], nxt, fin)


# ------------------------------------------------------------------ sets
_HS = 'std::collections::hash::set::HashSet'
_BS = 'alloc::collections::btree::set::BTreeSet'


def setm(*names):
    def deco(f):
        for n in names:
            for p in (_HS + '::<T, S, A>', _HS + '::<T, S>', _HS + '::<T>', _BS + '::<T, A>', _BS + '::<T>'):
                MODELS[p + '::' + n] = f
        return f
    return deco


@setm('new', 'with_capacity', 'default')
def set_new(c):
    return Lst(c.ty, ())


for _p in (_HS + '<T, S, A>', _HS + '<T, S>', _BS + '<T>', _BS + '<T, A>'):
    MODELS['<%s as core::default::Default>::default' % _p] = set_new


def set_has(ip, st, l, x):
    for s in l.segs:
        if s[0] == 'e':
            if veq(ip, st, s[1], x):
                return True
        else:
            n = st.facts.norm(seglen(s))
            if n.const and n.c == 0:
                continue
            if decide(st, Cnd('unk', (('has', s[1], canon(ip, st, x)), True))):
                return True
    return False


@setm('insert')
def set_insert(c):
    cell, proj, v = c.target(0)
    if v.__class__ is not Lst:
        raise Unsupported('set %r' % (v,))
    if set_has(c.ip, c.st, v, c.args[1]):
        return False
    c.ip.store(c.st, cell, proj, Lst(v.ty, v.segs + (('e', c.args[1]),), v.tag))
    return True


@setm('contains')
def set_contains(c):
    cell, proj, v = c.target(0)
    if v.__class__ is not Lst:
        raise Unsupported('set %r' % (v,))
    return set_has(c.ip, c.st, v, c.args[1])


@setm('len')
def set_len(c):
    return c.st.facts.norm(c.target(0)[2].length())


@setm('is_empty')
def set_is_empty(c):
    return c_eq(c.st.facts.norm(c.target(0)[2].length()))


def in_order(c, l, tree, key=lambda x: x):
    """the elements as they come out of a set or map"""
    ip, st = c.ip, c.st
    xs = known(ip, st, l)
    if xs is None or not tree and len(xs) > 1:
        return None
    ks = [key(x) for x in xs]
    ans = []
    while True:
        q, perm = replayed(len(xs), ans)
        if perm is not None:
            return [xs[i] for i in perm]
        ans.append(vcmp(ip, st, ks[q[0]], ks[q[1]]))


def over(c, segs, ty, name):
    """an iterator over a new list"""
    ip, st = c.ip, c.st
    cell = ('cl', (name, st.frames[-1].uid, st.bb))
    l = Lst(ty, tuple(segs))
    st.cells[cell] = l
    return Agg(c.ty, None, (Sl(cell, (), ZERO, st.facts.norm(l.length())),))


def set_iter(c):
    v = c.args[0]
    byref = v.__class__ is Ref
    if byref:
        v = c.target(0)[2]
    if v.__class__ is not Lst:
        raise Unsupported('set %r' % (v,))
    xs = in_order(c, v, c.ip.T[v.ty]['path'] == _BS)
    segs = lost_like(c, v, v.length()).segs if xs is None else elems(xs)
    return over(c, segs, v.ty, 'set')


for _p in (_HS + '<T, S, A>', _HS + '<T, S>', _BS + '<T>', _BS + '<T, A>'):
    for _q in ('<%s as', "<&'a %s as"):
        MODELS[(_q + ' core::iter::traits::collect::IntoIterator>::into_iter') % _p] = set_iter
setm('iter')(set_iter)

_NEXT = ' as core::iter::traits::iterator::Iterator>::next'
_BACK = ' as core::iter::traits::double_ended::DoubleEndedIterator>::next_back'


def by_value(f):
    def g(c):
        r = f(c)
        if r.__class__ is not Agg or r.var == 0:
            return r
        x = r.f[0]
        return Agg(r.ty, r.var, (c.ip.load(c.st, x.cell, x.proj),))
    return g


for _t in ("std::collections::hash::set::IntoIter<K>", "std::collections::hash::set::IntoIter<K, A>",
           "alloc::collections::btree::set::IntoIter<T, A>"):
    MODELS['<' + _t + _NEXT] = by_value(slice_iter_next)
    MODELS['<' + _t + _BACK] = by_value(slice_iter_next_back)
for _t in ("std::collections::hash::set::Iter<'a, K>", "alloc::collections::btree::set::Iter<'a, T>"):
    MODELS['<' + _t + _NEXT] = slice_iter_next
    MODELS['<' + _t + _BACK] = slice_iter_next_back


# ------------------------------------------------------------------ maps, entry by entry
def entries(c, m, tree):
    """the entries of a map in the order they come out, or None"""
    ip, st = c.ip, c.st
    xs = known(ip, st, m)
    if xs is None:
        return None
    out = []
    for x in xs:
        i = next((i for i, y in enumerate(out) if veq(ip, st, x.f[0], y.f[0])), None)
        if i is None:
            out.append(x)
        else:
            out[i] = Agg(out[i].ty, None, (out[i].f[0], x.f[1]))
    if not tree and len(out) > 1:
        return None
    return in_order(c, Lst(m.ty, elems(out)), True, lambda x: x.f[0])


def part(which):
    def f(c):
        ip, st = c.ip, c.st
        m = c.args[0]
        byref = m.__class__ is Ref
        if byref:
            m = c.target(0)[2]
        if m.__class__ is not Lst:
            raise Unsupported('map %r' % (m,))
        kt, vt = ip.is_list_ty(m.ty)[1]
        xs = entries(c, m, ip.is_list_ty(m.ty)[0] == 'bmap')
        n = st.facts.norm(m.length())
        if xs is None:
            sy = ('lost', ip.fresh_key(st), sum(1 for _ in st.events()))
            k = A(sym(('len', sy), 0, (1 << 63) - 1))
            st.facts.add_le(k - n)
            et = {'k': kt, 'v': vt, 'kv': (kt, vt)}[which]
            segs = (('s', sy, k, et),)
        else:
            segs = elems([x.f[0] if which == 'k' else x.f[1] if which == 'v' else x for x in xs])
        return over(c, segs, ('entries',), 'map')
    return f


for _p in ('std::collections::hash::map::HashMap::<K, V, S, A>', 'std::collections::hash::map::HashMap::<K, V, S>',
           'alloc::collections::btree::map::BTreeMap::<K, V, A>', 'alloc::collections::btree::map::BTreeMap::<K, V>'):
    MODELS[_p + '::keys'] = part('k')
    MODELS[_p + '::into_keys'] = part('k')
    MODELS[_p + '::values'] = part('v')
    MODELS[_p + '::into_values'] = part('v')
for _b in ('alloc::collections::btree::map', 'std::collections::hash::map'):
    for _n, _v in (('Keys', 0), ('Values', 0), ('IntoKeys', 1), ('IntoValues', 1)):
        for _a in ("<'a, K, V>", "<'_, K, V>", '<K, V>', '<K, V, A>'):
            _g = by_value if _v else (lambda f: f)
            MODELS['<' + _b + '::' + _n + _a + _NEXT] = _g(slice_iter_next)
            MODELS['<' + _b + '::' + _n + _a + _BACK] = _g(slice_iter_next_back)
