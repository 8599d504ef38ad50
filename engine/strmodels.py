"""Models of what the library does to strings and numbers beyond the basics.  Where a result has no exact
description it is computed for the inputs for which it has one (short strings, a few numbers), and the path with the
rest either goes on with an unknown value or ends without an answer."""
import struct
from lin import *
import vals
from vals import *
from models import *
from models import MODELS, PREFIX, Call, contents, char_bytes, chars_next, iter_slice, str_as_bytes

SHORT = 16
WHITE = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
         (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


def in_ranges(f, x, rs):
    x = f.norm(x)
    return c_or([c_eq(x - a) if a == b else c_and([c_le(K(a) - x), c_le(x - b)]) for a, b in rs])


_CH = 'core::char::methods::<impl char>::'
CLASS = {
    'is_whitespace': WHITE,
    'is_ascii': [(0, 127)], 'is_ascii_digit': [(48, 57)], 'is_ascii_lowercase': [(97, 122)],
    'is_ascii_uppercase': [(65, 90)], 'is_ascii_alphabetic': [(65, 90), (97, 122)],
    'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)],
    'is_ascii_control': [(0, 31), (127, 127)], 'is_control': [(0, 31), (127, 159)],
    'is_ascii_graphic': [(33, 126)], 'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
    'is_ascii_hexdigit': [(48, 57), (65, 70), (97, 102)],
}


@model(_CH + 'is_whitespace', _CH + 'is_control')
def char_class(c):
    v = c.args[0]
    if v.__class__ is Ref:
        v = c.ip.load(c.st, v.cell, v.proj)
    return in_ranges(c.st.facts, v, CLASS[c.path.split('::')[-1]])


def pattern(c, p):
    """a pattern that looks at one character -> (condition, key); None for others"""
    ip, st = c.ip, c.st
    n = 0
    while p.__class__ is Ref and n < 3:
        p = ip.load(st, p.cell, p.proj)
        n += 1
    if p.__class__ is Lin:
        p = st.facts.norm(p)
        return (lambda f, x: c_eq(f.norm(x - p))), p
    if p.__class__ is Fnv and p.path:
        rs = CLASS.get(p.path.split('::')[-1]) if p.path.startswith(_CH) else None
        if rs is not None:
            return (lambda f, x: in_ranges(f, x, rs)), p.path
        return None
    if p.__class__ is Sl:
        l = contents(ip, st, p)
        t = str_of(ip, st, l)
        if t is not None and (not p.str_ or len(t) == 1):
            return (lambda f, x: c_or([c_eq(f.norm(x - y)) for y in t])), t
        return None
    if p.__class__ is Lst:
        t = str_of(ip, st, p)
        if t is not None:
            return (lambda f, x: c_or([c_eq(f.norm(x - y)) for y in t])), t
    return None


WHITESPACE = (lambda f, x: in_ranges(f, x, WHITE)), 'white'


def char_at(c, s, i):
    ip, st = c.ip, c.st
    return st.facts.norm(ip.elem(st, ip.load(st, s.cell, s.proj), st.facts.norm(s.off + i)))


def part_of(c, s, a, n):
    f = c.st.facts
    return Sl(s.cell, s.proj, f.norm(s.off + a), f.norm(n), s.str_)


def not_exact(c):
    c.ip.inexact = True
    if vals.VAGUE is not None:
        c.st.cells[('g', 'vague')] = Agg(('vague',), 0, ())


def somewhere(c, what, lo, hi):
    """a number between lo and hi that is not related to the text"""
    k = A(sym(('vague', what, c.ip.fresh_key(c.st), sum(1 for _ in c.st.events())), 0, (1 << 63) - 1))
    c.st.facts.add_le(lo - k)
    c.st.facts.add_le(k - hi)
    not_exact(c)
    return k


def search(c, s, pat):
    """the number of characters before the first one that matches, or None"""
    ip, st = c.ip, c.st
    match, key = pat
    n = st.facts.norm(s.len)
    if n.const and n.c <= SHORT:
        for i in range(n.c):
            if c.decide(match(st.facts, char_at(c, s, K(i)))):
                return K(i)
        return None
    if c.decide(c_le(n)):
        return None
    if c.decide(match(st.facts, char_at(c, s, ZERO))):
        return ZERO
    l = contents(ip, st, s)
    if not c.decide(Cnd('unk', (('contains', canon(ip, st, l), key), True))):
        return None
    if not c.decide(c_le(K(2) - n)):
        return None
    k = somewhere(c, 'find', ONE, n - 1)
    x = match(st.facts, char_at(c, s, k))
    if x.__class__ is Cnd and x.op == 'eq':
        st.facts.add_eq(x.a)
    return k


_STR = 'core::str::<impl str>::'


def trimmed(c, s, pat, start):
    ip, st = c.ip, c.st
    match, key = pat
    n = st.facts.norm(s.len)
    if not (n.const and n.c <= SHORT):
        if c.decide(c_le(n)):
            return s
        if not c.decide(match(st.facts, char_at(c, s, ZERO if start else n - 1))):
            return s
        if c.decide(c_eq(n - 1)):
            n = ONE
        else:
            k = somewhere(c, 'trim', ONE, n)
            return part_of(c, s, k, n - k) if start else part_of(c, s, ZERO, n - k)
    k = 0
    while k < n.c and c.decide(match(st.facts, char_at(c, s, K(k if start else n.c - 1 - k)))):
        k += 1
    return part_of(c, s, K(k), n - k) if start else part_of(c, s, ZERO, n - k)


@model(*[_STR + n for n in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches',
                            'trim_end_matches', 'trim_left_matches', 'trim_right_matches')])
def str_trim(c):
    n = c.path.rsplit('::', 1)[1]
    s = c.slice(0)
    if n.endswith('matches'):
        pat = pattern(c, c.args[1])
        if pat is None:
            return NotImplemented
    else:
        pat = WHITESPACE
    if 'end' not in n and 'right' not in n:
        s = trimmed(c, s, pat, True)
    if 'start' not in n and 'left' not in n:
        s = trimmed(c, s, pat, False)
    return s


def prefix_eq(c, s, p, at_end=False):
    """whether the text of p is at the start (end) of s"""
    ip, st = c.ip, c.st
    f = st.facts
    if not c.decide(c_le(f.norm(p.len - s.len))):
        return False
    if not f.norm(p.len).const:
        ip.inexact = True
    a = ip.sublist(st, ip.load(st, s.cell, s.proj), f.norm(s.off + s.len - p.len) if at_end else s.off, p.len)
    return c.decide(seq_equal(ip, st, a, contents(ip, st, p)))


@model(_STR + 'starts_with', _STR + 'ends_with')
def str_starts_ends(c):
    s = c.slice(0)
    end = c.path.endswith('ends_with')
    pat = pattern(c, c.args[1])
    if pat is None:
        if c.args[1].__class__ is Sl and c.args[1].str_:
            return prefix_eq(c, s, c.args[1], end)
        return NotImplemented
    if c.decide(c_le(s.len)):
        return False
    return pat[0](c.st.facts, char_at(c, s, s.len - 1 if end else ZERO))


@model(_STR + 'strip_prefix', _STR + 'strip_suffix')
def str_strip(c):
    s = c.slice(0)
    end = c.path.endswith('suffix')
    pat = pattern(c, c.args[1])
    if pat is None:
        p = c.args[1]
        if p.__class__ is Sl and p.str_:
            if not prefix_eq(c, s, p, end):
                return c.none()
            return c.some(part_of(c, s, ZERO if end else p.len, s.len - p.len))
        return NotImplemented
    if c.decide(c_le(s.len)) or not c.decide(pat[0](c.st.facts, char_at(c, s, s.len - 1 if end else ZERO))):
        return c.none()
    return c.some(part_of(c, s, ZERO if end else ONE, s.len - 1))


def find_text(c, s, p):
    """where the text p first occurs, in characters: exact for short strings"""
    ip, st = c.ip, c.st
    n, m = st.facts.norm(s.len), st.facts.norm(p.len)
    if not m.const:
        raise Unsupported('search for an unknown text')
    if m.c == 0:
        return ZERO
    if not n.const and c.decide(c_le(n - m.c + 1)):
        return None
    if not n.const and c.decide(c_eq(n - m)):
        n = m
    if n.const and n.c <= SHORT:
        for i in range(n.c - m.c + 1):
            if prefix_eq(c, part_of(c, s, K(i), n - i), p):
                return K(i)
        return None
    if prefix_eq(c, s, p):
        return ZERO
    key = canon(ip, st, contents(ip, st, p))
    if not c.decide(Cnd('unk', (('contains', canon(ip, st, contents(ip, st, s)), key), True))):
        return None
    return somewhere(c, 'find', ONE, n - m)


def find_any(c, s, p):
    """(position, length of the match) of a pattern, or None; NotImplemented"""
    pat = pattern(c, p)
    if pat is not None:
        k = search(c, s, pat)
        return None if k is None else (k, ONE)
    if p.__class__ is Sl and p.str_:
        k = find_text(c, s, p)
        return None if k is None else (k, p.len)
    return NotImplemented


@model(_STR + 'contains')
def str_has(c):
    s = c.slice(0)
    pat = pattern(c, c.args[1])
    if pat is not None and not (c.st.facts.norm(s.len).const and c.st.facts.norm(s.len).c <= SHORT):
        return Cnd('unk', (('contains', canon(c.ip, c.st, contents(c.ip, c.st, s)), pat[1]), True))
    r = find_any(c, s, c.args[1])
    if r is NotImplemented:
        return r
    return r is not None


@model(_STR + 'find')
def str_find(c):
    s = c.slice(0)
    r = find_any(c, s, c.args[1])
    if r is NotImplemented:
        return r
    if r is None:
        return c.none()
    return c.some(byte_len(c.ip, c.st, part_of(c, s, ZERO, r[0])))


@model(_STR + 'split_once')
def str_split_once(c):
    s = c.slice(0)
    r = find_any(c, s, c.args[1])
    if r is NotImplemented:
        return r
    if r is None:
        return c.none()
    k, m = r
    pt = c.ip.T[c.ty]['targs'][0]
    return c.some(Agg(pt, None, (part_of(c, s, ZERO, k), part_of(c, s, k + m, s.len - k - m))))


@model(_STR + 'split')
def str_split(c):
    if pattern(c, c.args[1]) is None and not (c.args[1].__class__ is Sl and c.args[1].str_):
        return NotImplemented
    return Agg(c.ty, None, (c.slice(0), ZERO, c.args[1]))


@model("<core::str::iter::Split<'a, P> as core::iter::traits::iterator::Iterator>::next")
def split_next(c):
    ip, st = c.ip, c.st
    cell, proj, it = c.target(0)
    if it.__class__ is not Agg or it.f[0].__class__ is not Sl:
        raise Unsupported('iterator %r' % (it,))
    s, done, p = it.f
    if c.decide(c_le(ONE - done)):
        return c.none()
    r = find_any(c, s, p)
    if r is None:
        ip.store(st, cell, proj, Agg(it.ty, None, (s, ONE, p)))
        return c.some(s)
    k, m = r
    ip.store(st, cell, proj, Agg(it.ty, None, (part_of(c, s, k + m, s.len - k - m), ZERO, p)))
    return c.some(part_of(c, s, ZERO, k))


def lost_text(c, lo, hi):
    n = somewhere(c, 'text', lo, hi) if hi is not None else A(sym(('vague', 'text', c.ip.fresh_key(c.st)), 0, (1 << 63) - 1))
    not_exact(c)
    return ('s', ('lost', c.ip.fresh_key(c.st), sum(1 for _ in c.st.events())), n, 'char')


@model('alloc::str::<impl str>::replace')
def str_replace(c):
    ip, st = c.ip, c.st
    s = c.slice(0)
    p = c.args[1]
    to = contents(ip, st, c.slice(2)).segs
    n = st.facts.norm(s.len)
    if not n.const and c.decide(c_eq(n - 1)):
        s = part_of(c, s, ZERO, ONE)
        n = ONE
    out = ()
    while True:
        r = find_any(c, s, p)
        if r is NotImplemented:
            raise Unsupported('replace')
        if r is None:
            return Lst(c.ty, out + contents(ip, st, s).segs)
        k, m = r
        out += contents(ip, st, part_of(c, s, ZERO, k)).segs + tuple(to)
        s = part_of(c, s, k + m, s.len - k - m)
        if not (n.const and n.c <= SHORT):
            if c.decide(c_le(s.len)):
                return Lst(c.ty, out)
            return Lst(c.ty, out + (lost_text(c, ZERO, None),))


@model(_STR + 'eq_ignore_ascii_case')
def str_eq_nocase(c):
    ip, st = c.ip, c.st
    a, b = contents(ip, st, c.slice(0)), contents(ip, st, c.slice(1))
    if canon(ip, st, a) == canon(ip, st, b):
        return True
    f = st.facts
    na, nb = f.norm(a.length()), f.norm(b.length())
    if not c.decide(c_eq(f.norm(na - nb))):
        return False
    n = f.norm(na) if f.norm(na).const else f.norm(nb)
    if not n.const and c.decide(c_eq(n - 1)):
        n = ONE
    if not n.const or n.c > SHORT:
        if c.decide(seq_equal(ip, st, a, b)):
            return True
        return Cnd('unk', (('nocase',) + tuple(sorted((canon(ip, st, a), canon(ip, st, b)), key=repr)), True))
    cs = []
    for i in range(n.c):
        x, y = f.norm(ip.elem(st, a, K(i))), f.norm(ip.elem(st, b, K(i)))
        cs.append(c_or([c_eq(f.norm(x - y)), c_and([c_eq(f.norm(x - y - 32)), in_ranges(f, y, [(65, 90)])]),
                        c_and([c_eq(f.norm(y - x - 32)), in_ranges(f, x, [(65, 90)])])]))
    return c_and(cs)


@model(_STR + 'bytes')
def str_bytes(c):
    s = str_as_bytes(c)
    ip = c.ip
    cop = ip.field_ty(c.ty, None, 0)
    it = ip.field_ty(cop, None, 0)
    return Agg(c.ty, None, (Agg(cop, None, (Agg(it, None, (s,)),)),))


@model(_STR + 'char_indices')
def str_char_indices(c):
    it = c.ip.field_ty(c.ty, None, 1)
    return Agg(c.ty, None, (ZERO, Agg(it, None, (c.slice(0),))))


@model("<core::str::iter::CharIndices<'a> as core::iter::traits::iterator::Iterator>::next")
def char_indices_next(c):
    ip, st = c.ip, c.st
    cell, proj, it = c.target(0)
    if it.__class__ is not Agg or it.f[1].__class__ is not Agg:
        raise Unsupported('iterator %r' % (it,))
    s = it.f[1].f[0]
    if c.decide(c_le(s.len)):
        return c.none()
    ch = char_at(c, s, ZERO)
    k = char_bytes(c, ch)
    if ip.char_hook is not None:
        ip.char_hook(st, s, s.off, ch)
    f = st.facts
    at = f.norm(it.f[0])
    ip.store(st, cell, proj, Agg(it.ty, None, (f.norm(at + k), Agg(it.f[1].ty, None, (part_of(c, s, ONE, s.len - 1),)))))
    return c.some(Agg(ip.T[c.ty]['targs'][0], None, (at, ch)))


@model("<core::str::iter::Chars<'a> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def chars_next_back(c):
    ip, st = c.ip, c.st
    cell, proj, it, s = iter_slice(c)
    if c.decide(c_le(s.len)):
        return c.none()
    ch = char_at(c, s, s.len - 1)
    if vals.VAGUE is not None:
        not_exact(c)
    ip.store(st, cell, proj, Agg(it.ty, it.var, (part_of(c, s, ZERO, s.len - 1),)))
    return c.some(ch)


@model('core::str::converts::from_utf8')
def from_utf8(c):
    """of up to two bytes"""
    ip, st = c.ip, c.st
    s = c.slice(0)
    n = st.facts.norm(s.len)
    base = ip.load(st, s.cell, s.proj)
    if not n.const:
        if c.decide(c_le(n)):
            n = ZERO
        elif c.decide(c_eq(n - 1)):
            n = ONE
        elif c.decide(c_eq(n - 2)):
            n = K(2)
    if not n.const or n.c > 2:
        raise Unsupported('from_utf8')
    bs = [st.facts.norm(ip.elem(st, base, s.off + i)) for i in range(n.c)]
    out = []
    i = 0
    bad = Opq(('utf8error', ip.fresh_key(st)), ip.T[c.ty]['targs'][1])
    while i < len(bs):
        b = bs[i]
        if c.decide(c_le(b - 0x7F)):
            out.append(b)
            i += 1
            continue
        if not c.decide(c_and([c_le(K(0xC2) - b), c_le(b - 0xDF)])) or i + 1 >= len(bs):
            return c.err(bad)
        d = bs[i + 1]
        if not c.decide(c_and([c_le(K(0x80) - d), c_le(d - 0xBF)])):
            return c.err(bad)
        out.append(st.facts.norm(b.scale(64) + d - (0xC0 * 64 + 0x80)))
        i += 2
    cell = ('cl', ('utf8', st.frames[-1].uid, st.bb))
    rt = ip.T[ip.T[c.ty]['targs'][0]]['ty']
    st.cells[cell] = Lst(rt, tuple(('e', x) for x in out))
    return c.ok(Sl(cell, (), ZERO, K(len(out)), True))


# ------------------------------------------------------------------ numbers by example
INTS = (0, 1, 2, 3, 255, 256, 0x8000)


def by_example(c, f, ty):
    """f of the first argument for a few of its values; the other arguments have to be known"""
    a = c.args[0]
    rest = [c.st.facts.norm(x) if x.__class__ is Lin else x for x in c.args[1:]]
    if a.__class__ is not Lin or any(x.__class__ is not Lin or not x.const for x in rest):
        raise Unsupported(c.path)
    lo, hi = c.ip.int_range(ty)
    a = c.st.facts.norm(a)
    if a.const:
        return f(a.c, *[x.c for x in rest])
    if c.ip.single(c.st.facts, a):
        # one byte: all of its values
        return c.ip.tabulate(c.st.facts, a, lambda x: f(x, *[x.c for x in rest]).c)
    for k in INTS:
        if lo <= k <= hi and c.decide(c_eq(a - k)):
            return f(k, *[x.c for x in rest])
    raise Unsupported(c.path)


def signed(v, bits, sg):
    v &= (1 << bits) - 1
    return K(v - (1 << bits) if sg and v >> (bits - 1) else v)


def bit_ops(bits, sg):
    m = (1 << bits) - 1

    def rol(a, k):
        k %= bits
        return signed(((a & m) << k) | ((a & m) >> (bits - k)), bits, sg)
    return {
        'swap_bytes': lambda a: signed(int.from_bytes((a & m).to_bytes(bits // 8, 'little'), 'big'), bits, sg),
        'bswap': lambda a: signed(int.from_bytes((a & m).to_bytes(bits // 8, 'little'), 'big'), bits, sg),
        'rotate_left': rol,
        'rotate_right': lambda a, k: rol(a, bits - k % bits),
        'reverse_bits': lambda a: signed(int(bin((a & m) | (1 << bits))[:2:-1], 2), bits, sg),
        'bitreverse': lambda a: signed(int(bin((a & m) | (1 << bits))[:2:-1], 2), bits, sg),
        'count_ones': lambda a: K(bin(a & m).count('1')),
        'ctpop': lambda a: K(bin(a & m).count('1')),
        'count_zeros': lambda a: K(bits - bin(a & m).count('1')),
        'leading_zeros': lambda a: K(bits - (a & m).bit_length()),
        'ctlz': lambda a: K(bits - (a & m).bit_length()),
        'trailing_zeros': lambda a: K(bits if a & m == 0 else ((a & m) & -(a & m)).bit_length() - 1),
        'cttz': lambda a: K(bits if a & m == 0 else ((a & m) & -(a & m)).bit_length() - 1),
    }


def intrinsic(c):
    ty = c.targs[0]
    t = c.ip.T[ty]
    if t['k'] != 'int':
        raise Unsupported(c.path)
    return by_example(c, bit_ops(t['bits'], t['signed'])[c.path.split('::')[-1]], ty)


for _n in ('bswap', 'rotate_left', 'rotate_right', 'bitreverse', 'ctpop', 'ctlz', 'cttz'):
    MODELS['core::intrinsics::' + _n] = intrinsic


# ------------------------------------------------------------------ floats by example
F32 = (0x00000000, 0x80000000, 0x3F800000, 0x3F800001, 0x00000001, 0x7F800000)
F64 = (0x0000000000000000, 0x8000000000000000, 0x3FF0000000000000, 0x3FF0000000000001, 0x0000000000000001, 0x7FF0000000000000)


def fbits(ip, st, x):
    """the bits of a float: a few of them each on a path of its own"""
    w = ip.T[x.ty]['bits']
    b = st.facts.norm(x.bits)
    if b.const:
        return b.c, w
    for k in F32 if w == 32 else F64:
        if decide(st, c_eq(b - k)):
            return k, w
    return None, w


def to_py(b, w):
    return struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', b))[0]


def from_py(x, w):
    try:
        return struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0]
    except OverflowError:
        return (0x7F800000 if x > 0 else 0xFF800000)


def float_op(ip, st, op, a, b):
    x, w = fbits(ip, st, a)
    y, _ = fbits(ip, st, b)
    if x is None or y is None:
        raise Unsupported('float arithmetic')
    x, y = to_py(x, w), to_py(y, w)
    try:
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y,
             'Rem': lambda: __import__('math').fmod(x, y)}[op]()
    except (KeyError, ZeroDivisionError, ValueError):
        raise Unsupported('float arithmetic')
    if r != r:
        raise Unsupported('float arithmetic')
    return Flt(K(from_py(r, w)), a.ty)


def float_neg(ip, st, a):
    w = ip.T[a.ty]['bits']
    b, _ = fbits(ip, st, a)
    if b is None:
        raise Unsupported('float arithmetic')
    return Flt(K(b ^ (1 << (w - 1))), a.ty)


def float_cast(ip, st, kind, v, tb):
    if kind == 'FloatToInt':
        b, w = fbits(ip, st, v)
        if b is None:
            raise Unsupported('cast of a float')
        x = to_py(b, w)
        lo, hi = ip.int_range(tb)
        return K(0 if x != x else lo if x <= lo else hi if x >= hi else int(x))
    if kind == 'IntToFloat':
        x = st.facts.norm(v)
        w = ip.T[tb]['bits']
        if not x.const:
            for k in (0, 1, 2):
                if decide(st, c_eq(x - k)):
                    x = K(k)
                    break
            else:
                raise Unsupported('cast to a float')
        if abs(x.c) > 1 << 24:
            raise Unsupported('cast to a float')
        return Flt(K(from_py(float(x.c), w)), tb)
    if kind == 'FloatToFloat':
        b, w = fbits(ip, st, v)
        w2 = ip.T[tb]['bits']
        if b is None:
            raise Unsupported('cast of a float')
        if w == w2:
            return v
        x = to_py(b, w)
        if x != x:
            raise Unsupported('cast of a float')
        return Flt(K(from_py(x, w2)), tb)


def float_cmp(op, x, y, w):
    x, y = to_py(x, w), to_py(y, w)
    return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]


def float_method(c):
    a = c.args[0]
    n = c.path.split('::')[-1]
    if a.__class__ is not Flt:
        raise Unsupported(c.path)
    b, w = fbits(c.ip, c.st, a)
    if b is None:
        raise Unsupported(c.path)
    x = to_py(b, w)
    import math
    if n in ('abs', 'fabsf32', 'fabsf64', 'fabs'):
        return Flt(K(b & ~(1 << (w - 1))), c.ty)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(c.path)
    fs = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}
    for k, g in fs.items():
        if n.startswith(k):
            return Flt(K(from_py(math.copysign(float(g(x)), x), w)), c.ty)
    raise Unsupported(c.path)


for _t in ('f32', 'f64'):
    for _k in ('core', 'std'):
        for _n in ('abs', 'floor', 'ceil', 'trunc'):
            MODELS['%s::%s::<impl %s>::%s' % (_k, _t, _t, _n)] = float_method
            MODELS['%s::num::%s::<impl %s>::%s' % (_k, _t, _t, _n)] = float_method
    for _n in ('fabs', 'floor', 'ceil', 'trunc'):
        MODELS['core::intrinsics::%s%s' % (_n, _t)] = float_method
MODELS['core::intrinsics::fabs'] = float_method
