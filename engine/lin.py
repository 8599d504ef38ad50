"""Linear terms over atoms, and the conjunctive fact domain used by the analysis.

An atom is either a *small* atom (finite domain, a subset of 0..255: an input byte,
an enum discriminant, a bool, an opaque u8) or a *sym* (an integer with an interval).
A linear term is  c + sum w_i(atom_i)  where w_i is an integer coefficient, or, for small
atoms, an arbitrary table over 0..255 (that is how masks, shifts and sign casts of single
bytes stay exact).  Entailment is interval arithmetic plus bounded elimination with the
recorded inequalities; there is no solver.
"""
from math import gcd
from heapq import heappush, heappop

FULL = (1 << 256) - 1

# the entailment search in C, when it could be built (see native/fastlin.c)
fastlin = None


def load_native():
    global fastlin
    import os
    import subprocess
    import sysconfig
    import importlib.util
    here = os.path.dirname(os.path.abspath(__file__))
    out = os.path.join(os.path.dirname(here), '.work')
    src = os.path.join(here, 'native', 'fastlin.c')
    so = os.path.join(out, 'fastlin.so')
    try:
        os.makedirs(out, exist_ok=True)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            tmp = '%s.%d' % (so, os.getpid())
            subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-I', sysconfig.get_paths()['include'],
                                   src, '-o', tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.rename(tmp, so)
        spec = importlib.util.spec_from_file_location('fastlin', so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        fastlin = m
    except Exception:
        fastlin = None


import os as _os
if not _os.environ.get('JBV_PURE'):
    load_native()

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'small', 'key', 'lo', 'hi', 'dom', 'obj', 'pos')

ATOMS = []
_akey = {}


def _mk(key, small, lo, hi, dom=None, obj=None, pos=None):
    a = _akey.get(key)
    if a is not None:
        return a
    at = Atom()
    at.id = len(ATOMS)
    at.small = small
    at.key = key
    at.lo = lo
    at.hi = hi
    at.dom = dom
    at.obj = obj
    at.pos = pos
    ATOMS.append(at)
    _akey[key] = at.id
    return at.id


def sym(name, lo, hi):
    return _mk(('s', name, lo, hi), False, lo, hi)


def small(name, n):
    """small atom with domain 0..n-1"""
    return _mk(('m', name, n), True, 0, n - 1, (1 << n) - 1)


def small_mask(name, mask):
    return _mk(('mm', name, mask), True, mask_min(mask), mask_max(mask), mask)


def byte_atom(obj, pos):
    return _mk(('b', obj, pos), True, 0, 255, FULL, obj, pos)


_mvals = {}


def mask_vals(m):
    v = _mvals.get(m)
    if v is None:
        v = tuple(i for i in range(256) if (m >> i) & 1)
        _mvals[m] = v
    return v


def mask_min(m):
    return (m & -m).bit_length() - 1


def mask_max(m):
    return m.bit_length() - 1


# ---------------------------------------------------------------- tables
class Tab:
    # v is k times the values of base
    __slots__ = ('v', 'base', 'k')

    def __repr__(self):
        return 'T%d' % id(self)


_tabs = {}


def mktab(v):
    """v: 256-tuple -> (const, weight) with weight an int (affine), Tab, or 0"""
    v = tuple(v)
    d = v[1] - v[0]
    aff = True
    x = v[0]
    for i in range(256):
        if v[i] != x:
            aff = False
            break
        x += d
    if aff:
        return v[0], d
    c = v[0]
    if c:
        v = tuple(x - c for x in v)
    t = _tabs.get(v)
    if t is None:
        t = Tab()
        t.v = v
        g = 0
        for x in v:
            if x:
                if not g and x < 0:
                    g = x
                else:
                    g = gcd(g, x) if g >= 0 else -gcd(g, x)
        _tabs[v] = t
        t.k = g
        t.base = t if g == 1 else mktab(tuple(x // g for x in v))[1]
    return c, t


def wval(w, x):
    return w * x if w.__class__ is int else w.v[x]


_wadd = {}


def wadd(a, b):
    """sum of two weights -> (const, weight)"""
    if a.__class__ is int and b.__class__ is int:
        return 0, a + b
    k = (a, b)
    r = _wadd.get(k)
    if r is None:
        r = mktab(tuple(wval(a, i) + wval(b, i) for i in range(256)))
        _wadd[k] = r
    return r


_wscale = {}


def wscale(a, n):
    if a.__class__ is int:
        return a * n
    k = (a, n)
    r = _wscale.get(k)
    if r is None:
        c, r = mktab(tuple(x * n for x in a.v))
        assert c == 0
        _wscale[k] = r
    return r


_wb = {}


def wbounds(w, mask):
    if w.__class__ is int:
        lo, hi = mask_min(mask), mask_max(mask)
        return (w * lo, w * hi) if w >= 0 else (w * hi, w * lo)
    k = (w, mask)
    r = _wb.get(k)
    if r is None:
        vs = [w.v[i] for i in mask_vals(mask)]
        r = (min(vs), max(vs))
        _wb[k] = r
    return r


# ---------------------------------------------------------------- linear terms
class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.c, self.t))
        return h

    def __eq__(self, o):
        return self is o or (o.__class__ is Lin and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if o.__class__ is int:
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t) if self.c else o
        return _merge(self, o, 1)

    def __sub__(self, o):
        if o.__class__ is int:
            return Lin(self.c - o, self.t) if o else self
        if not o.t:
            return Lin(self.c - o.c, self.t) if o.c else self
        return _merge(self, o, -1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, n):
        if n == 1:
            return self
        if n == 0:
            return ZERO
        return Lin(self.c * n, tuple((a, wscale(w, n)) for a, w in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        return show(self)


def _merge(x, y, s):
    a, b = x.t, y.t
    c = x.c + s * y.c
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        p, q = a[i], b[j]
        if p[0] < q[0]:
            out.append(p)
            i += 1
        elif p[0] > q[0]:
            out.append(q if s == 1 else (q[0], wscale(q[1], s)))
            j += 1
        else:
            dc, w = wadd(p[1], q[1] if s == 1 else wscale(q[1], s))
            c += dc
            if w.__class__ is not int or w:
                out.append((p[0], w))
            i += 1
            j += 1
    if i < na:
        out.extend(a[i:])
    while j < nb:
        q = b[j]
        out.append(q if s == 1 else (q[0], wscale(q[1], s)))
        j += 1
    return Lin(c, tuple(out))


ZERO = Lin(0)
ONE = Lin(1)
_consts = {}


def K(n):
    r = _consts.get(n)
    if r is None:
        r = Lin(n)
        if len(_consts) < 100000:
            _consts[n] = r
    return r


def A(aid):
    return Lin(0, ((aid, 1),))


def from_table(aid, vals):
    c, w = mktab(vals)
    if w.__class__ is int and w == 0:
        return K(c)
    return Lin(c, ((aid, w),))


def show(l):
    s = []
    for a, w in l.t:
        n = show_atom(a)
        if w == 1:
            s.append(n)
        elif w.__class__ is int:
            s.append('%d*%s' % (w, n))
        else:
            s.append('f(%s)' % n)
    if l.c or not s:
        s.append(str(l.c))
    return ' + '.join(s)


def show_atom(a):
    at = ATOMS[a]
    if at.key[0] == 'b':
        return '%s[%s]' % (at.obj, show(at.pos))
    return show_name(at.key[1])


def show_name(n):
    if isinstance(n, tuple):
        return '.'.join(show_name(x) for x in n)
    if n.__class__ is Lin:
        return '(' + show(n) + ')'
    return str(n)


# ---------------------------------------------------------------- keys of linear forms
_keyc = {}


def lkey(t):
    """t: terms tuple -> (key terms, sign*g): t == mult * key; gcd-normalised, first coefficient > 0"""
    r = _keyc.get(t)
    if r is not None:
        return r
    g = 0
    ok = True
    for _, w in t:
        if w.__class__ is int:
            g = gcd(g, w)
        else:
            ok = False
            break
    if not ok:
        w0 = t[0][1]
        # orientation: by first integer weight if any, else table orientation by last entry sign
        s = 1
        for _, w in t:
            if w.__class__ is int:
                s = 1 if w > 0 else -1
                break
        else:
            fv = [x for x in w0.v if x]
            s = 1 if fv and fv[0] > 0 else -1
        r = (t, 1) if s == 1 else (tuple((a, wscale(w, -1)) for a, w in t), -1)
    else:
        if t[0][1] < 0:
            g = -g
        r = (t, 1) if g == 1 else (tuple((a, w // g) for a, w in t), g)
    if len(_keyc) < 400000:
        _keyc[t] = r
    return r


INF = None


class Facts:
    __slots__ = ('sub', 'ine', 'dom', 'sb', 'ne', 'strs', 'reads', '_cache', '_idx', 'bad')

    def __init__(self):
        self.sub = {}
        self.ine = {}
        self.dom = {}
        self.sb = {}
        self.ne = {}
        self.strs = {}
        self.reads = {}
        self._cache = {}
        self._idx = None
        self.bad = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub)
        f.ine = dict(self.ine)
        f.dom = dict(self.dom)
        f.sb = dict(self.sb)
        f.ne = dict(self.ne)
        f.strs = dict(self.strs)
        f.reads = dict(self.reads)
        f._cache = {}
        f._idx = None
        f.bad = self.bad
        return f

    # ---- normal form
    def norm(self, l):
        sub = self.sub
        if not sub:
            return l
        for a, _ in l.t:
            if a in sub:
                break
        else:
            return l
        out = Lin(l.c)
        for a, w in l.t:
            s = sub.get(a)
            if s is None:
                out = out + Lin(0, ((a, w),))
            elif w.__class__ is int:
                out = out + s.scale(w)
            elif not s.t:
                out = out + w.v[s.c]
            else:
                # alias small atom -> small atom
                out = out + Lin(0, ((s.t[0][0], w),))
        return out

    def mask(self, a):
        m = self.dom.get(a)
        return ATOMS[a].dom if m is None else m

    def rng(self, a):
        at = ATOMS[a]
        if at.small:
            m = self.mask(a)
            return mask_min(m), mask_max(m)
        r = self.sb.get(a)
        if r is None:
            return at.lo, at.hi
        return r

    def tabrng(self, a, w):
        return wbounds(w, self.mask(a))

    def bounds(self, l):
        """interval of a normalised term"""
        lo = hi = l.c
        for a, w in l.t:
            at = ATOMS[a]
            if at.small:
                p, q = wbounds(w, self.mask(a))
            else:
                p, q = self.rng(a)
                if w < 0:
                    p, q = (None if q is None else q * w), (None if p is None else p * w)
                else:
                    p, q = (None if p is None else p * w), (None if q is None else q * w)
            lo = None if lo is None or p is None else lo + p
            hi = None if hi is None or q is None else hi + q
            if lo is None and hi is None:
                break
        if len(l.t) > 1:
            k, m = lkey(l.t)
            r = self.ine.get(k)
            if r is not None:
                p, q = r
                if m < 0:
                    p, q = q, p
                if p is not None:
                    p = p * m + l.c
                    if lo is None or p > lo:
                        lo = p
                if q is not None:
                    q = q * m + l.c
                    if hi is None or q < hi:
                        hi = q
        return lo, hi

    def bounds2(self, l):
        """interval using entailment search as well (upper/lower by one elimination)"""
        l = self.norm(l)
        lo, hi = self.bounds(l)
        for (k, plo, phi) in self._cons(l):
            pass
        return lo, hi

    # ---- entailment
    def index(self):
        ix = self._idx
        if ix is None:
            ix = {}
            for k in self.ine:
                for a, _ in k:
                    ix.setdefault(a, []).append(k)
            self._idx = ix
        return ix

    def le(self, l, budget=150):
        """proved l <= 0 ?"""
        l = self.norm(l)
        if not l.t:
            return l.c <= 0
        c = self._cache.get(l)
        if c is not None:
            return c
        r = self._le(l, budget)
        self._cache[l] = r
        return r

    def _le(self, l, budget):
        """best-first search for a combination of recorded inequalities that bounds l by 0"""
        lo, hi = self.bounds(l)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        ine = self.ine
        if not ine:
            return False
        if fastlin is not None:
            cap = self._idx
            if cap is None:
                cap = self._idx = fastlin.compile(ine, self.rng, self.tabrng)
            return fastlin.le(cap, l.t, l.c, 2 * budget, self.rng, self.tabrng)
        ix = self.index()
        bounds = self.bounds
        seen = {l}
        heap = [(0, 0, l, 0)]
        n = 0
        while heap:
            _, _, l, depth = heappop(heap)
            lt = size(l.t)
            for a, w in pivots(l.t):
                for k in ix.get(a, ()):
                    for x, kw in k:
                        if x == a:
                            break
                    if kw.__class__ is not int:
                        continue
                    lo, hi = ine[k]
                    b = hi if (w > 0) == (kw > 0) else lo
                    if b is None:
                        continue
                    # l <= l - lam*(k - b), lam = w/kw
                    if kw == 1 or kw == -1:
                        nl = l - Lin(-b, k).scale(w * kw)
                    else:
                        g = gcd(abs(w), abs(kw))
                        nl = l.scale(abs(kw) // g) - Lin(-b, k).scale((w if kw > 0 else -w) // g)
                    if not nl.t:
                        if nl.c <= 0:
                            return True
                        continue
                    if nl in seen:
                        continue
                    budget -= 1
                    seen.add(nl)
                    lo, hi = bounds(nl)
                    if hi is not None and hi <= 0:
                        return True
                    if lo is not None and lo > 0:
                        continue
                    if budget < 0:
                        return False
                    if depth < 5 and size(nl.t) <= lt + 2:
                        n += 1
                        heappush(heap, (size(nl.t) + depth, n, nl, depth + 1))
        return False

    def upper(self, l, budget=40):
        """an upper bound of l, after combining it with recorded inequalities"""
        l = self.norm(l)
        lo, best = self.bounds(l)
        ine = self.ine
        if not l.t or not ine:
            return best
        if lo is not None and lo > 1:
            return best
        if fastlin is not None:
            cap = self._idx
            if cap is None:
                cap = self._idx = fastlin.compile(ine, self.rng, self.tabrng)
            b = fastlin.upper(cap, l.t, l.c, 2 * budget, self.rng, self.tabrng)
            return b if best is None or b is not None and b < best else best
        ix = self.index()
        bounds = self.bounds
        seen = {l}
        heap = [(0, 0, l, 0)]
        n = 0
        while heap and budget > 0:
            _, _, l, depth = heappop(heap)
            lt = size(l.t)
            for a, w in pivots(l.t):
                for k in ix.get(a, ()):
                    for x, kw in k:
                        if x == a:
                            break
                    if kw != w and kw != -w:
                        continue
                    lo, hi = ine[k]
                    b = hi if w == kw else lo
                    if b is None:
                        continue
                    nl = l - Lin(-b, k) if w == kw else l + Lin(-b, k)
                    if nl in seen:
                        continue
                    budget -= 1
                    seen.add(nl)
                    if not nl.t:
                        if best is None or nl.c < best:
                            best = nl.c
                        continue
                    lo, hi = bounds(nl)
                    if hi is not None and (best is None or hi < best):
                        best = hi
                    if lo is not None and lo > 1:
                        continue
                    if depth < 4 and size(nl.t) <= lt + 2:
                        n += 1
                        heappush(heap, (size(nl.t) + depth, n, nl, depth + 1))
        return best

    def lt(self, l):
        return self.le(l + 1)

    def ge(self, l):
        return self.le(-l)

    def eq(self, l):
        """proved l == 0"""
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        lo, hi = self.bounds(l)
        if lo == 0 and hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        l2 = self.cancel(l)
        if l2 is not l:
            return self.eq(l2)
        if all(ATOMS[a].small for a, _ in l.t):
            # every atom contributes a constant on its feasible set?
            tot = l.c
            for a, w in l.t:
                p, q = wbounds(w, self.mask(a))
                if p != q:
                    tot = None
                    break
                tot += p
            if tot is not None:
                return tot == 0
        return self.le(l) and self.le(-l)

    def cancel(self, l):
        """cancel byte atoms at positions that are provably equal"""
        bs = [(a, w) for a, w in l.t if ATOMS[a].pos is not None]
        if len(bs) < 2:
            return l
        for i in range(len(bs)):
            for j in range(i + 1, len(bs)):
                a, w = bs[i]
                b, v = bs[j]
                if ATOMS[a].obj == ATOMS[b].obj:
                    c, s = wadd(w, v)
                    if s == 0 and self.eqpos(ATOMS[a].pos, ATOMS[b].pos):
                        return Lin(l.c + c, tuple(x for x in l.t if x[0] != a and x[0] != b))
        return l

    def eqpos(self, p, q):
        d = self.norm(p - q)
        return not d.t and d.c == 0

    def nonzero(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        lo, hi = self.bounds(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        if len(l.t) == 1:
            a, w = l.t[0]
            if ATOMS[a].small:
                return all(wval(w, v) + l.c != 0 for v in mask_vals(self.mask(a)))
        else:
            # gcd / bytes-only digits
            if all(w.__class__ is int for _, w in l.t):
                g = 0
                for _, w in l.t:
                    g = gcd(g, w)
                if l.c % g:
                    return True
        k, m = lkey(l.t)
        ex = self.ne.get(k)
        if ex is not None:
            if l.c % m == 0 and (-l.c // m) in ex:
                return True
        return self.le(l + 1) or self.le(1 - l if False else (-l) + 1)

    # ---- adding facts: return False when contradictory
    def _dirty(self):
        self._cache = {}
        self._idx = None

    def restrict(self, a, mask):
        m = self.mask(a)
        n = m & mask
        if n == m:
            return True
        if n == 0:
            self.bad = True
            return False
        self._dirty()
        if n & (n - 1) == 0:
            self.dom[a] = n
            return self._subst(a, K(mask_min(n)))
        self.dom[a] = n
        return True

    def add_le(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c > 0:
                self.bad = True
                return False
            return True
        lo, hi = self.bounds(l)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            self.bad = True
            return False
        if len(l.t) == 1:
            a, w = l.t[0]
            if ATOMS[a].small:
                c = l.c
                m = 0
                for v in mask_vals(self.mask(a)):
                    if wval(w, v) + c <= 0:
                        m |= 1 << v
                return self.restrict(a, m)
            lo, hi = self.rng(a)
            if w > 0:
                b = (-l.c) // w
                if hi is None or b < hi:
                    hi = b
            else:
                b = -((-l.c) // (-w)) if False else _ceil(l.c, -w)
                if lo is None or b > lo:
                    lo = b
            return self._setb(a, lo, hi)
        self._dirty()
        k, m = lkey(l.t)
        lo, hi = self.ine.get(k, (None, None))
        # m*k + c <= 0
        if m > 0:
            b = (-l.c) // m
            if hi is None or b < hi:
                hi = b
        else:
            b = _ceil(l.c, -m)
            if lo is None or b > lo:
                lo = b
        ex = self.ne.get(k)
        if ex:
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        if lo is not None and hi is not None:
            if lo > hi:
                self.bad = True
                return False
            if lo == hi:
                self.ine.pop(k, None)
                return self.add_eq(Lin(-lo, k))
        self.ine[k] = (lo, hi)
        if all(ATOMS[a].small for a, _ in l.t):
            return self._prop_small(l)
        # derive single-symbol bounds
        if len(l.t) == 2:
            return self._prop_sym(l)
        return True

    def _prop_sym(self, l):
        for a, w in l.t:
            if ATOMS[a].small:
                continue
            rest = Lin(l.c, tuple(x for x in l.t if x[0] != a))
            lo, _ = self.bounds(rest)
            if lo is None:
                continue
            # w*a <= -lo
            plo, phi = self.rng(a)
            if w > 0:
                b = (-lo) // w
                if phi is None or b < phi:
                    if not self._setb(a, plo, b):
                        return False
            else:
                b = _ceil(lo, -w)
                if plo is None or b > plo:
                    if not self._setb(a, b, phi):
                        return False
            if a in self.sub:
                break
        return True

    def _setb(self, a, lo, hi):
        ex = self.ne.get(((a, 1),))
        if ex:
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        if lo is not None and hi is not None:
            if lo > hi:
                self.bad = True
                return False
            if lo == hi:
                self._dirty()
                self.sb[a] = (lo, hi)
                return self._subst(a, K(lo))
        if self.sb.get(a) != (lo, hi):
            self._dirty()
            self.sb[a] = (lo, hi)
        return True

    def _prop_small(self, l):
        tot, _ = self.bounds(Lin(l.c, ()))
        los = [wbounds(w, self.mask(a))[0] for a, w in l.t]
        s = l.c + sum(los)
        for (a, w), lo in zip(l.t, los):
            rest = s - lo
            m = 0
            for v in mask_vals(self.mask(a)):
                if wval(w, v) + rest <= 0:
                    m |= 1 << v
            if not self.restrict(a, m):
                return False
        return True

    def add_ne(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                self.bad = True
                return False
            return True
        if len(l.t) == 1:
            a, w = l.t[0]
            if ATOMS[a].small:
                m = 0
                for v in mask_vals(self.mask(a)):
                    if wval(w, v) + l.c != 0:
                        m |= 1 << v
                return self.restrict(a, m)
        if self.nonzero(l):
            return True
        if self.le(l):
            return self.add_le(l + 1)
        if self.le(-l):
            return self.add_le((-l) + 1)
        k, m = lkey(l.t)
        if l.c % m:
            return True
        self._dirty()
        self.ne[k] = self.ne.get(k, frozenset()) | {-l.c // m}
        return True

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.bad = True
                return False
            return True
        if self.nonzero(l):
            self.bad = True
            return False
        if len(l.t) == 1:
            a, w = l.t[0]
            if ATOMS[a].small:
                m = 0
                for v in mask_vals(self.mask(a)):
                    if wval(w, v) + l.c == 0:
                        m |= 1 << v
                return self.restrict(a, m)
            if l.c % w:
                self.bad = True
                return False
            return self._subst(a, K(-l.c // w))
        if len(l.t) > 2 and l.c == 0 and not any(ATOMS[a].small for a, _ in l.t):
            # digits in a mixed radix are equal one by one
            for g in sorted({abs(w) for _, w in l.t}, reverse=True):
                if g < 2:
                    break
                low = Lin(0, tuple(x for x in l.t if x[1] % g))
                if low.t and len(low.t) < len(l.t):
                    lo, hi = self.bounds(low)
                    if lo is not None and hi is not None and -g < lo and hi < g:
                        high = Lin(0, tuple((a, w // g) for a, w in l.t if w % g == 0))
                        return self.add_eq(high) and self.add_eq(low)
        # choose a sym with unit weight, newest first
        best = None
        for a, w in l.t:
            if not ATOMS[a].small and (w == 1 or w == -1):
                best = (a, w)
        if best is not None:
            a, w = best
            rest = Lin(l.c, tuple(x for x in l.t if x[0] != a))
            return self._subst(a, rest.scale(-w))
        if len(l.t) == 2 and l.c == 0:
            (a, w), (b, v) = l.t
            if ATOMS[a].small and ATOMS[b].small and wadd(w, v) == (0, 0) and w.__class__ is int:
                m = self.mask(a) & self.mask(b)
                if m == 0:
                    self.bad = True
                    return False
                if not self.restrict(a, m):
                    return False
                if a in self.sub:
                    return self.add_eq(l)
                return self._subst(b, A(a))
        self._dirty()
        k, m = lkey(l.t)
        if l.c % m:
            self.bad = True
            return False
        v = -l.c // m
        self.ine[k] = (v, v)
        if all(ATOMS[a].small for a, _ in l.t):
            return self._prop_digits(l)
        return True

    def _prop_digits(self, l):
        changed = True
        while changed:
            changed = False
            l = self.norm(l)
            if not l.t:
                if l.c:
                    self.bad = True
                return l.c == 0
            bs = [wbounds(w, self.mask(a)) for a, w in l.t]
            slo = l.c + sum(b[0] for b in bs)
            shi = l.c + sum(b[1] for b in bs)
            ints = all(w.__class__ is int for _, w in l.t)
            for i, (a, w) in enumerate(l.t):
                rlo, rhi = slo - bs[i][0], shi - bs[i][1]
                g = 0
                if ints:
                    for j, (_, v) in enumerate(l.t):
                        if j != i:
                            g = gcd(g, v)
                m0 = self.mask(a)
                m = 0
                for v in mask_vals(m0):
                    x = wval(w, v)
                    if rlo + x <= 0 <= rhi + x:
                        if g and (l.c + x) % g:
                            continue
                        m |= 1 << v
                if m != m0:
                    if not self.restrict(a, m):
                        return False
                    changed = True
                    break
        return True

    def _subst(self, a, l):
        """record a := l (l normalised, not mentioning a)"""
        self._dirty()
        at = ATOMS[a]
        if at.small and l.t:
            pass
        self.sub[a] = l
        one = {a: l}
        for b, s in list(self.sub.items()):
            if b != a and any(x == a for x, _ in s.t):
                self.sub[b] = self.norm(s)
        # range of a carries over to its replacement
        if not at.small:
            lo, hi = self.sb.get(a, (at.lo, at.hi))
            self.sb.pop(a, None)
            if lo is not None and not self.add_le(K(lo) - l):
                return False
            if hi is not None and not self.add_le(l - K(hi)):
                return False
        elif not l.t:
            if not (self.mask(a) >> l.c) & 1 if 0 <= l.c < 256 else True:
                self.bad = True
                return False
        # re-add inequalities that mention a
        redo = [(k, v) for k, v in self.ine.items() if any(x == a for x, _ in k)]
        for k, _ in redo:
            del self.ine[k]
        self._idx = None
        nes = [(k, v) for k, v in self.ne.items() if any(x == a for x, _ in k)]
        for k, _ in nes:
            del self.ne[k]
        for k, (lo, hi) in redo:
            base = Lin(0, k)
            if lo is not None and not self.add_le(K(lo) - base):
                return False
            if hi is not None and not self.add_le(base - K(hi)):
                return False
        for k, ex in nes:
            for v in ex:
                if not self.add_ne(Lin(-v, k)):
                    return False
        if self.reads:
            for key in list(self.reads):
                obj, pos = key
                if any(x == a for x, _ in pos.t):
                    old = self.reads.pop(key)
                    np = self.norm(pos)
                    nid = byte_atom(obj, np)
                    self.reads[(obj, np)] = nid
                    if nid != old:
                        if nid in self.sub or old in self.sub:
                            if not self.add_eq(A(nid) - A(old)):
                                return False
                        else:
                            m = self.mask(nid) & self.mask(old)
                            if m == 0:
                                self.bad = True
                                return False
                            if not self.restrict(old, m):
                                return False
                            if old in self.sub:
                                if not self.add_eq(A(nid) - A(old)):
                                    return False
                            else:
                                self.sub[nid] = A(old)
        return not self.bad

    def byte(self, obj, pos):
        pos = self.norm(pos)
        a = byte_atom(obj, pos)
        self.reads[(obj, pos)] = a
        return self.norm(A(a))


def pivots(t):
    """the terms to eliminate: of a number given by its digits, the last one"""
    r = [x for x in t if x[1].__class__ is int and -256 < x[1] < 256]
    return r if r else [x for x in t if x[1].__class__ is int]


def size(t):
    """number of terms, the digits of one number counting once"""
    n = 0
    for _, w in t:
        if w.__class__ is not int or -256 < w < 256:
            n += 1
    return n


def _ceil(n, d):
    return -((-n) // d)
