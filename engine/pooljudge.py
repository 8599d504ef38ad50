"""The constant pool as an abstract data type (C19 - C24).

Every reachable pool is an instance of a state at the head of the loop of a synthetic program that
builds a pool and then calls its mutating operations in any order with arbitrary arguments.  What an
operation does is then observed from each of those states through the other operations."""
import interp, models
from lin import *
from vals import *
from drive import *

INVALID = 'InvalidCPItem'
TOOLARGE = 'CPTooLarge'


class PoolSystem:
    def __init__(self, se):
        self.se = se
        self.prog = prog = se.prog
        self.ip = interp.Interp(prog)
        self.T = prog.types
        self.obl = 0
        self.pool_it = self.type_item('::Pool')
        self.pool_ty = self.ty_of(self.pool_it)
        self.item_ty = self.ty_of(self.type_item('constpool::Item', '::Item'))
        self.file = self.pool_it['file']
        self.extra = self.extras()
        self.exact = False
        self.find_fns()
        self.findings = []
        self.heads = []
        self.makers = []
        self.partial = None
        try:
            self.histories(self.muts)
        except Undecided as e:
            # the histories of pushing alone
            push = [f for f in self.muts if push_args(self, f)]
            if not push or len(push) == len(self.muts):
                raise
            self.partial = str(e)
            self.findings, self.heads, self.makers = [], [], []
            self.histories(push)

    def type_item(self, *ends):
        for e in ends:
            r = [it for it in self.se.items() if it['kind'] in ('Struct', 'Enum') and it['path'].endswith(e)]
            if len(r) == 1:
                return r[0]
        raise Undecided('no type %s' % ends[0])

    def ty_of(self, it):
        for i, t in enumerate(self.T):
            if t['k'] == 'adt' and t['path'] == it['path']:
                return i
        raise Undecided('type %s is not used' % it['path'])

    def refto(self, ty):
        t = self.T[ty]
        return (t['ty'], bool(t.get('mutable'))) if t['k'] == 'ref' else (None, None)

    def find_fns(self):
        """constructors and mutating operations"""
        prog = self.prog
        makers, muts = [], []
        mutset = set()
        self.local = [f for f in prog.fns if f is not None and f.local and f.body]
        meta = {it['fn']: it for it in self.se.js['items'] if it.get('fn') is not None}
        self.meta = meta
        for f in self.local:
            tys = [f.locals[i + 1] for i in range(f.argc)]
            if any(self.refto(t) == (self.pool_ty, True) for t in tys):
                mutset.add(f.id)
        for f in self.local:
            if f.file != self.file or '{closure' in f.path:
                continue
            tys = [f.locals[i + 1] for i in range(f.argc)]
            if f.id in mutset:
                muts.append(f)
            elif f.locals[0] == self.pool_ty and not any(self.refto(t)[0] == self.pool_ty for t in tys):
                makers.append(f)
        # a helper that only mutating operations use is no operation of its own
        outer = set()
        for f in self.local:
            if f.id in mutset and f.file == self.file:
                continue
            if '{closure' in f.path:
                continue
            for b in f.blocks:
                if b and b[1][0] == 'call' and b[1][1].get('fn_') is not None:
                    outer.add(b[1][1]['fn_'])
        self.muts = [f for f in muts if f.id in outer or (meta.get(f.id) or {}).get('reachable')
                     or (meta.get(f.id) or {}).get('impl_trait')]
        self.makers_ = [f for f in makers if f.id in outer or (meta.get(f.id) or {}).get('reachable')
                        or (meta.get(f.id) or {}).get('impl_trait')]
        if not self.muts or not self.makers_:
            raise Undecided('no operations of the constant pool')
        for f in self.muts + self.makers_:
            f.prep()

    def extras(self):
        """fields besides a length, the items by index and a map of the items: how they are tied to those is
        seldom expressible, so that what is found out about all histories may not be true of any"""
        seen = set()
        out = []
        for i, x in enumerate(self.T[self.pool_ty]['variants'][0]['fields']):
            t = self.T[x['ty']]
            s = t['s'].split('<')[0]
            role = 'int' if t['k'] == 'int' else 'list' if s.endswith('::Vec') and self.pairs(t) == 0 else \
                'map' if s.endswith('Map') else None
            if role is None or role in seen:
                out.append(i)
            seen.add(role)
        return out

    def pairs(self, t):
        e = self.T[t['targs'][0]]
        return 1 if e['k'] == 'tuple' else 0

    def bounded(self, limit=40):
        """the pools that a few operations with integers (longs) lead to, one by one"""
        out = []
        ip = self.ip
        for f in self.makers_:
            if f.argc:
                continue
            st = ip.new_state(f, [])
            s0, bad = call(ip, st, f, [], {}, 20)
            todo = [(s, p, 0) for s, p in s0]
            while todo and len(out) < limit:
                s, p, n = todo.pop(0)
                if find_agg(self.T, {0: p}, self.pool_ty) is None or not consistent(s.facts):
                    continue
                s = s.copy()
                s.trace = None
                out.append((f, s, p))
                if n == 3:
                    continue
                for g in self.muts:
                    if not push_args(self, g):
                        continue
                    for s1, x in variants(ip, s, ip.opq(('h', n), self.item_ty)):
                        if self.vname(x) == 'Integer' or self.vname(x) == 'Long' and n < 2:
                            r, bad = self.call(s1, g, p, [x], 30 + n)
                            todo += [(s2, p2, n + 1) for s2, _, p2 in r]
            break
        return out

    def op(self, name):
        r = [f for f in self.local if f.file == self.file and f.path.endswith('Pool::' + name)]
        if len(r) != 1:
            raise Undecided('no operation %s of the constant pool' % name)
        r[0].prep()
        return r[0]

    def public(self, f):
        it = self.meta.get(f.id)
        return bool(it and (it.get('reachable') or it.get('impl_trait')))

    # ---- every history
    def histories(self, muts):
        for m in self.makers_:
            f = self.history(m, muts)
            st = self.ip.new_state(f, [])
            saved = self.ip.begin()
            try:
                self.ip.run([st], 1)
                recs = list(self.ip.recs.values())
                bad = list(self.ip.findings.values())
            finally:
                self.ip.end(saved, False)
            for x in bad:
                if x.kind == 'unsupported' or x.taint:
                    raise Undecided('the operations of the pool: %s' % x.msg)
                self.findings.append(x)
            mine = [r for r in recs if r.fn is f]
            if len(mine) != 1:
                raise Undecided('the operations of the pool do not form one loop')
            rec = mine[0]
            entry = find_agg(self.T, rec.entry.cells, self.pool_ty)
            if entry is None:
                raise Undecided('no pool is built by %s' % m.path)
            self.makers += self.fresh(m)
            for P in rec.parts:
                if P.head is None:
                    continue
                p = find_agg(self.T, P.head.cells, self.pool_ty)
                if p is None or P.head.taint:
                    raise Undecided('the state of the pool is lost')
                s = P.head.copy()
                s.trace = None
                self.heads.append((m, s, p))

    def fresh(self, maker):
        """all pools that a constructor gives"""
        st = self.ip.new_state(maker, [])
        args = [self.ip.opq(('new', i), maker.locals[i + 1]) for i in range(maker.argc)]
        out, bad = call(self.ip, st, maker, args, {}, 9)
        r = []
        for s, p in out:
            q = find_agg(self.T, {0: p}, self.pool_ty)
            if q is not None:
                s = s.copy()
                s.trace = None
                r.append((maker, s, q))
        if not r:
            raise Undecided('no pool is built by %s' % maker.path)
        return r

    def history(self, maker, muts):
        d = Driver(self.prog, 'history of ' + maker.path)
        p = d.local(self.pool_ty)
        c = d.local(d.u8())
        r = d.local(d.ref(self.pool_ty))
        d.names = []
        b = d.block()
        args = []
        for i in range(maker.argc):
            a = d.local(maker.locals[i + 1])
            args.append(a)
            n = d.block()
            d.fill(b, [], d.any(a, n))
            b = n
        head = d.block()
        d.fill(b, [], d.call(maker, args, p, head))
        sw = d.block()
        d.fill(head, [], d.any(c, sw))
        tg = []
        for k, f in enumerate(muts):
            b = d.block()
            tg.append([k, b])
            args = []
            for i in range(f.argc):
                if self.refto(f.locals[i + 1]) == (self.pool_ty, True):
                    args.append(r)
                    continue
                a = d.local(f.locals[i + 1])
                args.append(a)
                n = d.block()
                d.fill(b, [], d.any(a, n))
                b = n
            x = d.local(f.locals[0])
            d.fill(b, [['=', [r, []], ['ref', [p, []], True], 0]], d.call(f, args, x, head))
        end = d.block()
        d.fill(end, [], ['return', 0])
        d.fill(sw, [], ['switch', ['c', [c, []]], d.u8(), tg, end, 0])
        return d.done()

    # ---- observations
    def call(self, st, fn, pool, args, tag=0):
        """[(state, result, pool afterwards)], findings; contradictory outcomes are left out"""
        cell = ('g', 'pool', tag)
        out, bad = call(self.ip, st, fn, [Ref(cell, ())] + list(args), {cell: pool}, tag)
        self.obl += 1
        return [(s, r, s.cells[cell]) for s, r in out if consistent(s.facts)], bad

    def look(self, st, fn, pool, args, tag=9):
        """an operation that must not panic and leaves the pool alone"""
        out, bad = self.call(st, fn, pool, args, tag)
        if bad:
            raise Broken(bad[0])
        return [(s, r) for s, r, _ in out]

    def length(self, st, pool):
        r = self.look(st, self.op('len'), pool, [])
        if len(r) != 1 or r[0][1].__class__ is not Lin:
            raise Undecided('the length of the pool is unknown')
        return r[0]

    def canon(self, st, x):
        return models.canon(self.ip, st, deref(self.ip, st, x))

    def error(self, st, r):
        """(name, fields) of the error in a Result"""
        e = r.f[0]
        if e.__class__ is not Agg or e.var is None:
            raise Undecided('an unknown error')
        return self.T[e.ty]['variants'][e.var]['name'], e.f

    def items(self, st):
        """[(state, item)] one for every kind of item"""
        x = self.ip.opq(('x',), self.item_ty)
        return variants(self.ip, st, x)

    def wide(self, x):
        return self.T[x.ty]['variants'][x.var]['name'] in ('Long', 'Double')

    def vname(self, x):
        return self.T[x.ty]['variants'][x.var]['name']


class Broken(Exception):
    """an observation panics"""

    def __init__(self, f):
        Exception.__init__(self, '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))
        self.finding = f


def same_pool(V, st, a, b):
    if V.extra and a.__class__ is Agg and b.__class__ is Agg and a.ty == b.ty == V.pool_ty:
        a, b = [Agg(x.ty, x.var, tuple(y for i, y in enumerate(x.f) if i not in V.extra)) for x in (a, b)]
    return models.canon(V.ip, st, a) == models.canon(V.ip, st, b)


def same_below(V, s, new, old, end):
    """lookups below end give the same in both; None or what differs"""
    get = V.op('get')
    j = A(sym(('pool', 'j'), 0, 65535))
    s = s.copy()
    s.facts = s.facts.copy()
    if not (s.facts.add_le(K(1) - j) and s.facts.add_le(j - end + 1)):
        return True
    for s1, r1 in V.look(s, get, new, [j], 7):
        for s2, r2 in V.look(s1, get, old, [j], 8):
            if r1.var != r2.var:
                return False
            if r1.var == 0 and V.canon(s2, r1.f[0]) != V.canon(s2, r2.f[0]):
                return False
    return True


def at(V, st, pool, i, tag=6):
    return V.look(st, V.op('get'), pool, [st.facts.norm(i)], tag)


def known(V, st, pool, x, kx):
    r = known_key(st, x, kx)
    if r is not None or not V.exact:
        return r
    # one of a few pools with known entries
    for l in maps(V, pool):
        for sg in l.segs:
            if sg[0] != 'e':
                return None
            k = plain(V, st, sg[1].f[0])
            if k.__class__ is not Agg or x.__class__ is not Agg:
                return None
            if equal(V, st, k, x):
                return True
            if k.var == x.var and not any(a.__class__ is Lin and b.__class__ is Lin and st.facts.nonzero(a - b)
                                          for a, b in zip(k.f, x.f)):
                return None
    return False


def known_key(st, x, kx):
    """what the path knows about maps that hold x: True, False or None"""
    r = None
    for k, v in st.facts.strs.items():
        if k.__class__ is tuple and len(k) == 2 and k[0] == 'unk' and k[1][0] == 'has' and k[1][2] == kx:
            if v:
                return True
            r = False
    return r


def loops(st):
    return any(e[0] in ('loop', 'joined') for e in st.events())


def where(f):
    return '%s:%s %s' % (f.file, f.line, f.path)


def guard(v, fn, key, go):
    try:
        go()
    except Undecided as e:
        v.unknown(key, '%s: %s' % (fn.path, e))
    except Broken as e:
        v.bad(key + ('panic',), '%s: looking at the result panics: %s' % (where(fn), e))


def c19(V, v):
    """pushing"""
    for f in V.muts:
        for n, (m, st, pool) in enumerate(V.heads):
            for s0, x in V.items(st):
                if push_args(V, f) is None:
                    continue
                guard(v, f, ('push', f.path, V.vname(x)), lambda: push(V, v, f, s0, pool, x))
            if push_args(V, f) is None:
                guard(v, f, ('op', f.path), lambda: other(V, v, f, st, pool))


def push_args(V, f):
    """an operation with one item as its only argument that returns a Result of an index"""
    if f.argc == 2 and f.locals[2] == V.item_ty:
        t = V.T[f.locals[0]]
        if t['k'] == 'adt' and t['path'] == 'core::result::Result' and V.T[t['targs'][0]]['s'] == 'u16':
            return True
    return None


def other(V, v, f, st, pool):
    """any other operation keeps what is there"""
    args = [V.ip.opq(('arg', i), f.locals[i + 2]) for i in range(f.argc - 1)]
    s, L = V.length(st, pool)
    out, bad = V.call(s, f, pool, args, 1)
    for s1, r, p1 in out:
        kept(V, v, f, s1, p1, pool, L)


def kept(V, v, f, s, new, old, L):
    s2, L2 = V.length(s, new)
    if not s2.facts.le(L - L2):
        v.bad(('shrinks', f.path), '%s: the pool can get shorter' % where(f))
        return False
    if not same_below(V, s2, new, old, L):
        v.bad(('changes', f.path), '%s: what an index of an earlier item refers to can change' % where(f))
        return False
    v.ok()
    return True


def push(V, v, f, st, pool, x):
    public = V.public(f)
    name = V.vname(x)
    w = 2 if V.wide(x) else 1
    s, L = V.length(st, pool)
    out, bad = V.call(s, f, pool, [x], 1)
    kx = models.canon(V.ip, st, x)
    for s1, r, p1 in out:
        if r.var == 0:
            i = s1.facts.norm(r.f[0])
            s2, L2 = V.length(s1, p1)
            grew = not s2.facts.eq(L2 - L)
            if not kept(V, v, f, s2, p1, pool, L):
                continue
            if grew or not public:
                # the item is there under the new index
                ok = True
                for s3, g in at(V, s2, p1, i):
                    if g.var != 0 or V.canon(s3, g.f[0]) != V.canon(s3, x):
                        ok = False
                        v.bad(('get', f.path, name), '%s: a lookup of the index that is returned for a new %s does not give '
                              'that item' % (where(f), name))
                if public and known(V, s2, pool, x, kx) is not False:
                    if known(V, s2, pool, x, kx) is None and loops(s2):
                        v.unknown(('again', f.path, name), '%s: cannot see how an equal item is looked for' % f.path)
                    else:
                        v.bad(('again', f.path, name), '%s: a %s that is already there can be added once more' % (where(f), name))
                    continue
                if ok:
                    v.ok()
                    v.sample('%s of a new %s: returned index looked up, item found again by push, lookups below kept' % (
                        f.path, name))
            else:
                found = [e for e in s2.events() if e[0] == 'mapfound' and models.canon(V.ip, s2, e[2]) == kx]
                if not same_pool(V, s2, p1, pool):
                    # the observable part is the same; the next operations have to see no difference
                    v.unknown(('unchanged', f.path, name), '%s: the pool may differ after an item that it already had' % f.path)
                elif not (found and any(s2.facts.eq(i - y) for y in held(V, s2, pool, found, kx))
                          or V.exact and holds(V, s2, pool, x, i)):
                    if loops(s2):
                        v.unknown(('found', f.path, name), '%s: cannot see how an equal item is looked for' % f.path)
                    else:
                        v.bad(('found', f.path, name), '%s: the index returned for a %s that is already there is not the '
                              'one it was given' % (where(f), name))
                else:
                    v.ok()
            # the map gives the first index of an equal item, now and later
            entries(V, v, f, s2, p1, name)
            again(V, v, f, s2, p1, x, None if not public and not known(V, s2, pool, x, kx) is False else i, name)
        elif r.var == 1 and public:
            pass


def held(V, st, pool, found, kx):
    """values that a map of the pool holds for the key"""
    out = []
    for l in maps(V, pool):
        for sg in l.segs:
            if sg[0] == 's' and any(e[1] == sg[1] for e in found):
                x = V.ip.opq(('mv', sg[1], kx), sg[3][1])
                if x.__class__ is Lin:
                    out.append(x)
    return out


def holds(V, st, pool, x, i):
    """one of the known entries of a map of the pool is this item with this index"""
    return any(sg[0] == 'e' and st.facts.eq(sg[1].f[1] - i) and equal(V, st, plain(V, st, sg[1].f[0]), x)
               for l in maps(V, pool) for sg in l.segs)


def plain(V, st, k):
    while k.__class__ is Ref or k.__class__ is Agg and k.ty.__class__ is int and V.ip.is_box(k.ty):
        k = V.ip.load(st, k.cell, k.proj) if k.__class__ is Ref else k.f[0]
    return k


def entries(V, v, f, st, pool, name):
    """every entry that was added to a map of the pool refers to an equal item"""
    for l in maps(V, pool):
        for sg in l.segs:
            if sg[0] != 'e':
                continue
            key, val = sg[1].f
            if val.__class__ is not Lin:
                raise Undecided('a map of another kind')
            for s, g in at(V, st, pool, val, 5):
                if g.var != 0 or V.canon(s, g.f[0]) != V.canon(s, key):
                    v.bad(('entry', f.path, name), '%s: the map refers to an index that does not hold the %s' % (where(f), name))
                else:
                    v.ok()


def maps(V, x):
    out = []
    todo = [x]
    while todo:
        y = todo.pop()
        if y.__class__ is Agg:
            todo.extend(y.f)
        elif y.__class__ is Lst and y.segs and any(s[0] == 's' and s[3].__class__ is tuple or
                                                   s[0] == 'e' and s[1].__class__ is Agg and s[1].ty == ('pair',) for s in y.segs):
            out.append(y)
    return out


def again(V, v, f, st, pool, x, want, name):
    """pushing an equal item returns the same index and changes nothing, also after another operation"""
    pub = [g for g in V.muts if push_args(V, g) and V.public(g)]
    for g in pub:
        out, bad = V.call(st, g, pool, [x], 2)
        for s1, r, p1 in out:
            if r.var != 0:
                v.bad(('refused', g.path, f.path, name), '%s: pushing a %s that is already there (after %s) can be refused' % (
                    where(g), name, f.path))
                continue
            i = s1.facts.norm(r.f[0])
            if want is not None and not s1.facts.eq(i - want):
                v.bad(('other', g.path, f.path, name), '%s: pushing a %s that is already there (after %s) can return another '
                      'index' % (where(g), name, f.path))
            elif not same_pool(V, s1, p1, pool):
                v.bad(('grows', g.path, f.path, name), '%s: pushing a %s that is already there (after %s) can change the '
                      'pool' % (where(g), name, f.path))
            else:
                v.ok()


def later(V, v):
    """an item that is found keeps its index through any operation"""
    pub = [g for g in V.muts if push_args(V, g) and V.public(g)]
    for g in pub:
        for m, st, pool in V.heads:
            for s0, x in V.items(st):
                def go():
                    out, bad = V.call(s0, g, pool, [x], 2)
                    kx = models.canon(V.ip, s0, x)
                    for s1, r, p1 in out:
                        if r.var != 0 or not same_pool(V, s1, p1, pool):
                            continue
                        i = s1.facts.norm(r.f[0])
                        for f in V.muts:
                            args = [V.ip.opq(('y', k), f.locals[k + 2]) for k in range(f.argc - 1)]
                            out2, bad2 = V.call(s1, f, p1, args, 1)
                            for s2, r2, p2 in out2:
                                out3, bad3 = V.call(s2, g, p2, [x], 3)
                                for s3, r3, p3 in out3:
                                    if r3.var != 0 or not s3.facts.eq(r3.f[0] - i) or not same_pool(V, s3, p3, p2):
                                        v.bad(('later', f.path, g.path, V.vname(x)),
                                              '%s: after this, pushing a %s that was there before can give another index '
                                              'or change the pool' % (where(f), V.vname(x)))
                                    else:
                                        v.ok()
                guard(v, g, ('later', g.path, V.vname(x)), go)


def maps(V, pool):
    return [x for i, x in enumerate(pool.f) if x.__class__ is Lst and
            V.T[V.T[V.pool_ty]['variants'][0]['fields'][i]['ty']]['s'].split('<')[0].endswith('Map')]


def split_empty(V, st, pool):
    """[state]: the length is 1 and the maps are empty, or neither"""
    s, L = V.length(st, pool)
    out = []
    for b, s1 in ((True, s.copy()), (False, s.copy())):
        f = s1.facts
        ok = f.add_eq(L - 1) if b else f.add_le(K(2) - L) is not False
        for m in maps(V, pool):
            ok = ok and (f.add_eq(m.length()) if b else f.add_le(K(1) - m.length()) is not False)
        if ok and not f.bad:
            out.append(s1)
    return out


def tied(V, st, pool):
    """the states of the pool, with the maps empty exactly if the pool is, where all operations preserve that"""
    if not hasattr(V, 'is_tied'):
        V.is_tied = False
        try:
            V.is_tied = all_tied(V)
        except (Undecided, Broken):
            pass
    return split_empty(V, st, pool) if V.is_tied else [st]


def all_tied(V):
    def good(s, p):
        s, L = V.length(s, p)
        f = s.facts
        one = f.eq(L - 1)
        if not one and not f.nonzero(L - 1):
            return False
        return all(f.eq(m.length()) if one else f.le(K(1) - m.length()) for m in maps(V, p))
    if not all(push_args(V, f) for f in V.muts) or not all(good(s, p) for _, s, p in V.makers):
        return False
    for m, st, pool in V.heads:
        for s0 in split_empty(V, st, pool):
            for f in V.muts:
                for s1, x in V.items(s0):
                    out, bad = V.call(s1, f, pool, [x], 1)
                    if not all(good(s2, p) for s2, r, p in out):
                        return False
    return True


def c20(V, v):
    for m, st, pool in V.makers:
        def go():
            s, L = V.length(st, pool)
            if not s.facts.eq(L - 1):
                v.bad(('new', m.path), '%s: the length of a new pool is not 1' % where(m))
            else:
                v.ok()
                v.sample('%s: length 1' % m.path)
        guard(v, m, ('new', m.path), go)
    e = V.op('is_empty')
    sure = [(m, s, p, True) for m, s, p in V.makers]
    todo = [(m, s1, p, False) for m, s, p in V.heads for s1 in tied(V, s, p)]
    if V.is_tied:
        todo = [x[:3] + (True,) for x in todo]
    else:
        # the relation between the maps and the length is not known
        sure += [(m, s, p, True) for m, s, p in V.bounded()]
    for m, st, pool, exact in sure + todo:
        def go():
            s, L = V.length(st, pool)
            for s1, r in V.look(s, e, pool, []):
                for s2, b in forked(s1, lambda t: models.decide(t, r)):
                    good = s2.facts.eq(L - 1) if b else s2.facts.nonzero(L - 1)
                    if not good:
                        (v.bad if exact else v.unknown)(('empty', b), '%s: gives %s for a pool that is%s empty' % (where(e), b, ' not' if b else ''))
                    else:
                        v.ok()
        guard(v, e, ('empty',), go)
    for f in V.findings:
        v.bad(('panic', f.fn, f.line, f.msg), '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))
    for f in V.muts:
        if not push_args(V, f) or not V.public(f):
            continue
        for m, st, pool in V.heads:
            for s0, x in V.items(st):
                guard(v, f, ('push', f.path, V.vname(x)), lambda: size(V, v, f, s0, pool, x))
    v.ok()


def size(V, v, f, st, pool, x):
    name = V.vname(x)
    w = 2 if V.wide(x) else 1
    s, L = V.length(st, pool)
    out, bad = V.call(s, f, pool, [x], 1)
    kx = models.canon(V.ip, st, x)
    for s1, r, p1 in out:
        s2, L2 = V.length(s1, p1)
        if r.var == 0:
            if s2.facts.eq(L2 - L):
                v.ok()
                continue
            if not s2.facts.eq(L2 - L - w):
                v.bad(('width', f.path, name), '%s: a new %s does not make the pool longer by %d' % (where(f), name, w))
                continue
            v.ok()
            v.sample('%s of a %s: length grows by %d' % (f.path, name, w))
            if w == 2:
                for s3, g in at(V, s2, p1, s2.facts.norm(r.f[0]) + 1):
                    if g.var == 0:
                        v.bad(('second', f.path, name), '%s: the second index of a %s is in use' % (where(f), name))
                    else:
                        v.ok()
        else:
            n, fs = V.error(s2, r)
            if n != TOOLARGE:
                v.bad(('error', f.path, name, n), '%s: a %s is refused with %s' % (where(f), name, n))
                continue
            if not same_pool(V, s2, p1, pool):
                if not kept_all(V, s2, p1, pool, L, L2):
                    v.bad(('unchanged', f.path, name), '%s: the pool is changed although a %s is refused' % (where(f), name))
                else:
                    v.unknown(('unchanged', f.path, name), '%s: the pool may differ after a refused item' % f.path)
                continue
            if not s2.facts.le(K(65536) - L - w):
                v.bad(('early', f.path, name), '%s: a %s is refused although the pool is not full' % (where(f), name))
                continue
            if known(V, s2, pool, x, kx) is not False:
                if known(V, s2, pool, x, kx) is None and loops(s2):
                    v.unknown(('found', f.path, name), '%s: cannot see how an equal item is looked for' % f.path)
                else:
                    v.bad(('found', f.path, name), '%s: a %s that is already there is refused' % (where(f), name))
                continue
            v.ok()


def kept_all(V, s, new, old, L, L2):
    return s.facts.eq(L - L2) and same_below(V, s, new, old, L)


def c23(V, v):
    get = V.op('get')
    i = A(sym(('i',), 0, 65535))
    for m, st, pool in V.heads:
        def go():
            s, L = V.length(st, pool)
            out, bad = V.call(s, get, pool, [i], 1)
            for f in bad:
                v.bad(('panic', f.fn, f.line, f.msg), '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))
            for s1, r, _ in out:
                if r.var == 0:
                    if s1.facts.le(K(1) - i) and s1.facts.le(i - L + 1):
                        v.ok()
                    else:
                        v.bad(('get', 'range'), '%s: an index outside of the pool is accepted' % where(get))
                else:
                    invalid(V, v, get, s1, r, [i])
                typed(V, v, s1, pool, i, r)
        guard(v, get, ('get',), go)


def invalid(V, v, f, st, r, idx):
    n, fs = V.error(st, r)
    if n != INVALID:
        v.bad(('error', f.path, n), '%s: fails with %s' % (where(f), n))
    elif not any(st.facts.eq(fs[0] - j) for j in idx):
        v.bad(('index', f.path), '%s: the error carries another index' % where(f))
    else:
        v.ok()


def typed(V, v, st, pool, i, g):
    """the typed lookups, where the plain lookup gives g"""
    utf8, cn, cno = V.op('get_utf8'), V.op('get_class_name'), V.op('get_class_name_opt')
    if g.var == 0:
        its = [(s, deref(V.ip, s, x)) for s, x in [(st, g.f[0])]]
        its = [(t, y) for s, x in its for t, y in variants(V.ip, s, x)]
    else:
        its = [(st, None)]
    for s, x in its:
        kind = V.vname(x) if x is not None else None
        for f in (utf8, cn, cno):
            def go():
                out, bad = V.call(s, f, pool, [i], 2)
                for b in bad:
                    v.bad(('panic', b.fn, b.line, b.msg), '%s:%s in %s: %s' % (b.file, b.line, b.fn, b.msg))
                for s1, r, _ in out:
                    if f is utf8 and kind == 'UTF8':
                        text(V, v, f, s1, r, x.f[0])
                    elif f is not utf8 and kind == 'Class':
                        name(V, v, f, s1, r, pool, i, x.f[0], f is cno)
                    elif r.var == 0:
                        v.bad(('accepts', f.path, kind), '%s: accepts %s' % (
                            where(f), 'a %s' % kind if kind else 'an index without an item'))
                    else:
                        invalid(V, v, f, s1, r, [i])
            guard(v, f, ('typed', f.path, kind), go)


def text(V, v, f, st, r, want):
    if r.var != 0:
        v.bad(('refuses', f.path), '%s: refuses an entry of the right kind' % where(f))
    elif V.canon(st, r.f[0]) != V.canon(st, want):
        v.bad(('text', f.path), '%s: gives another string than the entry' % where(f))
    else:
        v.ok()
        v.sample('%s: gives the string of the entry' % f.path)


def name(V, v, f, st, r, pool, i, u, opt):
    u = st.facts.norm(u)
    if opt:
        for s, z in forked(st, lambda t: models.decide(t, c_eq(t.facts.norm(u)))):
            if z:
                if r.var != 0:
                    v.bad(('none', f.path), '%s: refuses a class entry with name index 0' % where(f))
                    continue
                for s1, o in variants(V.ip, s, r.f[0]):
                    if o.var != 0:
                        v.bad(('none', f.path), '%s: gives a name for a class entry with name index 0' % where(f))
                    else:
                        v.ok()
                continue
            if r.var == 0:
                for s1, o in variants(V.ip, s, r.f[0]):
                    if o.var != 1:
                        v.bad(('none', f.path), '%s: gives no name for a class entry with a name' % where(f))
                    else:
                        inner(V, v, f, s1, Agg(r.ty, 0, (o.f[0],)), pool, i, u)
            else:
                inner(V, v, f, s, r, pool, i, u)
        return
    inner(V, v, f, st, r, pool, i, u)


def inner(V, v, f, st, r, pool, i, u):
    """like the string at u"""
    for s, g in V.look(st, V.op('get'), pool, [u], 3):
        its = variants(V.ip, s, deref(V.ip, s, g.f[0])) if g.var == 0 else [(s, None)]
        for s1, x in its:
            if x is not None and V.vname(x) == 'UTF8':
                text(V, v, f, s1, r, x.f[0])
            elif r.var == 0:
                v.bad(('accepts', f.path, 'name'), '%s: accepts a class entry whose name is no string' % where(f))
            else:
                invalid(V, v, f, s1, r, [i, u])


# ------------------------------------------------------------------ iteration
def model_yield(c):
    c.st.ev(('yield', c.args[0]))
    return c.unit()


models.MODELS['jbv::yield'] = model_yield


def rounds(st, start):
    """(value before, [loop records since]) of the path of st since the last loop head of start"""
    return [(e[1], e[2]) for e in st.events() if e[0] == 'loop' and e[1] is not start]


def c21(V, v):
    ip = V.ip
    it = V.op('iter')
    ity = it.locals[0]
    nx = [f for f in V.local if f.decl.endswith('Iterator::next') and f.argc == 1 and V.refto(f.locals[1]) == (ity, True)]
    if len(nx) != 1:
        nxt = next((j for j in V.prog.iter_next if j['iter'] == ity and j['next'] is not None), None)
        if nxt is None:
            raise Undecided('no iterator over the pool')
        nx = [V.prog.fns[nxt['next']]]
    nx = nx[0]
    if nx.local:
        tail_loop(nx)
    nx.prep()
    opt = nx.locals[0] if nx.body else nxt['opt_item']
    d, D = iter_driver(V, it, nx, ity, opt)
    for m, st, pool in V.heads:
        guard(v, nx, ('iter',), lambda: iterate(V, v, d, D, nx, it, st, pool))
    for f in V.local:
        if f.decl.startswith('core::iter::traits::') and f.argc and ity in (f.locals[1], V.refto(f.locals[1])[0]) \
                and f.name not in ('next', 'into_iter'):
            f.prep()
            for n, (m, st, pool) in enumerate(V.bounded(16)):
                guard(v, f, ('override', f.path), lambda: override(V, v, f, it, nx, st, pool))


def override(V, v, f, it, nx, st, pool):
    """a method of the iterator that is not the default one does what the default one would"""
    what = f.name
    cell = ('g', 'iter')

    def each(s, i, k=99):
        """[(state, items, iterator)] what next gives (at most k times)"""
        todo, out = [(s, i, [])], []
        while todo:
            s, i, xs = todo.pop()
            if len(xs) == k:
                out.append((s, xs, i))
                continue
            r, bad = call(V.ip, s, nx, [Ref(cell, ())], {cell: i}, 40)
            if bad:
                raise Broken(bad[0])
            for s2, o in r:
                if not consistent(s2.facts):
                    continue
                j = s2.cells[cell]
                if o.var == 0:
                    out.append((s2, xs, j))
                elif len(xs) > 12:
                    raise Undecided('the iterator does not end')
                else:
                    todo.append((s2, j, xs + [o.f[0]]))
        return out

    def key(s, x):
        return (s.facts.norm(x.f[0]), V.canon(s, x.f[1]))

    def same(s, o, x):
        if x is None:
            return o.var == 0
        return o.var == 1 and key(s, o.f[0]) == key(s, x)

    def ask(s, i, args=()):
        r, bad = call(V.ip, s, f, [Ref(cell, ()) if V.refto(f.locals[1])[0] is not None else i] + list(args), {cell: i}, 41)
        if bad:
            raise Broken(bad[0])
        V.obl += 1
        return [(s2, o, s2.cells[cell]) for s2, o in r if consistent(s2.facts)]
    for s0, i0 in V.look(st, it, pool, [], 42):
        for s1, xs, _ in each(s0, i0):
            n = len(xs)
            if what == 'size_hint':
                for done in range(n + 1):
                    for s2, ys, i in each(s1, i0, done):
                        for s3, r, _ in ask(s2, i):
                            lo, hi = r.f
                            left = n - len(ys)
                            if not s3.facts.le(lo - left) or hi.var == 1 and not s3.facts.le(K(left) - hi.f[0]):
                                v.bad(('override', what), '%s: the size that is announced does not fit what is iterated over'
                                      % where(f))
                            else:
                                v.ok()
            elif what in ('count', 'last'):
                for s2, r, _ in ask(s1, i0):
                    if not (s2.facts.eq(r - n) if what == 'count' else same(s2, r, xs[-1] if xs else None)):
                        v.bad(('override', what), '%s: something else than iterating to the end would give' % where(f))
                    else:
                        v.ok()
            elif what == 'nth':
                for k in range(n + 2):
                    for s2, r, i in ask(s1, i0, [K(k)]):
                        rest = [(s3, ys) for s3, ys, _ in each(s2, i)]
                        if not same(s2, r, xs[k] if k < n else None) or any(
                                [key(s3, y) for y in ys] != [key(s3, x) for x in xs[k + 1:]] for s3, ys in rest):
                            v.bad(('override', what), '%s: skipping elements leads to another one than stepping over them'
                                  % where(f))
                        else:
                            v.ok()
            else:
                raise Undecided('a method of the iterator that is not the default one')


def iter_driver(V, it, nx, ity, opt):
    d = Driver(V.prog, 'iteration')
    T = V.T
    pt = V.T[opt]['targs'][0]
    if T[pt]['k'] != 'tuple' or len(T[pt]['tys']) != 2:
        raise Undecided('the iterator does not give pairs')
    pr = d.local(d.ref(V.pool_ty, False))
    i = d.local(ity)
    o = d.local(opt)
    r = d.local(d.ref(ity))
    last = d.local(T[pt]['tys'][0])
    x = d.local(pt)
    disc = d.local(d.isize())
    unit = d.local(d.prim('()', k='tuple', tys=[]))
    b0, head, b2, b3, b4, end = [d.block() for _ in range(6)]
    u16 = T[pt]['tys'][0]
    d.fill(b0, [], d.call(it, [pr], i, head))
    d.fill(head, [['=', [r, []], ['ref', [i, []], True], 0]], d.call(nx, [r], o, b2))
    d.fill(b2, [['=', [disc, []], ['discr', [o, []], opt], 0]], ['switch', ['m', [disc, []]], d.isize(), [[0, end]], b3, 0])
    some = [['d', 1], ['f', 0, pt]]
    d.fill(b3, [['=', [x, []], ['use', ['c', [o, some]]], 0],
                ['=', [last, []], ['use', ['c', [x, [['f', 0, u16]]]]], 0]],
           ['call', dict(fn_=None, decl='jbv::yield', targs=[]), [['m', [x, []]]], [unit, []], head, d.locals[unit], 0])
    # last is live to the end
    d.fill(end, [['=', [0, []], ['use', ['c', [last, []]]], 0]], ['return', 0])
    d.locals[0] = u16
    f = d.done()
    f.body['argc'] = f.argc = 1
    return f, dict(last=last, head=head, pr=pr)


def iterate(V, v, d, D, nx, it, st, pool):
    ip = V.ip
    cell = ('g', 'pool', 4)
    s = ip.new_state(d, [Ref(cell, ())], facts=st.facts.copy(), cells={cell: pool})
    uid = s.frames[0].uid
    s.cells[(uid, D['last'])] = ZERO
    get = V.op('get')
    s0, L = V.length(s, pool)
    s.facts = s0.facts
    saved = ip.begin()
    try:
        res = ip.run([s], 1)
        recs = list(ip.recs.values())
        bad = list(ip.findings.values())
    finally:
        ip.end(saved, False)
    for f in bad:
        if f.kind == 'unsupported' or f.taint:
            raise Undecided(f.msg)
        v.bad(('panic', f.fn, f.line, f.msg), '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))
    main = [r for r in recs if r.fn is d]
    if len(main) != 1:
        raise Undecided('the iteration is no loop')
    main = main[0]
    lc = (uid, D['last'])

    def lastof(st):
        x = st.cells.get(lc)
        if x.__class__ is not Lin:
            raise Undecided('the index that was given last is unknown')
        return x

    def done(st):
        """rounds of inner loops on the path"""
        n = ZERO
        for rec, p in rounds(st, main):
            n = n + rec.k
        return n

    def err_at(st, j):
        for s1, g in V.look(st, get, pool, [st.facts.norm(j)], 5):
            if g.var == 0:
                return False
        return True

    # the slots that inner loops skip hold nothing
    for rec in recs:
        if rec is main or not rec.backs:
            continue
        if not any(x.fn is d for x in rec.frames):
            continue
        outer = [(r, p) for r, p in rounds(rec.entry, main)]
        if outer:
            raise Undecided('loops inside loops of the iteration')
        for bs, src, P, S in rec.backs:
            if rounds(bs, main):
                raise Undecided('loops inside loops of the iteration')
            l = lastof(bs)
            if not err_at(bs, l + rec.k + 1):
                v.bad(('skip',), '%s: an item can be left out of the iteration' % where(nx))
            else:
                v.ok()
    def skipped(st, a, b):
        """indices from a to b - 1, a few"""
        n = st.facts.norm(b - a)
        if n.t or n.c < 0 or n.c > 8:
            return None
        return all(err_at(st, a + j) for j in range(n.c))

    nb = 0
    for bs, src, P, S in main.backs:
        ys = [e[1] for e in bs.events() if e[0] == 'yield']
        if len(ys) != 1:
            raise Undecided('the iteration loses an item')
        l = src.head.cells.get(lc)
        x = ys[0]
        if x.__class__ is not Agg or l.__class__ is not Lin:
            raise Undecided('the iteration gives an unknown pair')
        q = bs.facts.norm(x.f[0])
        nb += 1
        a = l + done(bs) + 1
        sk = skipped(bs, a, q)
        if sk is None:
            if bs.facts.le(q - l):
                v.bad(('order',), '%s: an index does not follow the one before' % where(nx))
                continue
            if bs.facts.nonzero(q - a):
                v.bad(('index',), '%s: an item can come with another index' % where(nx))
                continue
            raise Undecided('how far an item is from the one before is unknown')
        if not sk:
            v.bad(('skip',), '%s: an item can be left out of the iteration' % where(nx))
            continue
        for s1, g in V.look(bs, get, pool, [q], 5):
            if g.var != 0 or V.canon(s1, g.f[0]) != V.canon(s1, x.f[1]):
                v.bad(('pair',), '%s: an item comes with an index that belongs to something else' % where(nx))
            else:
                v.ok()
                v.sample('%s: each round gives the next index in use with its item' % nx.path)
    ends = [s1 for k, s1 in res]
    for e in ends:
        l = e.cells.get('ret')
        if l.__class__ is not Lin:
            raise Undecided('the index that was given last is unknown')
        n = ZERO
        for rec, p in rounds(e, main):
            n = n + rec.k
        a = l + n + 1
        if e.facts.le(L - a):
            v.ok()
            continue
        sk = skipped(e, a, L)
        if sk:
            v.ok()
        elif sk is False:
            v.bad(('end',), '%s: the iteration can end before the last item' % where(nx))
        else:
            # some index from here on may hold something
            j = A(sym(('pool', 'j2'), 0, 65535))
            t = e.copy()
            t.facts = e.facts.copy()
            if t.facts.add_le(a - j) and t.facts.add_le(j - L + 1) and not err_at(t, j):
                v.bad(('end',), '%s: the iteration can end before the last item' % where(nx))
            else:
                v.ok()
    if not ends:
        raise Undecided('the iteration does not end')
    # an empty pool yields nothing, any other something
    if not nb:
        v.bad(('none',), '%s: no item is ever given' % where(nx))


# ------------------------------------------------------------------ equality and hashing
def c22(V, v):
    ip = V.ip
    eqs = [f for f in V.local if f.decl == 'core::cmp::PartialEq::eq' and f.argc == 2
           and all(V.refto(f.locals[i])[0] == V.item_ty for i in (1, 2))]
    hs = [f for f in V.local if f.decl == 'core::hash::Hash::hash' and V.refto(f.locals[1])[0] == V.item_ty]
    if len(eqs) != 1 or not hs:
        raise Undecided('no equality or hash of constants')
    eq = eqs[0]
    # the instance for the hasher of the map comes first
    hs.sort(key=lambda f: -f.id)
    st = ip.new_state(eq, [])
    n = len(V.T[V.item_ty]['variants'])
    names = [x['name'] for x in V.T[V.item_ty]['variants']]
    for a in range(n):
        for b in range(n):
            x = ip.expand(ip.opq(('x',), V.item_ty), a)
            y = ip.expand(ip.opq(('y',), V.item_ty), b)
            guard(v, eq, ('eq', names[a], names[b]), lambda: pair(V, v, eq, hs, st, x, y, names[a], names[b]))


class Everything:
    def __contains__(self, x):
        return True


def is_text(V, x):
    return x.ty.__class__ is not int or V.T[x.ty].get('s', '').endswith('String')


def sequence(V, x):
    """the type of the elements, for a list of something else than numbers"""
    lt = V.ip.is_list_ty(x.ty) if x.ty.__class__ is int else None
    return lt[1] if lt and lt[1].__class__ is int and V.T[lt[1]]['k'] == 'adt' else None


def texts(V, x):
    """the number of texts and other sequences in a value"""
    if x.__class__ is Lst:
        return int(is_text(V, x) or sequence(V, x) is not None)
    return sum(texts(V, y) for y in x.f) if x.__class__ is Agg else 0


def short_text(V, st, x, name, n, top):
    """x with texts of n characters each"""
    if x.__class__ is Lst and is_text(V, x):
        out = []
        for i in range(n):
            a = A(sym(('el', ('g', name, n, top), K(i)), 0, top))
            out.append(('e', a))
        return Lst(x.ty, tuple(out), x.tag)
    if x.__class__ is Lst and sequence(V, x) is not None:
        return Lst(x.ty, tuple(('e', V.ip.opq(('el', ('g', name, n, top), i), sequence(V, x))) for i in range(n)), x.tag)
    if x.__class__ is Agg:
        return Agg(x.ty, x.var, tuple(short_text(V, st, y, name, n, top) for y in x.f))
    return x


def pair(V, v, eq, hs, st, x, y, na, nb):
    """x and y with nothing known of their operands; x with itself; and, for texts, all short ones: what happens in
    loops over a text of unknown length is only taken as far as these confirm it"""
    found, unsure = {}, {}
    runs = [(x, y, False)]
    if na == nb:
        runs.append((x, x, True))
    for p, q, same in runs:
        compare(V, v, eq, hs, st, p, q, na, nb, same, found, unsure)
    if texts(V, x) or texts(V, y):
        V.ip.small = Everything()
        for top, i, j in [(t, i, j) for t in (0x7F, 0xD7FF) for i in range(3) for j in range(3 if texts(V, y) else 1)]:
            p, q = short_text(V, st, x, 'x', i, top), short_text(V, st, y, 'y', j, top)
            compare(V, v, eq, hs, st, p, q, na, nb, False, found, {})
            if na == nb and i == j:
                compare(V, v, eq, hs, st, p, p, na, nb, True, found, {})
        V.ip.small = ()
    for k, t in found.items():
        v.bad(k, t)
    for k, t in unsure.items():
        if k not in found:
            v.unknown(k, t + ': cannot be told')


def compare(V, v, eq, hs, st, x, y, na, nb, same, found, unsure):
    ip = V.ip
    cx, cy = ('g', 'x'), ('g', 'y')
    ip.inexact = False
    out, bad = call(ip, st, eq, [Ref(cx, ()), Ref(cy, ())], {cx: x, cy: y}, 1)
    for f in bad:
        v.bad(('panic', f.fn, f.line, f.msg), '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))

    def wrong(s, key, text):
        vague = ip.inexact or any(e[0] == 'loop' for e in s.events())
        (unsure if vague else found).setdefault(key, text)
    for s, r in out:
        for s1, b in forked(s, lambda t: models.decide(t, r)):
            if na != nb:
                if b:
                    wrong(s1, ('kinds', na, nb), '%s: a %s can equal a %s' % (where(eq), na, nb))
                else:
                    v.ok()
            elif same:
                if not b:
                    wrong(s1, ('differ', na), '%s: two %s with the same operands can be different' % (where(eq), na))
                else:
                    v.ok()
                    v.sample('%s: %s equal exactly when the operands are' % (eq.path, na))
            elif b:
                if not equal(V, s1, x, y):
                    wrong(s1, ('equal', na), '%s: two different %s can be equal' % (where(eq), na))
                    continue
                v.ok()
                if hs:
                    hashes(V, v, hs, s1, x, y, na)
            else:
                v.ok()


def equal(V, st, x, y):
    """the values are certainly the same"""
    if x.__class__ is Lin:
        return st.facts.eq(x - y)
    if x.__class__ is Flt:
        return st.facts.eq(x.bits - y.bits)
    if x.__class__ in (bool, Cnd):
        return models.canon(V.ip, st, x) == models.canon(V.ip, st, y)
    if x.__class__ is Lst:
        a, b = models.canon(V.ip, st, x), models.canon(V.ip, st, y)
        if all(t[0] == 'e' for t in x.segs + y.segs):
            if len(x.segs) == len(y.segs) and all(equal(V, st, p[1], q[1]) for p, q in zip(x.segs, y.segs)):
                return True
        return a == b or seqeq(st, a, b) or empty(st, x) and empty(st, y)
    if x.__class__ is Agg and y.__class__ is Agg:
        return x.var == y.var and all(equal(V, st, p, q) for p, q in zip(x.f, y.f))
    if x.__class__ is Opq and y.__class__ is Opq:
        if x.sym == y.sym:
            return True
        if unit_enum(V, x.ty):
            return st.facts.eq(A(V.ip.discr_atom(x)) - A(V.ip.discr_atom(y)))
        t = V.T[x.ty] if x.ty == y.ty else None
        if t is None or t['k'] != 'adt' or not (t.get('local') or t['path'] == 'core::option::Option'):
            return False
        if t['kind'] == 'struct':
            return equal(V, st, V.ip.expand(x, None), V.ip.expand(y, None))
        if t['kind'] == 'enum':
            for i in range(len(t['variants'])):
                p, q = V.ip.expand(x, i), V.ip.expand(y, i)
                d = st.facts.norm(A(V.ip.discr_atom(x)))
                if d.const and d.c == i:
                    return st.facts.eq(A(V.ip.discr_atom(y)) - i) and equal(V, st, p, q)
            a, b = A(V.ip.discr_atom(x)), A(V.ip.discr_atom(y))
            # without any operands, the kind is all there is
            return st.facts.eq(a - b) and all(w['fields'] == [] or st.facts.nonzero(a - i) for i, w in enumerate(t['variants']))
        return False
    return False


def empty(st, x):
    n = st.facts.norm(x.length())
    return n.const and n.c == 0


def unit_enum(V, ty):
    t = V.T[ty]
    return t['k'] == 'adt' and t['kind'] == 'enum' and all(not x['fields'] for x in t['variants'])


def seqeq(st, a, b):
    return st.facts.strs.get(('unk', ('seqeq',) + tuple(sorted((a, b), key=repr)))) is True


def hashes(V, v, hs, st, x, y, name):
    ip = V.ip
    why = None
    for h in hs:
        try:
            ends = []
            cells = {('g', 'x'): x, ('g', 'y'): y, ('g', 'h'): ip.opq(('hasher',), V.refto(h.locals[2])[0])
                     if V.T[V.refto(h.locals[2])[0]]['k'] != 'param' else Opq(('hasher',), V.refto(h.locals[2])[0])}
            s = st.copy()
            s.cells[('hash',)] = ()
            out, bad = call(ip, s, h, [Ref(('g', 'x'), ()), Ref(('g', 'h'), ())], cells, 2)
            for s1, _ in out:
                hx = s1.cells.get(('hash',), ())
                s1.cells[('hash',)] = ()
                out2, bad2 = call(ip, s1, h, [Ref(('g', 'y'), ()), Ref(('g', 'h'), ())], {}, 3)
                for s2, _ in out2:
                    ends.append((s2, hx, s2.cells.get(('hash',), ())))
                bad = bad + bad2
            break
        except Undecided as e:
            why = e
    else:
        raise why
    for f in bad:
        v.bad(('panic', f.fn, f.line, f.msg), '%s:%s in %s: %s' % (f.file, f.line, f.fn, f.msg))
    for s, a, b in ends:
        if not a:
            v.ok()        # the same for everything
        if eqcanon(s, a, b):
            v.ok()
            v.sample('%s: equal %s feed the same to the hasher' % (h.path, name))
        else:
            v.bad(('hash', name), '%s: equal %s can have different hashes' % (where(h), name))


def eqcanon(st, a, b):
    if a.__class__ is Lin and b.__class__ is Lin:
        return st.facts.eq(a - b)
    if a == b:
        return True
    if a.__class__ is tuple and b.__class__ is tuple:
        if a and a[0] == 'lst' and b and b[0] == 'lst':
            if seqeq(st, a, b):
                return True
        return len(a) == len(b) and all(eqcanon(st, x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ nothing else changes a pool
CELLS = ('core::cell::', 'core::sync::', 'std::sync::', 'alloc::sync::')
MUTVIEWS = ('IterMut', 'ValuesMut', 'Entry', 'OccupiedEntry', 'VacantEntry', 'Drain', 'RefMut', 'PeekMut', 'ChunksMut')


def contains(V, ty, want, seen=None):
    """type ty owns or refers to something of a wanted kind"""
    seen = set() if seen is None else seen
    if ty in seen:
        return False
    seen.add(ty)
    if want(ty):
        return True
    t = V.T[ty]
    subs = []
    if t['k'] in ('ref', 'ptr', 'array', 'slice'):
        subs.append(t.get('ty', t.get('elem')))
    subs += [x for x in t.get('targs') or () if x.__class__ is int]
    subs += t.get('tys') or []
    if t['k'] == 'adt':
        for var in t.get('variants') or ():
            for f in var['fields']:
                if f.get('ty').__class__ is int:
                    subs.append(f['ty'])
    return any(contains(V, x, want, seen) for x in subs if x.__class__ is int)


def c24(V, v):
    # who can see the representation
    for var in V.pool_it['variants']:
        for f in var['fields']:
            if f['public']:
                v.bad(('field', f['name']), '%s:%s: field %s of the pool is public' % (V.pool_it['file'], V.pool_it['line'], f['name']))
            else:
                v.ok()
            if any(c in f['ty'] for c in CELLS):
                v.bad(('cell', f['name']), '%s:%s: field %s of the pool can be changed through a shared reference' % (
                    V.pool_it['file'], V.pool_it['line'], f['name']))
            else:
                v.ok()
    for it in V.se.items():
        if it['kind'] in ('Struct', 'Enum') and V.T[V.item_ty]['path'] == it['path']:
            for var in it['variants']:
                for f in var['fields']:
                    if any(c in f['ty'] for c in CELLS):
                        v.bad(('cell', var['name'], f['name']), '%s:%s: a constant can be changed through a shared reference' % (
                            it['file'], it['line']))
                    else:
                        v.ok()

    def inner(ty):
        return ty in (V.item_ty, V.pool_ty)
    n = 0
    for f in V.local:
        it = V.meta.get(f.id)
        if it is None or not V.public(f) or '{closure' in f.path:
            continue
        ins = [f.locals[i + 1] for i in range(f.argc)]
        if not any(contains(V, t, lambda x: x == V.pool_ty) or contains(V, t, lambda x: x == V.item_ty) for t in ins):
            continue
        # items a caller owns or holds exclusively are the caller's
        src = [t for t in ins if contains(V, t, lambda x: x == V.pool_ty) or
               contains(V, t, lambda x: V.T[x]['k'] == 'adt' and V.T[x]['path'].endswith('Rc'))]
        if not src:
            continue
        n += 1
        out = f.locals[0]

        def mutview(x):
            t = V.T[x]
            if t['k'] in ('ref', 'ptr') and t.get('mutable') and contains(V, t['ty'], inner) \
                    and not (t['ty'] == V.pool_ty):
                return True
            return t['k'] == 'adt' and t['path'].rsplit('::', 1)[-1] in MUTVIEWS and contains(V, x, inner) \
                and t['path'] != V.T[V.pool_ty]['path']
        if contains(V, out, mutview):
            v.bad(('view', f.path), '%s: hands out mutable access to the entries of a pool' % where(f))
        else:
            v.ok()
            v.sample('%s: no mutable access in the result' % f.path)
    if n < 5:
        v.unknown(('few',), 'hardly any function that reads a pool was found')
    # operations with exclusive access only add
    for f in V.muts:
        for m, st, pool in V.heads:
            guard(v, f, ('keeps', f.path), lambda: other(V, v, f, st, pool))
