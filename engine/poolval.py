"""The constant pool that the parser returns, observed through the lookups of the library itself:
for every round of the loop that reads it, and for the pool that comes out in the end."""
from lin import *
from vals import *
import models
from replay import Undecided, Num


def find_pool(V, cells):
    for c in sorted(cells, key=repr):
        todo = [cells[c]]
        while todo:
            x = todo.pop()
            if x.__class__ is Agg:
                if x.ty.__class__ is int and V.T[x.ty].get('path', '').endswith('::Pool'):
                    return x
                todo.extend(x.f)
    return None


class View:
    """what V.cmp needs of a run, over another state"""

    def __init__(self, R, st):
        self.st = st
        self.region = R.region
        self.R = R

    @property
    def f(self):
        return self.st.facts

    def do(self, fn):
        while True:
            try:
                return fn()
            except ForkOn:
                raise Undecided('a number is split')


def apply(V, st, fn, pool, args):
    """all outcomes (state, result) of fn(&pool, args)"""
    ip = V.ip
    s = st.copy()
    cell = ('g', 'pool', len(s.cells))
    s.cells[cell] = pool
    saved = ip.begin()
    try:
        res = ip.run([V.sub_state(s, fn, [Ref(cell, ())] + list(args))], 1)
        bad = [f for f in ip.findings.values()]
    finally:
        ip.end(saved, False)
    if bad:
        raise Undecided('%s: %s' % (fn.path, bad[0]))
    out = []
    for k, s in res:
        if s.taint:
            raise Undecided('%s: %s' % (fn.path, s.taint))
        out.append((s, s.cells['ret']))
    return out


class Obs:
    def __init__(self, V, R, reg):
        self.V = V
        self.R = R
        self.reg = reg
        self.out = {}
        self.len = V.pool_fn('len')
        self.get = V.pool_fn('get')

    def bad(self, what, msg):
        self.out[(self.reg, what, msg)] = 1

    def length(self, st, pool, want, whose):
        for s, r in apply(self.V, st, self.len, pool, []):
            self.V.count(self.reg)
            if r.__class__ is not Lin:
                raise Undecided('length of the pool is unknown')
            if not s.facts.eq(r - want):
                self.bad('pool-len', 'the length of %s is not the next index' % whose)

    def refused(self, st, pool, i):
        for s, r in apply(self.V, st, self.get, pool, [s_norm(st, i)]):
            self.V.count(self.reg)
            if r.var == 0:
                self.bad('pool-slot', 'a lookup of the second index of a long or double finds something')

    def item(self, st, pool, i, want):
        for s, r in apply(self.V, st, self.get, pool, [s_norm(st, i)]):
            self.V.count(self.reg)
            if r.var != 0:
                self.bad('pool-item', 'a lookup of an index does not find the constant that was read for it')
                continue
            for x in self.V.cmp(r.f[0], want, View(self.R, s), self.reg):
                self.out[x] = 1

    def same(self, st, new, old, end):
        """lookups below end give the same in both"""
        V = self.V
        j = A(sym(('pool', 'j'), 0, 65535))
        s = st.copy()
        s.facts = st.facts.copy()
        s.facts.add_le(K(1) - j)
        s.facts.add_le(j - end + 1)
        if s.facts.bad:
            return
        for s1, r1 in apply(V, s, self.get, new, [j]):
            for s2, r2 in apply(V, s1, self.get, old, [j]):
                V.count(self.reg)
                c1 = canon(V, s2, r1)
                c2 = canon(V, s2, r2)
                if c1 is None or c2 is None:
                    raise Undecided('an earlier constant is unknown')
                if c1 != c2:
                    self.bad('pool-old', 'a later step changes what an earlier index refers to')


def s_norm(st, i):
    return st.facts.norm(i)


def canon(V, st, r):
    if r.var == 1:
        return 'err'
    x = r.f[0]
    while x.__class__ is Ref:
        x = V.ip.load(st, x.cell, x.proj)
    while x.__class__ is Agg and x.ty.__class__ is int and V.T[x.ty].get('path') in ('alloc::boxed::Box', 'alloc::rc::Rc'):
        x = x.f[0]
    return models.canon(V.ip, st, x)


def wide(item):
    return item.name in ('Long', 'Double')


def steps(V, pr, reg):
    """every round of the loop adds one constant under its index and keeps the others"""
    r = pr.lists.get('pool')
    if r is not None:
        return r
    out = {}
    for S, src, R, v, v0, v1 in pr.steps:
        new = find_pool(V, S.st.cells)
        old = find_pool(V, src.head.cells)
        if new is None or old is None:
            raise Undecided('no constant pool in the loop that reads it')
        st = R.st
        o = Obs(V, R, reg)
        o.length(st, old, v0, 'the pool')
        o.length(st, new, v1, 'the pool')
        o.item(st, new, v0, v)
        if wide(v):
            o.refused(st, new, v0 + 1)
        o.same(st, new, old, v0)
        out.update(o.out)
    r = pr.lists['pool'] = list(out)
    return r


def compare(V, pv, cv, R):
    seq = pv.seq
    reg = pv.region
    cv = V.strip(cv, R)
    out = {}
    o = Obs(V, R, reg)
    o.length(R.st, cv, pv.end, 'the pool that is returned')
    if seq.proof is not None:
        for x in steps(V, seq.proof, reg):
            out[x] = 1
        head = find_pool(V, seq.part.head.cells)
        if head is None:
            raise Undecided('no constant pool in the loop that reads it')
        o.length(R.st, head, seq.v, 'the pool')
        if models.canon(V.ip, R.st, head) != models.canon(V.ip, R.st, cv):
            o.same(R.st, cv, head, seq.v)
    for x, v in zip(seq.tail, seq.vs):
        o.item(R.st, cv, v, x)
        if wide(x):
            o.refused(R.st, cv, v + 1)
    out.update(o.out)
    return list(out)
