"""Bodies for std functions that drive an iterator.  Their own MIR is a maze of specialisations over raw
buffers; what they are documented to do is a loop over `next`, which is what is built here."""
import mir

FROM_ITER = 'core::iter::traits::collect::FromIterator::from_iter'
EXTEND = 'core::iter::traits::collect::Extend::extend'
FOLD = 'core::iter::traits::iterator::Iterator::fold'
FOR_EACH = 'core::iter::traits::iterator::Iterator::for_each'

ZIP = '<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::next'

POSITION = 'core::iter::traits::iterator::Iterator::position'
ITER = 'core::iter::traits::iterator::Iterator::'
IS_ASCII = 'core::slice::ascii::<impl [u8]>::is_ascii'
QUERIES = {ITER + n: n for n in ('any', 'all', 'find', 'find_map', 'count')}

# functions whose own MIR is not wanted (the driver looks up `next` of their iterators instead)
STOP = [
    '<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter',
    '<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend',
    "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend",
    '<alloc::string::String as core::iter::traits::collect::FromIterator<*',
    '<alloc::string::String as core::iter::traits::collect::Extend<*',
    FOLD, FOR_EACH, ZIP, IS_ASCII,
    "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::position",
] + ["<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::" + n
     for n in ('any', 'all', 'find', 'find_map')]

for _s, _a in (('std::collections::hash::set::HashSet', 'T, S'), ('alloc::collections::btree::set::BTreeSet', 'T')):
    STOP.append('<%s<%s> as core::iter::traits::collect::FromIterator<T>>::from_iter' % (_s, _a))

VECS = {
    STOP[-1]: ('new', 'alloc::collections::btree::set::BTreeSet::<T>::new', 'alloc::collections::btree::set::BTreeSet::<T, A>::insert'),
    STOP[-2]: ('new', 'std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::set::HashSet::<T, S>::insert'),
    STOP[0]: ('new', 'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T, A>::push'),
    STOP[1]: ('ext', None, 'alloc::vec::Vec::<T, A>::push'),
    STOP[2]: ('extref', None, 'alloc::vec::Vec::<T, A>::push'),
    '<alloc::string::String as core::iter::traits::collect::FromIterator<char>>::from_iter':
        ('new', 'alloc::string::String::new', 'alloc::string::String::push'),
    '<alloc::string::String as core::iter::traits::collect::Extend<char>>::extend':
        ('ext', None, 'alloc::string::String::push'),
}


class Synth:
    def __init__(self, prog):
        self.p = prog
        self.done = {}
        self.iters = {j['ty']: j for j in prog.iter_next}
        self.tys = {}

    def ref(self, t):
        k = ('ref', t)
        if k not in self.tys:
            self.tys[k] = len(self.p.types)
            self.p.types.append(dict(k='ref', ty=t, mutable=True, s='&mut ' + self.p.types[t]['s']))
        return self.tys[k]

    def prim(self, s, **kw):
        if s not in self.tys:
            for i, t in enumerate(self.p.types):
                if t['s'] == s:
                    self.tys[s] = i
                    break
            else:
                self.tys[s] = len(self.p.types)
                self.p.types.append(dict(kw, s=s))
        return self.tys[s]

    def get(self, fn, decl, targs, ret):
        """the synthetic body of a call of fn, or None"""
        k = (fn.id, ret)
        if k not in self.done:
            self.done[k] = self.make(fn, decl, targs, ret)
        return self.done[k]

    def make(self, fn, decl, targs, ret):
        v = VECS.get(fn.path)
        if v is not None:
            it = None
            # the iterator is the last argument of the function
            for t in reversed(fn.targs):
                if t.__class__ is int and t in self.iters:
                    it = t
                    break
            if it is None:
                return None
            return self.collect(fn, ret, it, v)
        if fn.path == ZIP:
            a, b = [t for t in fn.targs if t.__class__ is int][:2]
            if a not in self.iters or b not in self.iters:
                return None
            return self.zip(fn, ret, a, b)
        if fn.path == IS_ASCII:
            return self.is_ascii(fn)
        if decl in QUERIES:
            it = targs[0] if targs and targs[0].__class__ is int else None
            if it not in self.iters:
                return None
            return self.query(fn, ret, it, targs[-1], QUERIES[decl])
        if decl == POSITION:
            it = targs[0] if targs and targs[0].__class__ is int else None
            if it not in self.iters:
                return None
            return self.position(fn, ret, it, targs[-1])
        if decl in (FOLD, FOR_EACH):
            it = targs[0] if targs and targs[0].__class__ is int else None
            if it not in self.iters:
                return None
            return self.fold(fn, ret, it, decl == FOLD, targs[-1])
        return None

    def position(self, fn, ret, it, fty):
        j = self.iters[it]
        us = self.prim('usize', k='int', bits=64, signed=False)
        isize = self.prim('isize', k='int', bits=64, signed=True)
        bool_ = self.prim('bool', k='bool')
        # 1 &mut iterator 2 function 3 position 4 option 5 discriminant 6 element 7 found
        loc = [ret, self.ref(it), fty, us, j['opt_item'], isize, self.elem(j), bool_]

        def num(n):
            return ['k', dict(ty=us, v=dict(i=n))]
        blocks = [
            [[['=', [3, []], ['use', num(0)], 0]], ['goto', 1]],
            [[], ['call', self.nextf(j), [['c', [1, []]]], [4, []], 2, j['opt_item'], 0]],
            [[['=', [5, []], ['discr', [4, []], j['opt_item']], 0]],
             ['switch', ['m', [5, []]], isize, [[0, 3]], 4, 0]],
            [[['=', [0, []], ['agg', dict(k='adt', ty=ret, variant=0), []], 0]], ['return', 0]],
            [[['=', [6, []], ['use', ['m', [4, self.some(j)]]], 0]],
             ['call', dict(invoke=2), [['m', [6, []]]], [7, []], 5, bool_, 0]],
            [[], ['switch', ['m', [7, []]], bool_, [[0, 6]], 7, 0]],
            [[['=', [3, []], ['bin', 'Add', ['c', [3, []]], num(1), us, us], 0]], ['goto', 1]],
            [[['=', [0, []], ['agg', dict(k='adt', ty=ret, variant=1), [['c', [3, []]]]], 0]], ['return', 0]],
        ]
        return self.fnrec(fn, 'position', loc, 2, blocks)

    def is_ascii(self, fn):
        us = self.prim('usize', k='int', bits=64, signed=False)
        u8 = self.prim('u8', k='int', bits=8, signed=False)
        bool_ = self.prim('bool', k='bool')
        sl = self.prim('[u8]', k='slice', ty=u8)
        # 1 &slice 2 position 3 length 4 at the end 5 byte 6 ascii
        loc = [bool_, self.ref(sl), us, us, bool_, u8, bool_]

        def num(n, t=us):
            return ['k', dict(ty=t, v=dict(i=n))]
        blocks = [
            [[['=', [2, []], ['use', num(0)], 0], ['=', [3, []], ['un', 'PtrMetadata', ['c', [1, []]], us], 0]], ['goto', 1]],
            [[['=', [4, []], ['bin', 'Lt', ['c', [2, []]], ['c', [3, []]], us, bool_], 0]],
             ['switch', ['m', [4, []]], bool_, [[0, 4]], 2, 0]],
            [[['=', [5, []], ['use', ['c', [1, ['*', ['i', 2]]]]], 0],
              ['=', [6, []], ['bin', 'Lt', ['c', [5, []]], num(128, u8), u8, bool_], 0]],
             ['switch', ['m', [6, []]], bool_, [[0, 5]], 3, 0]],
            [[['=', [2, []], ['bin', 'Add', ['c', [2, []]], num(1), us, us], 0]], ['goto', 1]],
            [[['=', [0, []], ['use', num(1, bool_)], 0]], ['return', 0]],
            [[['=', [0, []], ['use', num(0, bool_)], 0]], ['return', 0]],
        ]
        return self.fnrec(fn, 'is_ascii', loc, 1, blocks)

    def zip(self, fn, ret, a, b):
        ja, jb = self.iters[a], self.iters[b]
        isize = self.prim('isize', k='int', bits=64, signed=True)
        pair = self.p.types[ret]['targs'][0]
        # 1 &mut zip 2 &mut a 3 option 4 discriminant 5 element 6 &mut b 7 option 8 discriminant 9 element 10 pair
        loc = [ret, isize, self.ref(a), ja['opt_item'], isize, self.elem(ja), self.ref(b), jb['opt_item'], isize,
               self.elem(jb), pair]

        def nx(i, j, t, r, o, to):
            return [[['=', [r, []], ['ref', [1, ['*', ['f', i, t]]], True], 0]],
                    ['call', self.nextf(j), [['m', [r, []]]], [o, []], to, j['opt_item'], 0]]

        def sw(o, d, j, none, some):
            return [[['=', [d, []], ['discr', [o, []], j['opt_item']], 0]],
                    ['switch', ['m', [d, []]], isize, [[0, none]], some, 0]]
        blocks = [
            nx(0, ja, a, 2, 3, 1),
            sw(3, 4, ja, 2, 3),
            [[['=', [0, []], ['agg', dict(k='adt', ty=ret, variant=0), []], 0]], ['return', 0]],
            [[['=', [5, []], ['use', ['m', [3, self.some(ja)]]], 0]], ['goto', 4]],
            nx(1, jb, b, 6, 7, 5),
            sw(7, 8, jb, 2, 6),
            [[['=', [9, []], ['use', ['m', [7, self.some(jb)]]], 0],
              ['=', [10, []], ['agg', dict(k='tuple', ty=pair), [['m', [5, []]], ['m', [9, []]]]], 0],
              ['=', [0, []], ['agg', dict(k='adt', ty=ret, variant=1), [['m', [10, []]]]], 0]], ['return', 0]],
        ]
        return self.fnrec(fn, 'zip', loc, 1, blocks)

    def query(self, fn, ret, it, fty, what):
        j = self.iters[it]
        us = self.prim('usize', k='int', bits=64, signed=False)
        isize = self.prim('isize', k='int', bits=64, signed=True)
        bool_ = self.prim('bool', k='bool')
        unit = self.prim('()', k='tuple', tys=[])
        el = self.elem(j)
        val = ret if what == 'find_map' else bool_
        # 1 &mut iterator (count: the iterator) 2 function 3 &mut iterator 4 option 5 discriminant 6 element
        # 7 answer 8 &element 9 discriminant 10 number
        loc = [ret, self.ref(it), fty, self.ref(it), j['opt_item'], isize, el, val, self.ref(el), isize, us]

        def k(t, **v):
            return ['k', dict(ty=t, v=v)]
        get = ['=', [6, []], ['use', ['m', [4, self.some(j)]]], 0]
        end = {'any': ['use', k(bool_, i=0)], 'all': ['use', k(bool_, i=1)],
               'find': ['agg', dict(k='adt', ty=ret, variant=0), []], 'find_map': ['agg', dict(k='adt', ty=ret, variant=0), []]}
        if what == 'find':
            ask = [[get, ['=', [8, []], ['ref', [6, []], False], 0]],
                   ['call', dict(invoke=2), [['m', [8, []]]], [7, []], 5, val, 0]]
        else:
            ask = [[get], ['call', dict(invoke=2), [['m', [6, []]]], [7, []], 5, val, 0]]
        yes = {'any': ['use', k(bool_, i=1)], 'all': ['use', k(bool_, i=0)],
               'find': ['agg', dict(k='adt', ty=ret, variant=1), [['m', [6, []]]]],
               'find_map': ['use', ['m', [7, []]]]}
        if what == 'find_map':
            test = [[['=', [9, []], ['discr', [7, []], ret], 0]], ['switch', ['m', [9, []]], isize, [[0, 1]], 6, 0]]
        elif what == 'all':
            test = [[], ['switch', ['m', [7, []]], bool_, [[0, 6]], 1, 0]]
        else:
            test = [[], ['switch', ['m', [7, []]], bool_, [[0, 1]], 6, 0]]
        blocks = [
            [[['=', [3, []], ['use', ['c', [1, []]]], 0]], ['goto', 1]],
            [[], ['call', self.nextf(j), [['c', [3, []]]], [4, []], 2, j['opt_item'], 0]],
            [[['=', [5, []], ['discr', [4, []], j['opt_item']], 0]],
             ['switch', ['m', [5, []]], isize, [[0, 3]], 4, 0]],
            [[['=', [0, []], end.get(what, end['find']), 0]], ['return', 0]],
            ask, test,
            [[['=', [0, []], yes.get(what, yes['find']), 0]], ['return', 0]],
        ]
        argc = 2
        if what == 'count':
            argc = 1
            loc[1], loc[2] = it, isize
            blocks[0] = [[['=', [3, []], ['ref', [1, []], True], 0], ['=', [10, []], ['use', k(us, i=0)], 0]], ['goto', 1]]
            blocks[3] = [[['=', [0, []], ['use', ['c', [10, []]]], 0]], ['return', 0]]
            blocks[4] = [[['=', [10, []], ['bin', 'Add', ['c', [10, []]], k(us, i=1), us, us], 0]], ['goto', 1]]
            blocks[5:] = []
        return self.fnrec(fn, what, loc, argc, blocks)

    def fnrec(self, fn, what, locals_, argc, blocks):
        rec = dict(id=len(self.p.fns), path=fn.path, decl=fn.decl, name=fn.name, file=fn.file, line=fn.line,
                   local=False, krate=fn.krate, kind='item', targs=fn.targs, ctor=False,
                   body=dict(locals=locals_, argc=argc, blocks=blocks, spread=None, names=[]))
        f = mir.Fn(rec)
        self.p.fns.append(f)
        return f

    def nextf(self, j):
        return dict(fn_=j['next'], decl='core::iter::traits::iterator::Iterator::next', targs=[j['iter']])

    def elem(self, j):
        return self.p.types[j['opt_item']]['targs'][0]

    def collect(self, fn, ret, it, how):
        kind, new, push = how
        j = self.iters[it]
        unit = self.prim('()', k='tuple', tys=[])
        isize = self.prim('isize', k='int', bits=64, signed=True)
        el = self.elem(j)
        item = el
        if kind == 'extref':
            item = self.p.types[el]['ty']
        # 0 result 1,2 arguments; 3 iterator 4 &mut iterator 5 option 6 discriminant 7 element 8 &mut vec 9 unit
        if kind == 'new':
            arg = 1
            vec = ret
            loc = [ret, it, unit]
            mk = [[], ['call', dict(fn_=None, decl=new, targs=[]), [], [0, []], 1, ret, 0]]
            vref = ['=', [8, []], ['ref', [0, []], True], 0]
        else:
            arg = 2
            vec = None
            loc = [ret, None, it]
            mk = [[], ['goto', 1]]
            vref = ['=', [8, []], ['use', ['c', [1, []]]], 0]
        rv = self.ref(ret) if kind == 'new' else isize
        loc += [j['iter'], self.ref(j['iter']), j['opt_item'], isize, item, rv, unit]
        if loc[1] is None:
            loc[1] = isize
        e = ['use', ['m', [5, self.some(j)]]]
        if kind == 'extref':
            e = ['use', ['c', [5, self.some(j) + ['*']]]]
        blocks = [
            mk,
            [[], ['call', dict(fn_=j['into'], decl='core::iter::traits::collect::IntoIterator::into_iter', targs=[it]),
                  [['m', [arg, []]]], [3, []], 2, j['iter'], 0]],
            [[['=', [4, []], ['ref', [3, []], True], 0]],
             ['call', self.nextf(j), [['m', [4, []]]], [5, []], 3, j['opt_item'], 0]],
            [[['=', [6, []], ['discr', [5, []], j['opt_item']], 0]],
             ['switch', ['m', [6, []]], isize, [[0, 5]], 4, 0]],
            [[['=', [7, []], e, 0], vref],
             ['call', dict(fn_=None, decl=push, targs=[]), [['m', [8, []]], ['m', [7, []]]], [9, []], 2, unit, 0]],
            [[] if kind == 'new' else [['=', [0, []], ['agg', dict(k='tuple', ty=unit), []], 0]], ['return', 0]],
        ]
        return self.fnrec(fn, 'collect', loc, 1 if kind == 'new' else 2, blocks)

    def some(self, j):
        return [['d', 1], ['f', 0, self.elem(j)]]

    def fold(self, fn, ret, it, acc, fty):
        j = self.iters[it]
        unit = self.prim('()', k='tuple', tys=[])
        isize = self.prim('isize', k='int', bits=64, signed=True)
        el = self.elem(j)
        # 1 iterator, 2 accumulator, 3 function (fold) | 1 iterator, 2 function (for_each)
        if acc:
            loc = [ret, it, ret, fty]
            f = 3
        else:
            loc = [ret, it, fty, unit]
            f = 2
        # 4 &mut iterator 5 option 6 discriminant 7 element 8 unit
        loc += [self.ref(j['iter']), j['opt_item'], isize, el, unit]
        blocks = [
            [[], ['goto', 1]],
            [[['=', [4, []], ['ref', [1, []], True], 0]],
             ['call', self.nextf(j), [['m', [4, []]]], [5, []], 2, j['opt_item'], 0]],
            [[['=', [6, []], ['discr', [5, []], j['opt_item']], 0]],
             ['switch', ['m', [6, []]], isize, [[0, 4]], 3, 0]],
            [[['=', [7, []], ['use', ['m', [5, self.some(j)]]], 0],
              ],
             ['call', dict(invoke=f), ([['m', [2, []]]] if acc else []) + [['m', [7, []]]],
              [2 if acc else 8, []], 1, ret if acc else unit, 0]],
            [[['=', [0, []], ['use', ['m', [2, []]]] if acc else ['agg', dict(k='tuple', ty=unit), []], 0]], ['return', 0]],
        ]
        return self.fnrec(fn, 'fold', loc, 3 if acc else 2, blocks)
