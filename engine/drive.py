"""Calls of single functions on abstract values, and synthetic programs that use a type in every
possible order (the fixpoint of their loop is the representation invariant of the type)."""
from lin import *
from vals import *
import interp, mir, models
from interp import Frame, UIDFN, uid_of


def model_any(c):
    """an arbitrary value, a new one for every call"""
    return c.ip.opq(('any', st_site(c)), c.ty)


def st_site(c):
    return c.ip.fresh_key(c.st)


models.MODELS['jbv::any'] = model_any


class Driver:
    """builds a function from blocks"""

    def __init__(self, prog, name):
        self.p = prog
        self.name = name
        self.locals = [self.prim('()', k='tuple', tys=[])]
        self.blocks = []
        self.names = []

    def prim(self, s, **kw):
        for i, t in enumerate(self.p.types):
            if t['s'] == s:
                return i
        self.p.types.append(dict(kw, s=s))
        return len(self.p.types) - 1

    def u8(self):
        return self.prim('u8', k='int', bits=8, signed=False)

    def isize(self):
        return self.prim('isize', k='int', bits=64, signed=True)

    def ref(self, t, mut=True):
        return self.prim(('&mut ' if mut else '&') + self.p.types[t]['s'], k='ref', ty=t, mutable=mut)

    def local(self, ty):
        self.locals.append(ty)
        return len(self.locals) - 1

    def block(self):
        self.blocks.append(None)
        return len(self.blocks) - 1

    def fill(self, b, stmts, term):
        self.blocks[b] = [stmts, term]

    def any(self, dst, target):
        return ['call', dict(fn_=None, decl='jbv::any', targs=[]), [], [dst, []], target, self.locals[dst], 0]

    def call(self, fn, args, dst, target):
        return ['call', dict(fn_=fn.id, decl=fn.decl, targs=fn.targs), [['m', [a, []]] for a in args], [dst, []], target,
                self.locals[dst], 0]

    def done(self):
        rec = dict(id=len(self.p.fns), path='jbv::' + self.name, decl='jbv::' + self.name, name=self.name, file='', line=0,
                   local=False, krate='jbv', kind='item', targs=[], ctor=False,
                   body=dict(locals=self.locals, argc=0, blocks=self.blocks, spread=None, names=self.names))
        f = mir.Fn(rec)
        self.p.fns.append(f)
        return f


def call(ip, st, fn, args, cells=None, tag=0):
    """all outcomes of fn(args) from the facts and cells of st: [(state, result)], findings"""
    s = st.copy()
    fn.prep()
    uid = uid_of(('call', fn.id, tag))
    UIDFN[uid] = fn
    s.frames = (Frame(uid, fn, None, None, None, None),)
    s.bb = 0
    s.pc = 0
    for c, v in (cells or {}).items():
        s.cells[c] = v
    for i, a in enumerate(args):
        s.cells[(uid, i + 1)] = a
    saved = ip.begin()
    try:
        res = ip.run([s], 1)
        bad = list(ip.findings.values())
    finally:
        ip.end(saved, False)
    out = []
    for k, s in res:
        if s.taint:
            raise Undecided('%s: %s' % (fn.path, s.taint))
        out.append((s, s.cells.pop('ret')))
    for f in bad:
        if f.kind == 'unsupported' or f.taint:
            raise Undecided('%s: %s' % (fn.path, f.msg))
    return out, bad


def forked(st, fn):
    """runs fn(state) in every way an open question can be answered"""
    todo = [st]
    out = []
    while todo:
        s = todo.pop()
        try:
            out.append((s, fn(s)))
        except ForkOn as e:
            for f in e.facts:
                todo.append(s.copy(f))
    return out


def variants(ip, st, v):
    """[(state, Agg)] for an enum value"""
    out = []
    for s, k in forked(st, lambda s: ip.variant_of(s, v)):
        out.append((s, v if v.__class__ is Agg else ip.expand(v, k)))
    return out


def deref(ip, st, x):
    while True:
        if x.__class__ is Ref:
            x = ip.load(st, x.cell, x.proj)
        elif x.__class__ is Agg and x.ty.__class__ is int and ip.is_box(x.ty):
            x = x.f[0]
        elif x.__class__ is Opq and ip.is_box(x.ty):
            x = ip.opq_box(x)
        else:
            return x


def consistent(f):
    """keys that are equal are in the same maps"""
    has = {}
    eq = []
    for k, v in f.strs.items():
        if k.__class__ is tuple and len(k) == 2 and k[0] == 'unk':
            c = k[1]
            if c[0] == 'has':
                has[(c[1], c[2])] = v
            elif c[0] == 'keq' and v:
                eq.append(c[1:])
    ms = set(m for m, _ in has)
    for a, b in eq:
        for m in ms:
            x, y = has.get((m, a)), has.get((m, b))
            if x is not None and y is not None and x != y:
                return False
    return True


def find_agg(V_T, cells, ty):
    for c in sorted(cells, key=repr):
        todo = [cells[c]]
        while todo:
            x = todo.pop()
            if x.__class__ is Agg:
                if x.ty == ty:
                    return x
                todo.extend(x.f)
    return None


def tail_loop(fn):
    """self-recursion in tail position is a loop"""
    n = 0
    todo = []

    def silent(b, seen=()):
        """nothing happens from the start of block b to the return"""
        if b is None or b in seen:
            return False
        x = fn.blocks[b]
        if x is None or any(s[0] not in ('live', 'dead') for s in x[0]):
            return False
        t = x[1]
        if t[0] == 'return':
            return True
        return t[0] == 'goto' and silent(t[1], seen + (b,))
    for i, b in enumerate(fn.blocks):
        if not b or b[1][0] != 'call':
            continue
        t = b[1]
        if t[1].get('fn_') == fn.id and t[3] == [0, []] and silent(t[4]):
            todo.append(i)
    if not todo:
        return 0
    blocks = list(fn.blocks)
    # the entry block stays without predecessors
    first = len(blocks)
    blocks.append(blocks[0])
    blocks[0] = [[], ['goto', first]]
    for b in blocks[1:]:
        if b and b[1][0] == 'goto' and b[1][1] == 0:
            b[1] = ['goto', first]
    fn.locals = list(fn.locals)
    for i in todo:
        j = first if i == 0 else i
        s, t = blocks[j]
        tmp = []
        for k, a in enumerate(t[2]):
            fn.locals.append(fn.locals[k + 1])
            tmp.append(len(fn.locals) - 1)
        new = [['=', [tmp[k], []], ['use', a], t[6]] for k, a in enumerate(t[2])]
        new += [['=', [k + 1, []], ['use', ['m', [tmp[k], []]]], t[6]] for k in range(len(t[2]))]
        blocks[j] = [list(s) + new, ['goto', first]]
    fn.blocks = blocks
    fn.body = dict(fn.body, blocks=blocks, locals=fn.locals)
    fn.nlocals = len(fn.locals)
    fn._prep = False
    return len(todo)
