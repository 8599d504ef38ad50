"""Replaying a specification on the states of the analysis.

A specification is a python function that reads from an abstract input (Run.u8, Run.u16, ...), takes
decisions on what it read and produces a value or an error.  It is run on every exit of the analysed
procedure, under the path condition of that exit, and has to come to the same outcome.  Repetitions
(Run.rep, Run.until) are matched with the loops that the path went through: the body of the
specification is verified against every back edge of that loop once (induction step), and the replay
goes on from the loop invariant.  Recursive parts (Run.nt) are matched with the summarised calls.
"""
from lin import *
from vals import *
from loops import KP, flatten, Gen
from interp import State
import models

INPUT = ('arg', 0)


class Branch(Exception):
    def __init__(self, n):
        self.n = n


class AnyName:
    def __contains__(self, x):
        return True


ANY = AnyName()


class Dead(Exception):
    pass


class Undecided(Exception):
    def __init__(self, msg, region=None):
        self.msg = msg
        self.region = tuple(region) if region is not None else None

    def __str__(self):
        return '%s: %s' % ('/'.join(self.region), self.msg) if self.region else self.msg


class SpecErr(Exception):
    """the specification rejects the input; alts: other errors that are right as well"""

    def __init__(self, name, fields=None, region=None, opq=None, alts=(), inner=None):
        self.name = name
        self.fields = fields or ()
        self.region = region
        self.opq = opq
        self.alts = alts
        self.inner = inner     # kind of the recursive part that begins here


# ------------------------------------------------------------------ values of the specification
class Num:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return 'Num(%s)' % (self.l,)


class Flags(Num):
    pass


class Bits(Num):
    """a float, by its bits"""


class Chr(Num):
    pass


class Rec:
    """struct or enum variant; name: of the variant or None; f: {field name: value}"""
    __slots__ = ('name', 'f', 'region')

    def __init__(self, name=None, f=None, region=None, **kw):
        self.region = region
        self.name = name
        self.f = f if f is not None else kw

    def __repr__(self):
        return '%s%s' % (self.name or '', self.f)


class Tup:
    __slots__ = ('f',)

    def __init__(self, *f):
        self.f = f


class Raw:
    """a value of the program itself"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Raw(%s)' % (self.v,)


class Bytes:
    __slots__ = ('pos', 'n')

    def __init__(self, pos, n):
        self.pos = pos
        self.n = n


class Seq:
    """values produced by a repetition: those of the rounds of a loop, then single ones"""
    __slots__ = ('proof', 'k', 'tail', 'region', 'part', 'v', 'vs')

    def __init__(self, proof, k, tail, region=None, part=None, v=None, vs=()):
        self.part = part       # partition of the loop the path comes through
        self.v = v             # carried value there
        self.vs = vs           # carried value before each of the single ones
        self.region = region
        self.proof = proof
        self.k = k
        self.tail = tail

    def __repr__(self):
        return 'Seq(%s,%s,%s)' % (self.proof, self.k, self.tail)


class JoinVal:
    """the value of one round, different in every member of a join"""
    __slots__ = ('jr', 'runs', 'i', 'sel')

    def __init__(self, jr, runs, i, sel=()):
        self.jr = jr
        self.runs = runs    # [(member index, Run, [values])]
        self.i = i
        self.sel = sel

    def at(self, vals):
        v = vals[self.i]
        for j in self.sel:
            v = v.f[j]
        return v


class NTVal:
    __slots__ = ('call', 'v')

    def __init__(self, call, v):
        self.call = call
        self.v = v


def carried(q, vals):
    """the value that the rounds hand on: a variable of the program or the rest up to a bound"""
    if q[0] == '~':
        return q[2] - vals[q[1]]
    return vals[q]


class Proof:
    """induction step of a repetition for one loop"""

    def __init__(self, rec, leaf):
        self.rec = rec
        self.leaf = leaf
        self.steps = []       # (Src, dest Part, Run, value)
        self.fails = []
        self.undecs = []
        self.lists = {}

    def rank(self):
        return len(self.fails), len(self.undecs)


def leafval(ip, st, p):
    v = st.cells.get(p[0])
    for e in p[1]:
        if v is None:
            return None
        if v.__class__ is Sl and e in ('off', 'len'):
            v = v.off if e == 'off' else v.len
        elif v.__class__ is Agg and e.__class__ is int:
            v = v.f[e]
        elif v.__class__ is Lst and e == '#n':
            v = v.length()
        else:
            return None
    return v if v.__class__ is Lin else None


class Run:
    """one path of the specification over one abstract state"""

    def __init__(self, sv, st, evs, pos, limit, script, region):
        self.sv = sv
        self.ip = sv.ip
        self.st = st
        self.evs = evs
        self.i = 0
        self.pos = pos
        self.limit = limit
        self.script = script
        self.sp = 0
        self.region = list(region)
        self.caps = []         # (event index, count, index of the matched loop event)
        self.room = self.f.norm(limit - pos) if limit is not None else None
        self.last = None
        self.trail = []        # (position, region) of every read
        self.mark = 0          # those since the last loop or recursive part of the path

    @property
    def f(self):
        return self.st.facts

    # ---- decisions
    def choose(self, alts):
        """alts: list of (facts, value)"""
        alts = [(g, v) for g, v in alts if not g.bad]
        if not alts:
            raise Dead()
        if len(alts) == 1:
            j = 0
        elif self.sp < len(self.script):
            j = self.script[self.sp]
            self.sp += 1
        else:
            raise Branch(len(alts))
        g, v = alts[j]
        self.st.facts = g
        return v

    def decide(self, c):
        t = tri(self.f, c)
        if t is not None:
            return t
        return self.choose([(g, True) for g in assume(self.f, c)] + [(g, False) for g in assume(self.f, c_not(c))])

    def do(self, fn):
        """runs analysis code that may ask for a decision"""
        while True:
            try:
                return fn()
            except ForkOn as e:
                self.choose([(g, None) for g in e.facts])

    def le(self, l):
        return self.decide(c_le(self.f.norm(l)))

    def eq(self, l):
        return self.decide(c_eq(self.f.norm(l)))

    def switch(self, v, cases):
        """cases: list of (values, x); the x whose values include v, or None"""
        v = self.f.norm(v)
        if v.const:
            for vs, x in cases:
                if v.c in vs:
                    return x
            return None
        if len(v.t) == 1 and ATOMS[v.t[0][0]].small and v.t[0][1] == 1 and v.c == 0:
            a = v.t[0][0]
            m = self.f.mask(a)
            alts = []
            rest = m
            for vs, x in cases:
                vm = 0
                for q in vs:
                    vm |= 1 << q
                if m & vm:
                    g = self.f.copy()
                    rest &= ~vm
                    if g.restrict(a, m & vm):
                        alts.append((g, x))
            if rest:
                g = self.f.copy()
                if g.restrict(a, rest):
                    alts.append((g, None))
            return self.choose(alts)
        for vs, x in cases:
            for q in vs:
                if self.eq(v - q):
                    return x
        return None

    def rec(self, name_, **f):
        return Rec(name_, f, tuple(self.region))

    def part(self, what, fn, *args):
        """fn in a region of its own"""
        self.region.append(what)
        self.last = tuple(self.region)
        d = len(self.region)
        r = fn(self, *args)
        del self.region[d - 1:]
        return r

    # ---- reading
    def err(self, name, *fields, **kw):
        raise SpecErr(name, fields, tuple(self.region), **kw)

    def need(self, n):
        self.trail.append((self.pos, tuple(self.region)))
        if not self.le(self.pos + n - self.limit):
            self.err('LimitExceeded')

    def byte(self):
        # the name of the byte does not depend on what this path knows about it
        f = self.f
        a = byte_atom(INPUT, self.pos)
        l = f.byte(INPUT, self.pos)
        b = A(a)
        if f.norm(b) != l:
            f.sub[a] = l
        self.pos = self.pos + 1
        return b

    def num(self, n):
        self.need(n)
        l = ZERO
        for _ in range(n):
            l = l.scale(256) + self.byte()
        return l

    def u8(self):
        return self.num(1)

    def u16(self):
        return self.num(2)

    def u32(self):
        return self.num(4)

    def u64(self):
        return self.num(8)

    def signed(self, n):
        return SNum(self.num(n), 8 * n)

    def skip(self, n):
        self.need(n)
        self.pos = self.pos + n

    def bytes(self, n):
        self.need(n)
        r = Bytes(self.pos, n)
        self.pos = self.pos + n
        return r

    def sub(self, n):
        """the next n bytes become the limit"""
        end = self.pos + n
        self.trail.append((self.pos, tuple(self.region)))
        if not self.le(end - self.limit):
            self.err('LimitExceeded')
        old = self.limit
        self.limit = end
        return old

    def close(self, old):
        if not self.eq(self.pos - self.limit):
            self.err('LimitExceeded')
        self.limit = old

    # ---- repetitions
    def rep(self, n, body, what, *dep):
        """body n times; dep: values that the body depends on"""
        return self.loop(('n', n, None) + dep, body, what)

    def until(self, end, body, what, *dep):
        """body until the position end is reached"""
        return self.loop(('u', end, None) + dep, body, what)

    def fold(self, v0, cond, body, what, *dep):
        """body(R, k, v) -> (value, v') while cond(v); dep: values that cond depends on"""
        return self.loop(('v', v0, cond) + dep, body, what)

    def done(self, kind, k, v):
        if kind[0] == 'n':
            return self.le(kind[1] - k)
        if kind[0] == 'u':
            return self.le(kind[1] - self.pos)
        return not self.decide(kind[2](v))

    def undone(self, kind, k, pos, v):
        """there is certainly another round to go"""
        if kind[0] == 'v':
            return tri(self.f, kind[2](v)) is True
        return self.f.le((k - kind[1] if kind[0] == 'n' else pos - kind[1]) + 1)

    def assume_undone(self, kind, k, v):
        if kind[0] == 'v':
            fs = assume(self.f, kind[2](v))
        else:
            fs = assume(self.f, c_le(self.f.norm((k - kind[1] if kind[0] == 'n' else self.pos - kind[1]) + 1)))
        self.choose([(g, None) for g in fs])

    def step(self, kind, body, k, v):
        if kind[0] == 'v':
            return body(self, k, v)
        return body(self, k), None

    def loop(self, kind, body, what):
        sv = self.sv
        self.region.append(what)
        depth = len(self.region)
        reg = tuple(self.region)
        self.last = reg
        if kind[0] == 'n':
            n = kind[1]
        elif kind[0] == 'u':
            n = kind[1] - self.pos
        else:
            n = None
        note = len(self.caps)
        self.caps.append([self.i, n, None])
        v = kind[1] if kind[0] == 'v' else None
        start = self.pos
        m = self.match_loop(kind)
        if m is None:
            # no loop of the program belongs here: round by round
            tail = []
            vs = []
            for it in range(5):
                if self.done(kind, K(it), v):
                    break
                if it == 4:
                    raise Undecided('no loop of the program matches this repetition', self.region)
                vs.append(v)
                x, v = self.step(kind, body, K(it), v)
                tail.append(x)
            del self.region[depth - 1:]
            r = Seq(None, ZERO, tail, reg, None, kind[1], vs)
            return (r, v) if kind[0] == 'v' else r
        j, rec, pidx, leaves = m
        self.caps[note][2] = j
        self.i = j + 1
        self.mark = len(self.trail)
        best = None
        live = self.undone(kind, ZERO, self.pos, v)
        full = frozenset(q.idx for q in rec.parts if not q.gone)
        if not live:
            full -= frozenset(q.idx for q in rec.parts if q.idx == 0 or any(S.src is None for S in q.incoming))
        for p in leaves:
            hyp = full
            while True:
                pr = sv.prove(rec, p, kind, body, self, hyp)
                if pr.__class__ is frozenset:
                    hyp = pr
                    continue
                if best is None or pr.rank() < best.rank():
                    best = pr
                if pr.rank() == (0, 0) or not hyp:
                    break
                hyp = frozenset()
            if best.rank() == (0, 0):
                break
        if best.fails and self.others(kind, j, start):
            raise Undecided('several loops look at the same bytes', self.region)
        sv.adopt(best)
        if best.fails:
            # what comes after a loop that does something else is not compared
            raise Dead()
        P = rec.parts[pidx]
        p, q = best.leaf
        self.pos = P.vals[p]
        if q is not None:
            v = carried(q, P.vals)
        k = P.vals[KP]
        if pidx in best.hyp:
            self.assume_undone(kind, k, v)
        if self.i < len(self.evs) and self.evs[self.i][0] == 'joined' and self.evs[self.i][1] is rec:
            jr = self.evs[self.i][2]
            self.i += 1
            if kind[0] == 'v':
                raise Undecided('joined loop with a carried value', self.region)
            runs = sv.prove_join(best, jr, pidx, kind, body, self)
            ns = set(len(vs) for _, _, vs in runs)
            if len(ns) > 1:
                raise Undecided('rounds of different number are joined', self.region)
            x = jr.part.vals.get(p)
            if x is None:
                x = leafval(self.ip, jr.state, p)
            if x is None:
                raise Undecided('position lost after the loop', self.region)
            self.pos = x
            tail = [JoinVal(jr, runs, i) for i in range(ns.pop() if ns else 0)]
            vs = ()
        else:
            try:
                tail, v, vs = self.finish(kind, body, k, v)
            except SpecErr:
                if self.others(kind, j, start):
                    raise Undecided('several loops look at the same bytes', self.region)
                raise
        del self.region[depth - 1:]
        r = Seq(best, k, tail, reg, P, carried(q, P.vals) if q is not None else None, vs)
        return (r, v) if kind[0] == 'v' else r

    def finish(self, kind, body, k, v):
        tail = []
        vs = []
        for it in range(4):
            if self.done(kind, k + it, v):
                return tail, v, vs
            if it == 3:
                break
            vs.append(v)
            x, v = self.step(kind, body, k + it, v)
            tail.append(x)
        raise Undecided('rounds after the last round', self.region)

    def others(self, kind, j, start):
        """another loop on the path is entered at this position: what one has found out about the bytes
        is not known in the other"""
        for e in self.evs[:j] + self.evs[j + 1:]:
            if e[0] == 'loop' and e[1] is not self.evs[j][1]:
                P = e[1].parts[e[2]]
                if any(p in P.vals and self.f.eq(v - start) for p, v in self.sv.entry_leaves(e[1])):
                    return True
        return False

    def match_loop(self, kind):
        """the next loop on the path that is entered at this position and reads on from there; the last one
        if several are (those before have only looked at what is read then)"""
        best = None
        again = sum(e[0] == 'loop' for e in self.evs[self.i:]) > 1
        for j in range(self.i, len(self.evs)):
            e = self.evs[j]
            if e[0] == 'nt':
                break
            if e[0] != 'loop':
                continue
            rec, pidx = e[1], e[2]
            ls = self.sv.entry_leaves(rec)
            P = rec.parts[pidx]
            out = [p for p, v in ls if p in P.vals and self.f.eq(v - self.pos)]
            if not out:
                continue
            if kind[0] == 'v':
                qs = [q for q, v in ls if q in P.vals and q not in out and self.f.eq(v - kind[1])]
                # or what is left up to a fixed bound
                qs += [('~', q, self.f.norm(v + kind[1])) for q, v in ls if q in P.vals][:12]
                out = [(p, q) for q in qs for p in out]
            else:
                out = [(p, None) for p in out]
            if out:
                best = j, rec, pidx, out
                if not again or any(self.f.eq(P.vals[o[0]] - self.pos) for o in out):
                    break
        return best

    # ---- recursive parts
    def nt(self, kind):
        sv = self.sv
        self.region.append(kind)
        call = None
        for j in range(self.i, len(self.evs)):
            if self.evs[j][0] == 'nt':
                call = self.evs[j][1]
                self.i = j + 1
                self.mark = len(self.trail)
                break
        if call is None or call.nt.kind != kind:
            raise SpecErr('(%s)' % kind, (), tuple(self.region), inner=kind)
        pl, ll = sv.nt_leaves(call.nt, call, self)
        sv.obl += 1
        if pl is None or not self.f.eq(call.leaves[pl] - self.pos):
            sv.fail(self.region, 'pos', call.where[0], call.where[1],
                    'the %s are read at another position than the format says' % kind)
        elif ll is None or not self.f.eq(leafsum(call.leaves, ll) - self.limit):
            sv.fail(self.region, 'limit', call.where[0], call.where[1],
                    'the %s are read with another limit than that of the enclosing part' % kind)
        if pl is not None and pl in call.post:
            self.pos = call.post[pl]
        else:
            raise Undecided('position after %s is unknown' % kind)
        if call.var == 1:
            raise SpecErr('(error of %s)' % kind, (), tuple(self.region), opq=('ne', call.site))
        self.region.pop()
        return NTVal(call, ('nr', call.site))

    def reject_or(self, name):
        """the format leaves open whether this is an error: as the program has it"""
        r = self.st.cells.get('ret')
        if r.__class__ is Agg and r.var == 1:
            self.err(name, alts=ANY)

    # ---- computed values
    def value(self, x):
        """the number a signed value stands for"""
        return self.do(lambda: self.ip.to_signed(self.st, x.l, x.bits))

    def padding(self, at):
        """bytes up to the next multiple of four after the byte at this offset"""
        f = self.f
        # the program has decided on the remainder already: of an equal number
        for a, m in f.dom.items():
            nm = ATOMS[a].key[1]
            if nm.__class__ is tuple and nm and nm[0] == 'mod' and nm[2] == 4 and m & (m - 1) == 0:
                for d in (at - nm[1], f.norm(at - nm[1])):
                    if all(w.__class__ is int and w % 4 == 0 for _, w in d.t):
                        return K(3 - (mask_min(m) + d.c) % 4)
        return self.f.norm(K(3) - self.do(lambda: self.ip.modpow(self.st, at, 2)))

    def pool_cell(self):
        """where the constant pool of this path is: a place of the type Pool"""
        T = self.sv.T
        for c in sorted(self.st.cells, key=repr):
            v = self.st.cells[c]
            todo = [(v, ())]
            while todo:
                x, pr = todo.pop()
                if x.__class__ is Agg and x.ty.__class__ is int and T[x.ty].get('path', '').endswith('::Pool'):
                    return Ref(c, pr)
        raise Undecided('no constant pool at hand', self.region)

    def utf8_at(self, idx):
        """(symbol of) the string constant at the index, or None"""
        fn = self.sv.pool_fn('get_utf8')
        r = self.callfn(fn, [self.pool_cell(), self.f.norm(idx)])
        if r.var != 0:
            return None
        return r.f[0]

    def is_text(self, text, s):
        l = self.sv.strip(text, self)
        c = self.do(lambda: models.seq_equal(self.ip, self.st, l, Lst(None, (('t', tuple(s.encode())),))))
        return self.decide(c)

    # ---- functions of the program
    def callfn(self, fn, args):
        """abstract call; returns the result value (the state is that of the chosen path)"""
        ip = self.ip
        saved = ip.begin()
        try:
            st = self.st
            from interp import Frame
            res = ip.run([self.sv.sub_state(st, fn, args)], 1)
        finally:
            ip.end(saved, False)
        alts = []
        for k, s in res:
            alts.append((s.facts, s))
        s = self.choose(alts)
        self.st.facts = s.facts
        cells = self.st.cells
        for c, v in s.cells.items():
            if c != 'ret' and c not in cells and c[0] != s.frames:
                cells[c] = v
        return s.cells['ret']


class SNum(Num):
    """two's complement of the given width; l is the unsigned reading"""
    __slots__ = ('bits',)

    def __init__(self, l, bits):
        self.l = l
        self.bits = bits


class Failure:
    def __init__(self, region, what, fn, line, msg):
        self.region = tuple(region)
        self.what = what
        self.fn = fn
        self.line = line
        self.msg = msg

    def key(self):
        return (self.region, self.what, self.fn.path if self.fn is not None else '', self.msg)

    def __repr__(self):
        return '[%s] %s: %s (%s:%s) %s' % ('/'.join(self.region), self.what, self.fn.path if self.fn else '?',
                                          self.fn.file if self.fn else '?', self.line, self.msg)


def leafsum(vals, ps):
    r = ZERO
    for p in ps:
        if p not in vals:
            return K(-1)
        r = r + vals[p]
    return r


def flatatoms(k):
    """atoms in a name"""
    if k.__class__ is Lin:
        for a, _ in k.t:
            yield a
    elif k.__class__ is tuple:
        for x in k:
            for a in flatatoms(x):
                yield a


WRAP = ('alloc::boxed::Box', 'alloc::rc::Rc')


class Verifier:
    def __init__(self, ps):
        self.ps = ps
        self.ip = ps.ip
        self.prog = ps.prog
        self.T = ps.prog.types
        self.ntof = {}
        self.fails = {}
        self.nfail = 0
        self.undecided = {}
        self.obl = 0          # obligations
        self.cmps = 0
        self.runs = 0
        self.capn = 0
        self.memo = {}
        self.leaves = {}      # nt -> (position leaf, limit leaves)
        self.proofs = []
        self.stack = []
        self.regions = {}     # region -> obligations
        self.kinds = {}       # kind of value -> comparisons
        self.focus = set()    # loops whose meaning is not known
        self.small = bool(ps.ip.small)

    def pool_fn(self, name):
        for f in self.prog.fns:
            if f is not None and f.local and f.path.endswith('Pool::' + name) and f.body:
                f.prep()
                return f
        raise Undecided('no function Pool::%s' % name)

    # ---- failures
    def fail(self, region, what, fn, line, msg):
        self.nfail += 1
        f = Failure(region, what, fn, line, msg)
        dst = self.stack[-1] if self.stack else self.fails
        dst.setdefault(f.key(), f)

    def adopt(self, proof):
        if self.small and proof.fails:
            raise Undecided('another loop than the one that is meant')
        for u in proof.undecs:
            self.undec(*u)
        dst = self.stack[-1] if self.stack else self.fails
        for f in proof.fails:
            dst.setdefault(f.key(), f)

    def undec(self, why, fn=None, region=None):
        self.undecided.setdefault(why, (region, fn))

    def count(self, region, n=1):
        self.obl += n
        region = tuple(region)
        self.regions[region] = self.regions.get(region, 0) + n

    # ---- exploration of the decisions of a specification
    def explore(self, mk, body, maxpaths=600):
        todo = [()]
        out = []
        bad = []              # paths without an answer
        n = 0
        while todo:
            script = todo.pop()
            n += 1
            if n > maxpaths or len(bad) > 8:
                bad.append(Undecided('too many paths'))
                break
            R = mk(script)
            self.runs += 1
            try:
                v = body(R)
                out.append(('ok', v, R))
            except SpecErr as e:
                out.append(('err', e, R))
            except Branch as b:
                for j in reversed(range(b.n)):
                    todo.append(script + (j,))
            except Dead:
                pass
            except (Undecided, Unsupported) as e:
                if getattr(e, 'region', None) is None:
                    e.region = tuple(R.region)
                bad.append(e)
        return out, bad

    def sub_state(self, st, fn, args):
        s = self.ip.new_state(fn, args, facts=st.facts.copy(), cells=None)
        for c, v in st.cells.items():
            if c not in s.cells:
                s.cells[c] = v
        s.taint = None
        return s

    # ---- loops
    def entry_leaves(self, rec):
        r = rec.memo.get('entry')
        if r is None:
            r = []
            P0 = rec.parts[0]
            for p in P0.forms:
                if p == KP or p[1][-1:] == ('#n',):
                    continue
                v = rec.gen.entryI.get(p)
                if v is None:
                    continue
                if rec.backs and all(P.forms.get(p, ('c',))[0] == 'c' for P in rec.parts if not P.gone):
                    continue
                r.append((p, v))
            rec.memo['entry'] = r
        return r

    def known_equal(self, vals, R0):
        """what the path of R0 knows about the values that a repetition depends on (true of the rounds
        on this path too)"""
        out = []
        for v in vals:
            if v.__class__ is SNum:
                v = v.l
            if v.__class__ is Lin:
                n = R0.f.norm(v)
                if n != v:
                    out.append(v - n)
        return tuple(out)

    def prove(self, rec, pq, kind, body, R0, hyp):
        """every back edge of the loop is one round of the repetition; hyp: partitions of the loop head
        at which another round is to go; if the rounds do not preserve that, a smaller set is the answer"""
        dep = (kind[1],) + kind[3:]
        eqs = self.known_equal(dep + (R0.limit,), R0)
        key = (pq, kind[0], dep, R0.limit, tuple(R0.region), hyp, eqs)
        memo = rec.memo.setdefault('proofs', {})
        if key in memo:
            return memo[key]
        p, q = pq
        pr = Proof(rec, pq)
        pr.hyp = hyp
        pr.kind = kind
        pr.region = tuple(R0.region)
        memo[key] = pr
        fails = {}
        less = set()
        self.stack.append(fails)
        limit = R0.limit
        region = tuple(R0.region)
        try:
            for st, src, P, S in rec.backs:
                if any(x is not None and (x not in src.vals or x not in S.L.ints) for x in (p, q[1] if q and q[0] == '~' else q)):
                    self.fail(region, 'loop', rec.fn, rec.line, 'position lost in the loop')
                    continue
                evs = st.events()[1:]
                pos0 = src.vals[p]
                v0 = carried(q, src.vals) if q is not None else None
                k = src.vals[KP]

                def mk(script):
                    s = st.copy()
                    return Run(self, s, evs, pos0, limit, script, region)

                def go(R):
                    for l in eqs:
                        R.choose([(g, None) for g in assume(R.f, c_eq(R.f.norm(l)))])
                    if src.idx in hyp:
                        R.assume_undone(kind, k, v0)
                    elif R.done(kind, k, v0):
                        R.extra = True
                        return None, None
                    return R.step(kind, body, k, v0)
                n0 = self.nfail
                res, bad = self.explore(mk, go)
                if st.taint:
                    pr.undecs.append(('%s: %s' % (rec.fn.path, st.taint), rec.fn, region))
                    continue
                for o, v, R in res:
                    self.count(region)
                    fn, line = self.recsite(rec)
                    if o == 'err':
                        if v.inner:
                            self.fail(v.region, 'nt', fn, line, 'the %s are not read here' % v.inner)
                        else:
                            self.fail(v.region, 'ok-for-' + v.name, fn, line,
                                      'the loop goes on where the format demands the error %s' % v.name)
                        continue
                    if getattr(R, 'extra', False):
                        self.fail(region, 'more-rounds', fn, line,
                                  'the loop runs more rounds than the format says')
                        continue
                    self.check_caps(R, 'ok', fn, line)
                    if not R.f.eq(S.L.ints[p] - R.pos):
                        self.fail(region, 'consumed', fn, line,
                                  'a round of the loop reads another number of bytes than the format says')
                        continue
                    if q is not None and not R.f.eq(carried(q, S.L.ints) - v[1]):
                        self.fail(region, 'carried', fn, line,
                                  'the value that counts the rounds does not advance as the format says')
                        continue
                    if P.idx in hyp and not R.undone(kind, k + 1, R.pos, v[1]):
                        pr.hyp = None
                        less.add(P.idx)
                        continue
                    pr.steps.append((S, src, R, v[0], v0, v[1]))
                if self.nfail == n0:
                    for e in bad:
                        pr.undecs.append(('%s: %s' % (rec.fn.path, e), rec.fn, getattr(e, 'region', None)))
        finally:
            self.stack.pop()
        if less:
            memo[key] = hyp - less
            return memo[key]
        pr.fails = list(fails.values())
        self.proofs.append(pr)
        return pr

    def recsite(self, rec):
        line = rec.line
        for f in reversed(rec.frames):
            if f.fn.local:
                return f.fn, line
            line = f.line
        return rec.fn, rec.line

    def prove_join(self, pr, jr, pidx, kind, body, R0):
        rec = pr.rec
        memo = rec.memo.setdefault('joins', {})
        key = (id(jr), id(pr))
        r = memo.get(key)
        if r is not None:
            runs, fails = r
        else:
            fails = {}
            runs = []
            self.stack.append(fails)
            P = rec.parts[pidx]
            region = tuple(R0.region)
            p = pr.leaf[0]
            fn, line = self.recsite(rec)
            try:
                for mi, m in enumerate(jr.members):
                    evs = m.events()
                    j = max(i for i, e in enumerate(evs) if e[0] == 'loop' and e[1] is rec)
                    evs = evs[j + 1:]

                    def mk(script):
                        s = m.copy()
                        return Run(self, s, evs, P.vals[p], R0.limit, script, region)
                    def go(R):
                        if pidx in pr.hyp:
                            R.assume_undone(kind, P.vals[KP], None)
                        return R.finish(kind, body, P.vals[KP], None)[0]
                    n0 = self.nfail
                    res, bad = self.explore(mk, go)
                    for o, v, R in res:
                        self.count(region)
                        if o == 'err':
                            self.fail(v.region, 'ok-for-' + v.name, fn, line,
                                      'the loop ends normally where the format demands the error %s' % v.name)
                            continue
                        self.check_caps(R, 'ok', fn, line)
                        x = leafval(self.ip, m, p)
                        if x is None or not R.f.eq(x - R.pos):
                            self.fail(region, 'consumed', fn, line,
                                      'the loop ends at another position than the format says')
                            continue
                        runs.append((mi, R, v))
                    if self.nfail == n0:
                        for e in bad:
                            self.undec('%s: %s' % (rec.fn.path, e), rec.fn, getattr(e, 'region', None))
            finally:
                self.stack.pop()
            memo[key] = (runs, fails)
        dst = self.stack[-1] if self.stack else self.fails
        for k, f in fails.items():
            dst.setdefault(k, f)
        return runs

    # ---- space reserved in advance
    def check_caps(self, R, outcome, fn, line):
        """space is reserved for a list with its own count, or for what the input can hold"""
        for j, e in enumerate(R.evs):
            if e[0] != 'cap':
                continue
            self.capn += 1
            f = R.f
            l = f.norm(e[1])
            hi = f.bounds(l)[1]
            if hi is not None and hi <= 1024:
                continue
            if R.room is not None and f.le(l - R.room):
                continue
            if any(q is not None and (m is None or m > j) and f.le(l - q) for i, q, m in R.caps):
                continue
            if outcome != 'ok' and hi is not None and hi <= 65535:
                continue
            self.fail(tuple(R.region), 'reserve', fn, e[3],
                      'space is reserved (in %s) for another number of elements than the list is declared to have' % e[2])

    # ---- recursive parts
    def nt_leaves(self, nt, call, R):
        r = self.leaves.get(nt)
        if r is not None:
            return r
        f = R.f
        pl = None
        for p in nt.mods:
            if p in call.leaves and f.eq(call.leaves[p] - R.pos):
                pl = p
                break
        P = nt.gen.order[0]
        c1 = [p for p in call.leaves if p != pl and p in P.forms]
        c1.sort(key=lambda p: (P.forms[p][0] == 'c', repr(p)))
        ll = None
        for p in c1:
            if f.eq(call.leaves[p] - R.limit):
                ll = (p,)
                break
        if ll is None:
            for p in c1:
                if p[1][-1:] == ('len',):
                    o = (p[0], p[1][:-1] + ('off',))
                    if o in call.leaves and f.eq(call.leaves[p] + call.leaves[o] - R.limit):
                        ll = (o, p)
                        break
        if pl is not None and ll is not None:
            self.leaves[nt] = (pl, ll)
        return pl, ll

    # ---- comparison of values; problems are (region, kind, text)
    def cmp(self, cv, sv, R, reg):
        self.cmps += 1
        ip = self.ip
        c = sv.__class__
        self.kinds[c.__name__] = self.kinds.get(c.__name__, 0) + 1
        if c is Rec and sv.region:
            reg = sv.region
            self.count(reg)
        if c is Seq and sv.region:
            reg = sv.region
        cv = self.strip(cv, R)
        if c is JoinVal:
            return self.cmp_join(cv, sv, R, reg)
        if cv.__class__ is Havoc:
            raise Undecided('unknown value: %s' % cv.why)
        if c is SNum:
            if cv.__class__ is not Lin:
                return self.shape(cv, 'a number', reg)
            want = R.do(lambda: ip.to_signed(R.st, R.f.norm(sv.l), sv.bits))
            if R.f.eq(cv - want):
                return []
            return [(reg, self.kind(R, cv, sv.l, 'snum'), 'a signed number of %d bits has another value than the format says' % sv.bits)]
        if c is Flags:
            x = cv
            while x.__class__ is Agg and len(x.f) == 1:
                x = self.strip(x.f[0], R)
            if x.__class__ is not Lin:
                return self.shape(cv, 'flags', reg)
            if R.f.eq(x - sv.l):
                return []
            return [(reg, 'flags', 'a flag word is not the one of the file')]
        if c is Bits:
            if cv.__class__ is not Flt:
                return self.shape(cv, 'a float', reg)
            if R.f.eq(cv.bits - sv.l):
                return []
            return [(reg, self.kind(R, cv.bits, sv.l, 'bits'), 'a float has other bits than the file')]
        if c is Num or c is Chr:
            if cv.__class__ is not Lin:
                return self.shape(cv, 'a number', reg)
            if R.f.eq(cv - sv.l):
                return []
            return [(reg, self.kind(R, cv, sv.l, 'endian') if c is Num else 'chr', 'a value is not the one the format says')]
        if c is Rec:
            return self.cmp_rec(cv, sv, R, reg)
        if c is Tup:
            if cv.__class__ is not Agg or len(cv.f) != len(sv.f):
                return self.shape(cv, 'a tuple', reg)
            out = []
            for x, y in zip(cv.f, sv.f):
                out += self.cmp(x, y, R, reg)
            return out
        if c is Bytes:
            if cv.__class__ is not Lst:
                return self.shape(cv, 'bytes', reg)
            segs = self.segs(cv, R)
            if not segs and R.f.eq(sv.n):
                return []
            if len(segs) == 1 and segs[0][0] == 'in' and segs[0][1] == INPUT:
                if R.f.eq(segs[0][2] - sv.pos) and R.f.eq(segs[0][3] - sv.n):
                    return []
                return [(reg, 'bytes', 'other bytes of the file are kept than the format says')]
            if all(s[0] == 'e' and s[1].__class__ is Lin for s in segs):
                if R.f.eq(sv.n - len(segs)) and all(R.f.eq(s[1] - R.f.byte(INPUT, R.f.norm(sv.pos + i))) for i, s in enumerate(segs)):
                    return []
                return [(reg, 'bytes', 'other bytes of the file are kept than the format says')]
            if not segs:
                return [(reg, 'bytes', 'no bytes of the file are kept')]
            if self.apart(R, cv, sv.n):
                return [(reg, 'bytes', 'not all of the bytes of the file are kept, or more')]
            r = self.copied(segs, sv, R)
            if r is not None:
                return [] if r else [(reg, 'bytes', 'not all of the bytes of the file are kept')]
            self.look_at(segs, R)
            raise Undecided('bytes of unknown origin', reg)
        if c is Seq:
            return self.cmp_list(cv, sv, R, reg)
        if c is NTVal:
            if cv.__class__ is Opq and cv.sym == sv.v:
                return []
            if cv.__class__ is Lst and len(cv.segs) == 1 and cv.segs[0][0] == 's' and cv.segs[0][1] == sv.v:
                return []
            return [(reg, 'nt', 'the value of a nested part is not the one that was parsed there')]
        if c is Raw:
            if models.canon(ip, R.st, cv) == models.canon(ip, R.st, sv.v):
                return []
            return [(reg, 'raw', 'a value differs')]
        return sv.cmp(self, cv, R, reg)

    def kind(self, R, cv, want, same):
        """of a wrong number: made of the right bytes (same) or of other ones"""
        def bytes_of(l):
            todo = list(R.f.norm(l).t)
            out = set()
            seen = set()
            while todo:
                a, _ = todo.pop()
                if a in seen:
                    continue
                seen.add(a)
                k = ATOMS[a].key
                if k[0] == 'b':
                    out.add(a)
                    continue
                for x in flatatoms(k):
                    todo.append((x, 1))
            return out
        a = bytes_of(cv)
        b = bytes_of(want)
        if same == 'endian':
            return same if a and a == b and len(a) > 1 else 'num'
        return 'num' if a and not a & b else same

    def shape(self, cv, what, reg):
        if cv.__class__ is Opq:
            raise Undecided('%s expected, the analysis has an unknown value' % what, reg)
        return [(reg, 'shape', '%s expected' % what)]

    def strip(self, cv, R):
        while True:
            if cv.__class__ is Ref:
                cv = self.ip.load(R.st, cv.cell, cv.proj)
            elif cv.__class__ is Sl:
                cv = models.contents(self.ip, R.st, cv)
            elif cv.__class__ is Agg and cv.ty.__class__ is int and self.T[cv.ty]['k'] == 'adt' \
                    and (self.T[cv.ty].get('is_box') or self.T[cv.ty]['path'] in WRAP):
                cv = cv.f[0]
            else:
                return cv

    def segs(self, l, R):
        out = []
        for s in l.segs:
            n = R.f.norm(seglen(s))
            if n.const and n.c == 0 or s[0] in ('s', 'in') and R.f.eq(n):
                continue
            if s[0] == 't':
                out.extend(('e', K(x)) for x in s[1])
            else:
                out.append(s)
        return out

    def copied(self, segs, sv, R):
        """the list is made of the bytes, one in each round of a loop"""
        if len(segs) != 1 or segs[0][0] != 's':
            return None
        same = R.f.eq(segs[0][2] - sv.n)
        if not same and not R.f.norm(segs[0][2]).const:
            return None
        for e in getattr(R, 'evs', ()):
            if e[0] == 'loop' and segs[0][1] in e[1].listsyms:
                rec = e[1]
                break
        else:
            return None
        gen = rec.gen
        leaf = rec.listsyms[segs[0][1]]
        if gen.lkind.get(leaf, ('c',))[0] != 'g' or gen.lkind[leaf][1]:
            return None
        for _, _, _, S in rec.backs:
            t = gen.tail(S, leaf)
            if t is None:
                return None
            tail = [s for s in t[1] if s[0] != 's' or not S.st.facts.eq(seglen(s))]
            if len(tail) != 1 or tail[0][0] != 'e' or tail[0][1].__class__ is not Lin:
                return None
            f = S.st.facts
            if not f.eq(tail[0][1] - f.byte(INPUT, f.norm(sv.pos + rec.k))):
                return None
        return same

    def cmp_rec(self, cv, sv, R, reg):
        if cv.__class__ is not Agg or cv.ty.__class__ is not int:
            return self.shape(cv, sv.name or 'a structure', reg)
        t = self.T[cv.ty]
        if t['k'] != 'adt':
            return self.shape(cv, sv.name or 'a structure', reg)
        var = t['variants'][cv.var or 0]
        if sv.name is not None and var['name'] != sv.name:
            return [(reg, 'variant', '%s::%s where the format says %s' % (t['path'], var['name'], sv.name))]
        out = []
        names = [x['name'] for x in var['fields']]
        for n, x in sv.f.items():
            n = n.lstrip('_') if n.startswith('_') and n[1:].isdigit() else n
            if n not in names:
                raise Undecided('no field %s in %s' % (n, var['name']), reg)
            x = self.cmp(cv.f[names.index(n)], x, R, reg)
            out += [(r, k, m + ' (field %s of %s)' % (n, var['name']) if ' (field' not in m else m) for r, k, m in x]
        return out

    def look_at(self, segs, R, pr=None):
        """the loops that this list comes from"""
        if pr is not None:
            self.focus.add((pr.rec.uid, pr.rec.bb))
        last = None
        for e in R.evs:
            if e[0] == 'loop':
                r = e[1]
                last = (r.uid, r.bb)
                if any(s[0] == 's' and s[1] in r.listsyms for s in segs):
                    self.focus.add(last)
        if pr is None and last is not None:
            self.focus.add(last)

    def apart(self, R, cv, n):
        d = R.f.norm(cv.length() - n)
        return R.f.le(d + 1) or R.f.le(K(1) - d)

    def cmp_list(self, cv, sv, R, reg):
        if cv.__class__ is not Lst:
            return self.shape(cv, 'a list', reg)
        segs = self.segs(cv, R)
        if self.apart(R, cv, (sv.k if sv.proof is not None else ZERO) + len(sv.tail)) and any(s[0] != 'e' for s in segs):
            return [(reg, 'list', 'a list has another number of elements than the format says')]
        i = 0
        out = []
        pr = sv.proof
        if pr is not None and not R.f.eq(sv.k):
            rec = pr.rec
            if i < len(segs) and segs[i][0] == 's' and segs[i][1] in rec.listsyms:
                s = segs[i]
                i += 1
                if not R.f.eq(s[2] - sv.k):
                    out.append((reg, 'list', 'a list does not get one element in each round'))
                else:
                    out += self.cmp_steps(pr, rec.listsyms[s[1]], reg)
            elif not segs:
                return [(reg, 'list', 'the elements of a list are lost')]
            elif all(s[0] == 'e' for s in segs):
                out.append((reg, 'list', 'the elements read in the rounds of a loop are lost'))
            else:
                self.look_at(segs, R, pr)
                raise Undecided('list of unknown origin', reg)
        for x in sv.tail:
            if i >= len(segs):
                out.append((reg, 'list', 'an element of a list is lost'))
                break
            s = segs[i]
            if s[0] != 'e':
                self.look_at(segs, R, pr)
                raise Undecided('list of unknown origin', reg)
            i += 1
            out += self.cmp(s[1], x, R, reg)
        else:
            if i < len(segs):
                if segs[i][0] == 'e':
                    out.append((reg, 'list', 'a list has more elements than the format says'))
                else:
                    self.look_at(segs, R, pr)
                    raise Undecided('list of unknown origin', reg)
        return out

    def cmp_steps(self, pr, leaf, reg):
        r = pr.lists.get(leaf)
        if r is not None:
            return r
        pr.lists[leaf] = []
        gen = pr.rec.gen
        out = {}
        if gen.lkind.get(leaf, ('c',))[0] != 'g':
            raise Undecided('the list is not built by adding at its end', reg)
        for S, src, R, v, _, _ in pr.steps:
            t = gen.tail(S, leaf)
            if t is None:
                raise Undecided('the list is not built by adding at its end', reg)
            segs = self.segs(Lst(None, tuple(t[1])), R)
            self.count(reg)
            if len(segs) != 1 or segs[0][0] != 'e':
                if all(s[0] == 'e' for s in segs):
                    out[(reg, 'list', 'a round adds %d elements to a list' % len(segs))] = 1
                    continue
                raise Undecided('list of unknown origin', reg)
            for x in self.cmp(segs[0][1], v, R, reg):
                out[x] = 1
        r = list(out)
        pr.lists[leaf] = r
        return r

    def cmp_join(self, cv, sv, R, reg):
        jr = sv.jr
        if cv.__class__ is Agg and cv.ty == ('pair',):
            out = []
            for j in (0, 1):
                out += self.cmp(cv.f[j], JoinVal(jr, sv.runs, sv.i, sv.sel + (j,)), R, reg)
            return out
        ks = jr.rec.memo.get(('jk', id(jr)))
        if ks is None:
            ks = dict((jr.gen.key(('e', p)), p) for p in jr.part.L.els)
            jr.rec.memo[('jk', id(jr))] = ks
        sy = None
        if cv.__class__ is Opq:
            sy = cv.sym
        elif cv.__class__ is Lin and len(cv.t) == 1 and cv.c == 0 and cv.t[0][1] == 1:
            sy = ATOMS[cv.t[0][0]].key[1]
        p = ks.get(sy) if sy is not None else None
        inc = jr.part.incoming
        if len(inc) != len(jr.members):
            raise Undecided('joined states are split')
        memo = jr.rec.memo.setdefault(('jc', id(jr), id(sv.runs)), {})
        mk = (p if p is not None else models.canon(self.ip, R.st, cv), sv.i, sv.sel, reg)
        r = memo.get(mk)
        if r is None:
            out = {}
            for mi, Rm, vals in sv.runs:
                x = cv if p is None else inc[mi].L.els[p][0]
                self.count(reg)
                for y in self.cmp(x, sv.at(vals), Rm, reg):
                    out[y] = 1
            r = memo[mk] = list(out)
        return r

    def cmp_err(self, cv, e, R):
        """the error of the program against that of the specification"""
        reg = e.region
        self.count(reg)
        cv = self.strip(cv, R)
        if e.opq is not None:
            if cv.__class__ is Opq and cv.sym == e.opq:
                return []
            return [(reg, 'err', 'an error of a nested part does not come out unchanged')]
        if cv.__class__ is Opq:
            if cv.sym[0] == 'ne':
                if e.alts is ANY:
                    return []
                return [(reg, 'err', 'an error of a nested part comes out where the format demands the error %s' % e.name)]
            raise Undecided('unknown error value', reg)
        if cv.__class__ is not Agg:
            raise Undecided('unknown error value', reg)
        t = self.T[cv.ty]
        var = t['variants'][cv.var or 0]
        if var['name'] != e.name:
            if var['name'] in e.alts:
                return []
            return [(reg, 'err', 'the error %s where the format demands %s' % (var['name'], e.name))]
        out = []
        names = [x['name'] for x in var['fields']]
        for n, x in dict(e.fields).items():
            for r, k, m in self.cmp(cv.f[names.index(n)], x, R, reg):
                out.append((r, 'errfield', 'the error %s carries another value than it should (field %s)' % (e.name, n)))
        return out

    # ---- a procedure against its specification
    def verify(self, kind, fn, results, spec):
        """results: list of (state, pos, limit, end position or None, unchanged limit, P or None)"""
        for st, pos, limit, end, lim2, P in results:
            evs = st.events()

            def mk(script):
                s = st.copy()
                return Run(self, s, evs, pos, limit, script, (kind,))
            if st.taint:
                self.undec('%s: %s' % (fn.path, st.taint), fn)
                continue
            if self.guarded(st, fn, P):
                self.count((kind,))
                continue
            n0 = self.nfail
            res, bad = self.explore(mk, spec)
            for o, v, R in res:
                self.count((kind,))
                try:
                    self.outcome(kind, fn, st, o, v, R, end, lim2, P)
                except (Undecided, Unsupported) as e:
                    bad.append(e)
            if self.nfail == n0:
                for e in bad:
                    self.undec('%s: %s' % (fn.path, e), fn, getattr(e, 'region', None))

    def stopped(self, R, end, name):
        """where the program gave up"""
        ts = R.trail
        if end is None:
            ts = ts[R.mark:] or ts
            return [ts[0][1]] if ts else [tuple(R.region)]
        before = [t for t in ts if R.f.le(t[0] + 1 - end)]
        after = [t for t in ts if R.f.le(end - t[0])]
        if name == 'LimitExceeded' and after:
            return [after[0][1]]
        if before:
            return [before[-1][1]]
        return [ts[0][1]] if ts else [tuple(R.region)]

    def guard(self, st, P, skip):
        """the path is one on which the depth of the recursion is limited"""
        if P is None:
            return False
        for p, v in P.vals.items():
            if p in skip or p == KP or p[1][-1:] in (('#n',), ('len',), ('off',)):
                continue
            lo = st.facts.bounds(st.facts.norm(v))[0]
            if lo is not None and lo >= 8 and v.t:
                return True
        return False

    def guarded(self, st, fn, P):
        """the error of the limit on the depth of the recursion, on a path on which the depth is high"""
        rv = st.cells['ret']
        if rv.var == 0:
            return False
        nt = self.ntof.get(fn.id)
        if nt is None or nt not in self.leaves:
            return False
        pl, ll = self.leaves[nt]
        e = rv.f[0]
        return e.__class__ is Agg and self.T[e.ty]['variants'][e.var or 0]['name'] == 'LimitExceeded' \
            and self.guard(st, P, (pl,) + ll)

    def outcome(self, kind, fn, st, o, v, R, end, lim2, P):
        rv = st.cells['ret']
        ok = rv.var == 0
        line = fn.line
        self.check_caps(R, 'ok' if ok else 'err', fn, line)
        inner = o == 'err' and v.inner
        if inner and ok:
            self.fail(v.region, 'nt', fn, line, 'the %s are not read here' % v.inner)
            return
        if o == 'ok' and ok:
            for r, k, m in self.cmp(rv.f[0], v, R, tuple(R.region)):
                self.fail(r, k, fn, line, m)
            if end is not None and not R.f.eq(end - R.pos):
                self.fail((kind,), 'end', fn, line, 'it ends at another position than the format says')
            if lim2 is not None and not R.f.eq(lim2):
                self.fail((kind,), 'limit', fn, line, 'the limit of the enclosing part is changed')
        elif o == 'ok' or inner:
            e = self.strip(rv.f[0], R)
            n = self.T[e.ty]['variants'][e.var or 0]['name'] if e.__class__ is Agg else 'of a nested part'
            for r in self.stopped(R, end, n):
                self.fail(r, 'limit-for-ok' if n == 'LimitExceeded' else 'err-for-ok', fn, line, 'the error %s where the format allows the input' % n)
        elif ok:
            self.fail(v.region, 'ok-for-' + v.name, fn, line,
                      'the input is accepted where the format demands the error %s' % v.name)
        else:
            for r, k, m in self.cmp_err(rv.f[0], v, R):
                if k == 'err':
                    e = self.strip(rv.f[0], R)
                    n = self.T[e.ty]['variants'][e.var or 0]['name'] if e.__class__ is Agg else None
                    if n is not None:
                        r = self.stopped(R, end, n)[0]
                self.fail(r, k, fn, line, m)

    def run(self, specs):
        """the root, then every cut procedure whose position and limit are known"""
        ps = self.ps
        ip = self.ip
        self.ntof = dict((n.fn.id, n) for n in ps.nts)
        n = A(sym(('len', INPUT), 0, (1 << 63) - 1))
        self.verify('class', ps.root, [(s, ZERO, n, None, None, None) for k, s in ps.sy.rootres], specs['class'])
        done = set()
        while True:
            todo = [x for x in ps.nts if x in self.leaves and x not in done]
            if not todo:
                break
            x = todo[0]
            done.add(x)
            pl, ll = self.leaves[x]
            res = []
            for P, h, s in x.results:
                end = s.facts.norm(ip.load(s, pl[0], pl[1]))
                lim = leafsum(P.vals, ll)
                lim2 = leafsum(dict((p, leafval(ip, s, p) or K(-1)) for p in ll), ll) - lim
                res.append((s, P.vals[pl], lim, end, lim2, P))
            self.verify(x.kind or x.name, x.fn, res, specs.get(x.kind))
        for x in ps.nts:
            if x not in done:
                self.undec('%s is not reached at a known position' % x.fn.path, x.fn)
