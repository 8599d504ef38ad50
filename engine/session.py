"""The crate under analysis: loading, choice of roots and of the procedures that cut recursion,
and the solved systems the checks look at."""
import sys, time
import mir
from lin import *
from vals import *
import interp, nt


class Fail(Exception):
    """the analysis cannot give an answer"""


class Session:
    def __init__(self, js=None):
        t = time.time()
        self.js = js if js is not None else mir.extract([])
        self.prog = mir.Program(self.js)
        self.t_extract = time.time() - t
        self._parse = None
        self.by_item = {}
        for it in self.js['items']:
            self.by_item.setdefault(it['path'], it)

    # ---- items
    def items(self, kind=None, exported=None):
        for it in self.js['items']:
            if it.get('in_test'):
                continue
            if kind is not None and it['kind'] != kind:
                continue
            if exported is not None and bool(it.get('reachable')) != exported:
                continue
            yield it

    def cached(self, key, make):
        c = self.__dict__.setdefault('_cache', {})
        if key not in c:
            try:
                c[key] = make()
            except Exception as e:
                c[key] = e
        if isinstance(c[key], Exception):
            raise c[key]
        return c[key]

    def parse_fn(self):
        fs = []
        for it in self.items('Fn', True):
            if it.get('fn') is None:
                continue
            if len(it['inputs']) == 1 and it['inputs'][0].replace("'_ ", '').replace("'a ", '').endswith('[u8]') \
                    and 'Class' in it['output'] and 'Pool' in it['output']:
                fs.append(self.prog.fns[it['fn']])
        if len(fs) != 1:
            raise Fail('cannot identify the function that parses a class file: %s' % [f.path for f in fs])
        return fs[0]

    # ---- parsing
    def parse_system(self):
        if self._parse is None:
            try:
                self._parse = ParseSystem(self)
            except Exception as e:
                self._parse = e
        if isinstance(self._parse, Exception):
            raise self._parse
        return self._parse


def ret_type(prog, fn):
    """(path of the result type, path of the element type) of a Result-returning function"""
    t = prog.types[fn.locals[0]]
    if t['k'] == 'adt' and t['path'] == 'core::result::Result':
        t = prog.types[t['targs'][0]]
    if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec':
        e = prog.types[t['targs'][0]]
        return ('vec', e.get('path'))
    return ('', t.get('path'))


def nt_kind(prog, fn):
    w, p = ret_type(prog, fn)
    if p is None:
        return None
    n = p.rsplit('::', 1)[-1]
    if w == 'vec' and n == 'Attribute':
        return 'attributes'
    if w == '' and n == 'ElementValue':
        return 'element_value'
    return None


def choose_cuts(prog):
    """functions whose removal leaves no recursion"""
    sccs, succ = nt.recursive_sccs(prog)
    cuts = []
    callers = {}
    for v, ws in succ.items():
        for w in ws:
            callers.setdefault(w, set()).add(v)

    def acyclic(nodes):
        nodes = set(nodes)
        state = {}

        def go(v):
            state[v] = 1
            for w in succ[v]:
                if w in nodes:
                    s = state.get(w)
                    if s == 1 or (s is None and not go(w)):
                        return False
            state[v] = 2
            return True
        return all(state.get(v) or go(v) for v in nodes)
    for c in sccs:
        rest = set(c)
        while not acyclic(rest):
            def score(v):
                f = prog.fns[v]
                return (0 if acyclic(rest - {v}) else 1,
                        0 if nt_kind(prog, f) else 1,
                        0 if any(w not in c for w in callers.get(v, ())) else 1,
                        f.path)
            v = min(rest, key=score)
            cuts.append(v)
            rest.discard(v)
    return [prog.fns[v] for v in cuts], sccs


def reachable(prog, fn):
    seen = set()
    todo = [fn.id]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        f = prog.fns[v]
        if f is None or not f.body:
            continue
        for b in f.blocks:
            if not b:
                continue
            if b[1][0] == 'call' and b[1][1].get('fn_') is not None:
                todo.append(b[1][1]['fn_'])
            todo.extend(nt.closure_fns(prog, b))
    return seen


class ParseSystem:
    def __init__(self, se, small=(), hints=None):
        self.se = se
        prog = se.prog
        self.prog = prog
        self.ip = interp.Interp(prog)
        self.ip.small = small
        if hints:
            self.ip.hints = dict(hints)
        self.root = se.parse_fn()
        self.root.prep()
        self.glob = {sym(('len', ('arg', 0)), 0, (1 << 63) - 1)}
        reach = reachable(prog, self.root)
        cuts, sccs = choose_cuts(prog)
        self.sccs = [c for c in sccs if any(v in reach for v in c)]
        self.cuts = [f for f in cuts if f.id in reach]
        self.reach = [prog.fns[v] for v in reach if prog.fns[v] is not None]
        self.nts = []
        for i, f in enumerate(self.cuts):
            f.prep()
            n = nt.NT(i, f, f.path, self.ip, self.glob)
            n.kind = nt_kind(prog, f)
            self.nts.append(n)
        t = time.time()
        self.sy = nt.System(self.ip, self.root, self.nts, self.glob, self.mkroot)
        self.sy.solve()
        self.t_solve = time.time() - t

    def mkroot(self):
        fn = self.root
        args = [self.ip.opq(('arg', i), fn.locals[i + 1]) for i in range(fn.argc)]
        return self.ip.new_state(fn, args)
