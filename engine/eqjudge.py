"""C32: equality of the types that describe descriptors (and of whatever else of the crate can be compared,
apart from constants) is that of their parts."""
import itertools
import interp
from lin import *
from vals import *
from drive import *
import pooljudge


class EqSystem:
    def __init__(self, se):
        self.se = se
        self.prog = se.prog
        self.T = se.prog.types
        self.ip = interp.Interp(se.prog)
        self.local = [f for f in self.prog.fns if f is not None and f.local and f.body]
        self.meta = {it['path']: it for it in se.js['items']}
        self.obl = 0
        self.eqs = []
        self.nes = []
        for f in self.local:
            if f.argc != 2 or f.decl not in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'):
                continue
            a, b = self.refto(f.locals[1])[0], self.refto(f.locals[2])[0]
            if a is None or a != b or self.T[a]['k'] != 'adt' or not self.T[a].get('local') or self.T[a]['path'].endswith('::Item'):
                continue
            if not (self.meta.get(self.T[a]['path']) or {}).get('reachable'):
                continue
            (self.eqs if f.decl.endswith('eq') else self.nes).append((f, a))

        self.ip.eq_types = {ty for _, ty in self.eqs}

    refto = pooljudge.PoolSystem.refto

    def shapes(self, x, ty, depth=0):
        """[(name, value)]: the ways to choose the variants in a value"""
        t = self.T[ty]
        if t['k'] != 'adt' or not (t.get('local') or t['path'] == 'core::option::Option') or depth > 4:
            return [('', x)]
        out = []
        for i, w in enumerate(t['variants']):
            try:
                y = x if x.__class__ is Agg else self.ip.expand(x, i if t['kind'] == 'enum' else None)
            except Exception:
                return [('', x)]
            fs = [self.shapes(z, w['fields'][j]['ty'], depth + 1) if 'ty' in w['fields'][j] and self.own(t) else
                  self.shapes(z, t['targs'][0], depth + 1) for j, z in enumerate(y.f)]
            if len(fs) > 4:
                return [('', x)]
            for c in itertools.product(*fs):
                n = w['name'] if t['kind'] == 'enum' else ''
                rest = [m for m, _ in c if m]
                out.append((n + ('(%s)' % ', '.join(rest) if rest and n else ', '.join(rest)), Agg(y.ty, y.var, tuple(z for _, z in c))))
        return out

    def own(self, t):
        return bool(t.get('local'))


def c32(V, v):
    if not V.eqs:
        raise Undecided('no equality of descriptors')
    for f, _ in V.nes:
        v.unknown(('ne', f.path), '%s is defined by hand' % f.path)
    for f, ty in V.eqs:
        f.prep()
        st = V.ip.new_state(f, [])
        p = V.T[ty]['path'].rsplit('::', 1)[-1]
        xs = V.shapes(V.ip.opq(('x',), ty), ty)
        ys = V.shapes(V.ip.opq(('y',), ty), ty)
        for (a, x), (b, y) in itertools.product(xs, ys):
            V.obl += 1
            na, nb = ('%s %s' % (p, a)).strip(), ('%s %s' % (p, b)).strip()
            pooljudge.guard(v, f, ('eq', na, nb), lambda: pooljudge.pair(V, v, f, [], st, x, y, na, nb))
    v.coverage.update(types=[V.T[t]['s'] for _, t in V.eqs], functions_analysed=[f.path for f, _ in V.eqs], pairs_of_shapes=V.obl)
