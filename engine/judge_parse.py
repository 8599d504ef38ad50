"""C01, C02, C03: what the solved system says about panics, progress and recursion."""
from lin import *
from loops import KP

TRIPS = 16
DEPTH = 4096


def where(fn, line):
    return '%s:%s in %s' % (fn.file, line, fn.path)


def panics(ip, v):
    """no assertion, index, arithmetic or allocation of the program can fail"""
    failed = set()
    for f in ip.findings.values():
        if f.kind == 'unsupported':
            v.unknown(f.key(), '%s' % f)
        elif f.taint:
            v.unknown(f.key(), '%s' % f)
        else:
            v.bad(f.key(), '%s:%s in %s: %s (call path %s)' % (f.file, f.line, f.fn, f.msg, f.chain))
        failed.add(f.line)
    for (path, file, line, what), ok in sorted(ip.obl.items(), key=repr):
        if ok:
            v.ok()
            v.sample('%s:%s in %s: cannot fail: %s' % (file, line, path, what))
        else:
            v.obligations += 1
    for w, n in ip.unsupported.items():
        v.unknown(('unsupported', w), 'not analysed: %s (%d times)' % (w, n))


def progress(ip, recs, v, glob, trips=TRIPS):
    """every loop has a leaf that strictly grows (or shrinks) in each round and is bounded by data at hand"""
    for rec in recs:
        if not rec.backs:
            v.ok()
            continue
        tainted = [st.taint for st, _, _, _ in rec.backs if st.taint]
        measure = None
        cands = None
        for st, src, P, S in rec.backs:
            ps = set(p for p in S.L.ints if p in src.vals)
            cands = ps if cands is None else cands & ps
        ls = [p for p in cands if p != KP]
        best = []
        for p in sorted(ls, key=repr):
            up = all(S.st.facts.le(src.vals[p] + 1 - S.L.ints[p]) for st, src, P, S in rec.backs)
            down = not up and all(S.st.facts.le(S.L.ints[p] + 1 - src.vals[p]) for st, src, P, S in rec.backs)
            if not up and not down:
                continue
            best.append(p)
            if up and all(bounded(S.st.facts, S.L.ints[p], rec, S, src, glob, trips) for st, src, P, S in rec.backs):
                measure = (p, 'grows', 'is bounded by the input or by a list already read')
                break
            if down and all(S.st.facts.le(-S.L.ints[p]) for st, src, P, S in rec.backs) \
                    and entry_bounded(rec, p, glob, trips):
                measure = (p, 'shrinks', 'starts at the size of the input or of a list already read')
                break
        if measure:
            v.ok()
            v.sample('loop at %s: %s %s in each of %d paths through the body and %s' % (
                where(rec.fn, rec.line), show(rec, measure[0]), measure[1], len(rec.backs), measure[2]))
        elif tainted:
            v.unknown(('loop', rec.fn.path), 'loop at %s: %s' % (where(rec.fn, rec.line), tainted[0]))
        else:
            fn, line = site(rec)
            v.bad(('loop', fn.path), 'loop at %s: no value strictly advances towards a bound given by the input '
                  'in every round (candidates that advance: %s)' % (
                      where(fn, line), ', '.join(show(rec, p) for p in best) or 'none'))


def site(rec):
    """innermost local function"""
    line = rec.line
    for f in reversed(rec.frames):
        if f.fn.local:
            return f.fn, line
        line = f.line
    return rec.fn, rec.line


def show(rec, p):
    c = p[0]
    if c[0].__class__ is int and len(c) == 2:
        for f in rec.frames:
            if f.uid == c[0]:
                n = f.fn.names.get(c[1])
                if n:
                    return n + ''.join('.%s' % e for e in p[1])
    return repr(p)


def bounded(f, x, rec, S, src, glob, trips):
    """x is at most a constant, the length of the input, or the length of a list of the loop's entry"""
    b = f.bounds(f.norm(x))[1]
    if b is not None and b <= trips:
        return True
    for a in glob:
        if f.le(x - A(a)):
            return True
    # a list or window that the loop does not change
    for q in S.L.ints:
        if q[1][-1:] == ('len',) and q in src.vals and f.eq(S.L.ints[q] - src.vals[q]):
            if f.le(x - src.vals[q]):
                return True
        # or the end of the window
    for p, l in S.L.lsts.items():
        if rec.gen.lkind.get(p, ('c',))[0] == 'c':
            if f.le(x - f.norm(l.length())):
                return True
    return False


def entry_bounded(rec, p, glob, trips):
    e = rec.gen.entryI.get(p)
    if e is None:
        return False
    f = rec.entry.facts
    b = f.bounds(f.norm(e))[1]
    if b is not None and b <= trips:
        return True
    for a in glob:
        if f.le(e - A(a)):
            return True
    L = rec.gen.entryL
    for q, x in L.ints.items():
        if q[1][-1:] == ('len',) and q != p and f.le(e - x):
            return True
    for q, l in L.lsts.items():
        if f.le(e - f.norm(l.length())):
            return True
    return p[1][-1:] == ('len',)


def depth(ps, v):
    """recursive calls carry a counter with a constant bound"""
    sy = ps.sy
    scc = {}
    for i, c in enumerate(ps.sccs):
        for x in c:
            scc[x] = i
    for c in ps.sccs:
        if not any(n.fn.id in c for n in ps.nts):
            v.unknown(('recursion', ps.prog.fns[c[0]].path), 'recursion that is not cut')
    bad = {}
    ok = {}
    byuid = {n.uid: n for n in ps.nts}
    edges = {}
    for c in sy.calls:
        m = byuid.get(c.frames[0].uid)
        if m is None or scc[m.fn.id] != scc[c.nt.fn.id]:
            continue
        edges.setdefault((m, c.nt), []).append(c)
    comp = {}
    for (m, n), cs in edges.items():
        comp.setdefault(scc[m.fn.id], []).append((m, n, cs))
    for i, es in comp.items():
        ns = sorted(set([m for m, _, _ in es] + [n for _, n, _ in es]), key=lambda n: n.idx)
        # one counter per procedure
        best = None
        for choice in choices(ns):
            fails = []
            up = all(rises(c, m, n, choice, 1) for m, n, cs in es for c in cs)
            down = not up and all(rises(c, m, n, choice, -1) for m, n, cs in es for c in cs) \
                and all(starts(c, n, choice) for c in sy.calls for n in ns if c.nt is n and
                        byuid.get(c.frames[0].uid) not in ns)
            if up or down:
                best = choice
                break
        for m, n, cs in es:
            for c in cs:
                w = where(*c.where)
                if best is not None:
                    v.ok()
                    p = best[n]
                    v.sample('recursive call at %s: the counter %r moves by at least one towards a constant bound' % (w, p))
                else:
                    good = any(rises(c, m, n, {m: p, n: p}, 1) for p in c.leaves if m is n)
                    if good:
                        v.ok()
                    elif c.state.taint:
                        v.unknown(('recursion', c.where[0].path), 'recursive call at %s: %s' % (w, c.state.taint))
                    else:
                        v.bad(('recursion', c.where[0].path, n.fn.path),
                              'recursive call of %s at %s: nothing limits the depth by a constant' % (n.fn.path, w))


def choices(ns):
    import itertools
    ls = []
    for n in ns:
        ps = set()
        for P in n.gen.order:
            for p in P.forms:
                if p[1][-1:] != ('#n',) and p != KP:
                    ps.add(p)
        ls.append(sorted(ps, key=repr))
    for t in itertools.product(*ls):
        yield dict(zip(ns, t))


def rises(c, m, n, choice, sg):
    f = c.state.facts
    if choice[n] not in c.leaves:
        return False
    x = c.leaves[choice[n]]
    for P in m.gen.order:
        if choice[m] not in P.vals:
            return False
    # the entry value of the calling procedure
    ok = False
    for P in m.gen.order:
        h = P.vals[choice[m]]
        if f.le((h - x).scale(sg) + 1):
            ok = True
    if not ok:
        return False
    if sg > 0:
        b = f.bounds(f.norm(x))[1]
        return b is not None and b <= DEPTH
    return f.le(-x)


def starts(c, n, choice):
    if choice[n] not in c.leaves:
        return False
    f = c.state.facts
    b = f.bounds(f.norm(c.leaves[choice[n]]))[1]
    return b is not None and b <= DEPTH
