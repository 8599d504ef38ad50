"""C29: effects of everything that the public operations can reach."""
import nt

# what a pure function of its arguments does not call, with the reason
DENY = (
    ('std::fs', 'file access'), ('std::net', 'network access'), ('std::env', 'environment access'),
    ('std::process', 'process control'), ('std::time', 'clock access'), ('core::time', None),
    ('std::thread', 'threads or thread-local state'), ('std::io::stdio', 'console access'),
    ('std::io::_print', 'console access'), ('std::io::_eprint', 'console access'),
    ('std::os', 'system access'), ('std::sys', 'system access'), ('std::panic', 'panic hooks'),
    ('std::backtrace', 'stack access'), ('std::random', 'random values'), ('libc', 'system access'),
    ('std::sync', 'shared mutable state'), ('core::sync', 'shared mutable state'), ('alloc::sync', None),
    ('core::cell', 'hidden mutable state'), ('core::arch', 'machine access'), ('std::arch', 'machine access'),
    ('std::hash::random', 'random values'), ('std::collections::hash::map::RandomState', 'random values'),
    ('std::alloc', 'raw memory'), ('alloc::alloc', 'raw memory'),
)
HASHED = ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')
ORDERED = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_keys', 'into_values', 'extract_if',
           'into_iter')
CELLS = ('core::cell::', 'core::sync::atomic::', 'std::sync::', 'std::thread::local::', 'core::sync::')
# formatting for debugging is not one of the operations
SKIP = ('core::fmt::Debug',)


def pre(path, p):
    return path == p or path.startswith(p + '::') or path.startswith('<' + p + '::') or path.startswith('<' + p + ' ') \
        or path.startswith('<' + p + '<')


def check(se, v):
    prog = se.prog
    js = se.js
    roots = []
    for it in se.items():
        if it.get('fn') is None:
            continue
        f = prog.fns[it['fn']]
        if f is None or not f.local:
            continue
        if it['kind'] in ('Fn', 'AssocFn'):
            if skip(f):
                continue
            if it.get('reachable') or f.rec.get('trait_'):
                roots.append(f)
    seen = {}
    todo = [(f.id, None) for f in roots]
    calls = 0
    local = 0
    while todo:
        x, via = todo.pop()
        if x in seen:
            continue
        f = prog.fns[x]
        seen[x] = via
        if f is None or not f.local or skip(f):
            continue
        if not f.body:
            continue
        local += 1
        for b in f.blocks:
            if not b:
                continue
            line = None
            for s in b[0]:
                if s[0] == '=':
                    stmt(se, v, f, s)
            for y in nt.closure_fns(prog, b):
                g = prog.fns[y]
                if g is not None and not g.local:
                    calls += 1
                    edge(se, v, f, g.path, g.decl, None, f.line)
                todo.append((y, f))
            t = b[1]
            if t[0] == 'call':
                if t[1].get('fn_') is not None:
                    g = prog.fns[t[1]['fn_']]
                    calls += 1
                    if g is not None and not g.local:
                        edge(se, v, f, g.path, g.decl, t, t[6])
                    todo.append((t[1]['fn_'], f))
    # items
    n = 0
    for it in se.items():
        k = it['kind']
        if k.startswith('Static'):
            n += 1
            if it.get('mut') or not it.get('freeze'):
                v.bad(('static', it['path']), '%s:%s static %s: global mutable state' % (it['file'], it['line'], it['path']))
            else:
                v.ok()
        elif k in ('Struct', 'Enum', 'Union'):
            n += 1
            bad = False
            for var in it.get('variants') or ():
                for fl in var['fields']:
                    if any(c in fl['ty'] for c in CELLS):
                        bad = True
                        v.bad(('cell', it['path'], fl['name']), '%s:%s field %s of %s: hidden mutable state of type %s' % (
                            it['file'], it['line'], fl['name'], it['path'], fl['ty']))
            if not bad:
                v.ok()
        if it.get('unsafe') and not it.get('ext_macro'):
            v.bad(('unsafe', it['path']), '%s:%s %s is declared unsafe' % (it['file'], it['line'], it['path']))
        if k.startswith('ForeignMod') or k.startswith('ForeignItem'):
            v.bad(('foreign', it['path']), '%s:%s foreign functions' % (it['file'], it['line']))
    for u in js['unsafe_blocks']:
        v.bad(('unsafe', u.get('file'), u.get('fn') or u.get('path')), 'unsafe block at %s:%s' % (u.get('file'), u.get('line')))
    v.coverage.update(functions_reached=local, call_sites=calls, items=n, roots=len(roots))
    if local < 60:
        raise SystemExit('too few functions reached: %d' % local)


def skip(f):
    t = f.rec.get('trait_')
    return t in SKIP or ' as core::fmt::Debug>' in f.path


def stmt(se, v, f, s):
    r = s[2]
    if r[0] == 'cast':
        if r[1] in ('PointerExposeProvenance', 'PointerExposeAddress', 'Transmute'):
            if r[1] == 'Transmute':
                return
            v.bad(('addr', f.path), '%s:%s in %s: an address becomes a number' % (f.file, s[3], f.path))
    elif r[0] == 'tls':
        v.bad(('tls', f.path), '%s:%s in %s: thread-local state' % (f.file, s[3], f.path))


def edge(se, v, f, path, decl, t, line):
    d = se.prog.fns[decl].path if decl.__class__ is int else decl
    for q in (path, d or path):
        for p, why in DENY:
            if pre(q, p):
                if why is None:
                    break
                v.bad(('call', f.path, q), '%s:%s %s calls %s: %s' % (f.file, line, f.path, q, why))
                return
        for h in HASHED:
            if h in q:
                n = q.rsplit('::', 1)[-1]
                if n in ORDERED and not q.endswith('Entry::' + n):
                    v.bad(('order', f.path, q), '%s:%s %s calls %s: the order of a hashed collection is random' % (
                        f.file, line, f.path, q))
                    return
    v.ok()
    v.sample('%s:%s %s -> %s' % (f.file, line, f.path, path))
