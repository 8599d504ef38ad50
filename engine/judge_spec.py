"""C04 to C18: which property an obligation of the replayed specification belongs to."""
import replay, session, spec
from vals import Undecided

CODE = ('attributes', 'attribute', 'Code')
INSN = CODE + ('code',)
ANNOTATION = ('AnnotationDefault', 'RuntimeVisibleAnnotations', 'RuntimeInvisibleAnnotations',
              'RuntimeVisibleParameterAnnotations', 'RuntimeInvisibleParameterAnnotations',
              'RuntimeVisibleTypeAnnotations', 'RuntimeInvisibleTypeAnnotations')
BOUNDED = ('attributes', 'element_value')
POOL = ('class', 'pool')


def place(region):
    """the property that describes what is read in this region"""
    r = region
    if not r:
        return 'C10'
    if 'utf8' in r or 'SourceDebugExtension' in r:
        return 'C09'
    if r[0] == 'class':
        if r[:2] == POOL:
            return 'C08' if len(r) > 2 else 'C07'
        return 'C10'
    if r[0] == 'element_value':
        return 'C13'
    if r[:3] == CODE:
        return 'C15' if r[3:5] == ('code', 'instruction') else 'C16'
    if len(r) > 2:
        a = r[2]
        if a in ANNOTATION:
            return 'C13'
        if a == 'StackMapTable':
            return 'C14'
        if a in spec.ATTRIBUTES:
            return 'C12'
    return 'C11'


def props(region, what):
    """the properties that a failure breaks"""
    r = tuple(region)
    p = place(r)
    if what == 'reserve':
        return {'C04'}
    if what == 'flags':
        return {'C17', p}
    if what in ('snum', 'bits', 'endian'):
        return {'C18', p}
    out = {p}
    if what.startswith('pool-'):
        out = {'C07'}
        if what == 'pool-item':
            out.add('C08')
    if what == 'limit' or what == 'pos' or what == 'end':
        out.add('C05')
    if what == 'ok-for-LimitExceeded' and r[:1] and r[0] in BOUNDED:
        out.add('C05')
    if what == 'limit-for-ok' and r[:2] == POOL:
        out.add('C07')
    if what == 'limit-for-ok' and r[:1] and r[0] in BOUNDED and r[-1] in ('attribute', 'Code', 'code'):
        out.add('C05')
    if what == 'consumed' and (r in (('attributes', 'attribute'), INSN)):
        out.add('C05')
    if what == 'bytes':
        out.add('C05')
    if what.startswith('ok-for-') or what == 'err' or what == 'errfield':
        out.add('C06')
    if what == 'list':
        # an element that is not there any more
        out.add('C06')
    if what == 'variant' and len(r) == 3 and r[:2] == ('attributes', 'attribute'):
        out.add('C11')
    if what == 'consumed' and r == INSN:
        out.add('C15')
    if p == 'C15' and what in ('consumed', 'more-rounds'):
        out.add('C16')
    if p == 'C09' and r[:2] == POOL and r[:-1] and 'item' in r and what == 'variant':
        out.add('C08')
    return out


FLOOR = {
    'C05': [('attributes', 'attribute'), INSN],
    'C06': [POOL, ('attributes', 'attribute'), ('element_value',)],
    'C07': [POOL],
    'C08': [POOL + ('item',)],
    'C09': [POOL + ('item', 'utf8', 'utf8')],
    'C10': [('class',), ('class', 'interfaces'), ('class', 'fields'), ('class', 'methods')],
    'C11': [('attributes', 'attribute'), ('attributes', 'attribute', 'Unknown')],
    'C12': [('attributes', 'attribute', a) for a in spec.ATTRIBUTES
            if a not in ANNOTATION + ('Code', 'StackMapTable', 'SourceDebugExtension')],
    'C13': [('attributes', 'attribute', a) for a in ANNOTATION] + [('element_value',)],
    'C14': [('attributes', 'attribute', 'StackMapTable', 'rows')],
    'C15': [INSN + ('instruction',)] + [INSN + ('instruction', '%02X' % o) for o in spec.SPECIAL],
    'C16': [INSN, CODE + ('exceptions',)],
}


def verify(ps):
    """the replay, once for a session"""
    V = getattr(ps, 'replayed', None)
    if V is None:
        V = replay.Verifier(ps)
        V.run(spec.SPECS)
        if V.fails and ps.sy.again():
            V = replay.Verifier(ps)
            V.run(spec.SPECS)
        ps.replayed = V
        short(ps, V)
    return V


def short(ps, V):
    """what was not decided about loops, once more for their first rounds alone"""
    focus = frozenset(ps.ip.focus | V.focus)
    if not focus or not (V.undecided or ps.ip.unsupported):
        return
    try:
        p2 = session.ParseSystem(ps.se, focus, ps.ip.hints)
        W = replay.Verifier(p2)
        W.run(spec.SPECS)
    except Undecided:
        return
    ps.small = W
    for k, f in W.fails.items():
        V.fails.setdefault(k, f)


def judge(prop, ps, v):
    V = verify(ps)
    for f in V.fails.values():
        if prop in props(f.region, f.what):
            fn = f.fn
            v.bad((prop, '/'.join(f.region), f.what, fn.path if fn is not None else ''),
                  '%s:%s in %s: %s: %s' % (fn.file if fn else '?', f.line, fn.path if fn else '?',
                                           '/'.join(f.region), f.msg))
    for why, (reg, fn) in V.undecided.items():
        if reg is None or prop in ('C05', 'C06', 'C17', 'C18', 'C04') or prop == place(reg):
            v.unknown(('undecided', why), why)
    seen = V.regions
    n = 0
    for reg, k in seen.items():
        if prop in ('C05', 'C06', 'C17', 'C18') or place(reg) == prop:
            n += k
    if prop == 'C04':
        n = V.capn
    if prop == 'C17':
        n = V.kinds.get('Flags', 0)
    if prop == 'C18':
        n = V.kinds.get('SNum', 0) + V.kinds.get('Bits', 0) + V.kinds.get('Num', 0)
    v.ok(n)
    for reg in FLOOR.get(prop, ()):
        if not any(x[:len(reg)] == reg for x in seen):
            v.unknown(('floor', reg), 'nothing was compared for %s' % '/'.join(reg))
    if n == 0:
        v.unknown(('floor',), 'nothing was compared')
    v.coverage.update(runs=V.runs, comparisons=V.cmps, inductions=len(V.proofs), reservations=V.capn,
                      regions=len([x for x in seen if place(x) == prop]) or len(seen))
    for reg in sorted(seen, key=lambda x: (-len(x), x)):
        if place(reg) == prop or prop in ('C05', 'C06', 'C17', 'C18', 'C04'):
            v.sample('%s: %d outcomes and rounds agree with the specification' % ('/'.join(reg), seen[reg]))
    return V


# ------------------------------------------------------------------ C17: the constants
NAMED = dict(PUBLIC=0x1, PRIVATE=0x2, PROTECTED=0x4, STATIC=0x8, FINAL=0x10, SUPER=0x20, SYNCHRONIZED=0x20,
             OPEN=0x20, TRANSITIVE=0x20, VOLATILE=0x40, BRIDGE=0x40, STATIC_PHASE=0x40, TRANSIENT=0x80,
             VARARGS=0x80, NATIVE=0x100, INTERFACE=0x200, ABSTRACT=0x400, STRICT=0x800, SYNTHETIC=0x1000,
             ANNOTATION=0x2000, ENUM=0x4000, MODULE=0x8000, MANDATED=0x8000)


def flags(ps, v):
    """the value of every constant of the flag type"""
    T = ps.prog.types
    seen = {}
    for it in ps.prog.items:
        if it['kind'] not in ('AssocConst', 'Const'):
            continue
        path = it['path']
        name = path.rsplit('::', 1)[-1]
        if 'AccessFlags' not in path or not name.isupper():
            continue
        x = bits(it.get('value'))
        if x is None:
            if name in NAMED:
                seen.setdefault(name, []).append(None)
            continue
        seen.setdefault(name, []).append(x)
        if name in NAMED:
            if x != NAMED[name]:
                v.bad(('C17', name), '%s is %#x where the specification has %#x' % (path, x, NAMED[name]))
            else:
                v.ok()
                v.sample('%s = %#x' % (path, x))
    for name in NAMED:
        if name in seen and all(x is None for x in seen[name]):
            v.unknown(('C17', name), 'the value of %s is not known' % name)
    if len([n for n in seen if n in NAMED]) < 10:
        v.unknown(('C17', 'floor'), 'the flag constants were not found')


def bits(x):
    """the number in a constant that consists of one number"""
    if x.__class__ is int:
        return x
    if x.__class__ is dict:
        if 'i' in x:
            return int(x['i'])
        for k in ('f', 'fields', 'agg'):
            if k in x:
                return bits(x[k])
        if len(x) == 1:
            return bits(list(x.values())[0])
        return None
    if x.__class__ is list and len(x) == 1:
        return bits(x[0])
    return None
