"""The class file format (JVM specification, SE 9, chapter 4) as the library promises to read it.

Written from the specification and the documentation of the tree types, independently of the parser:
every function reads from an abstract input (see replay.Run) and builds the value of the tree that the
format assigns to it.
"""
from lin import *
from vals import *
from replay import *


# ------------------------------------------------------------------ small helpers
def flags(R):
    return Flags(R.u16())


def u16(R, k=None):
    return Num(R.u16())


def u8(R):
    return Num(R.u8())


def u16s(R, what):
    """u16 count, then that many u16"""
    n = R.u16()
    return R.rep(n, u16, what)


def table(row, wide=True):
    def go(R, what):
        n = R.u16() if wide else R.u8()
        return R.rep(n, row, what)
    return go


# ------------------------------------------------------------------ modified UTF-8
def cont(R, bad):
    b = R.u8()
    if not R.decide(c_and([c_le(K(0x80) - b), c_le(b - 0xBF)])):
        bad()
    return b


def mutf8_char(R, k, rem):
    """one character; rem: bytes left of the string"""
    def bad():
        R.err('InvalidUTF8')
    b = R.u8()
    c = R.switch(b, [(range(1, 0x80), 1), (range(0xC0, 0xE0), 2), (range(0xE0, 0xF0), 3)])
    if c is None:
        bad()
    if c == 1:
        return Chr(b), rem - 1
    if not R.le(K(c) - rem):
        bad()
    if c == 2:
        b2 = cont(R, bad)
        return Chr((b - 0xC0).scale(64) + b2 - 0x80), rem - 2
    b2 = cont(R, bad)
    b3 = cont(R, bad)
    if R.eq(b - 0xED) and R.le(K(0xA0) - b2):
        if R.le(b2 - 0xAF):
            # a high surrogate: only together with the low one
            if not R.le(K(6) - rem):
                bad()
            b4 = R.u8()
            if not R.eq(b4 - 0xED):
                bad()
            b5 = R.u8()
            if not R.decide(c_and([c_le(K(0xB0) - b5), c_le(b5 - 0xBF)])):
                bad()
            b6 = cont(R, bad)
            return Chr((b2 - 0xA0).scale(1 << 16) + (b3 - 0x80).scale(1 << 10) + (b5 - 0xB0).scale(64)
                       + b6 - 0x80 + 0x10000), rem - 6
        bad()
    return Chr((b - 0xE0).scale(1 << 12) + (b2 - 0x80).scale(64) + b3 - 0x80), rem - 3


def mutf8(R, n):
    if not R.le(R.pos + n - R.limit):
        # either is right: the string is cut off, and what is there may be wrong as well
        R.err('LimitExceeded', alts=('InvalidUTF8',))
    seq, rem = R.fold(n, lambda v: c_le(K(1) - v), mutf8_char, 'utf8')
    return seq


# ------------------------------------------------------------------ constant pool
REFKINDS = ['GetField', 'GetStatic', 'PutField', 'PutStatic', 'InvokeVirtual', 'InvokeStatic',
            'InvokeSpecial', 'NewInvokeSpecial', 'InvokeInterface']


def utf8_item(R):
    n = R.u16()
    return R.rec('UTF8', _0=mutf8(R, n))


def item(R, index):
    tag = R.u8()
    t = R.switch(tag, [((i,), i) for i in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20)])
    if t is None:
        R.err('InvalidCPItem', ('0', Num(index)))
    if t == 1:
        return R.part('utf8', utf8_item), 1
    if t == 3:
        return R.rec('Integer', _0=R.signed(4)), 1
    if t == 4:
        return R.rec('Float', _0=Bits(R.u32())), 1
    if t == 5:
        return R.rec('Long', _0=R.signed(8)), 2
    if t == 6:
        return R.rec('Double', _0=Bits(R.u64())), 2
    if t == 7:
        return R.rec('Class', _0=u16(R)), 1
    if t == 8:
        return R.rec('String', _0=u16(R)), 1
    if t in (9, 10, 11):
        a = u16(R)
        b = u16(R)
        return R.rec({9: 'FieldRef', 10: 'MethodRef', 11: 'InterfaceMethodRef'}[t], **{'class': a, 'name_and_type': b}), 1
    if t == 12:
        a = u16(R)
        b = u16(R)
        return R.rec('NameAndType', name=a, desc=b), 1
    if t == 15:
        k = R.u8()
        kind = R.switch(k, [((i + 1,), n) for i, n in enumerate(REFKINDS)])
        if kind is None:
            R.err('InvalidCPItem', ('0', Num(index)))
        i = u16(R)
        return R.rec('MethodHandle', kind=Rec(kind), index=i), 1
    if t == 16:
        return R.rec('MethodType', _0=u16(R)), 1
    if t == 18:
        a = u16(R)
        b = u16(R)
        return R.rec('InvokeDynamic', bootstrap_method_attribute=a, name_and_type=b), 1
    if t == 19:
        return R.rec('Module', _0=u16(R)), 1
    return R.rec('Package', _0=u16(R)), 1


def constant(R, k, index):
    it, w = R.part('item', item, index)
    nxt = index + w
    # the last index of a pool of 65535 entries can be that of a long; its second slot has no number
    if not R.le(nxt - 65535):
        R.err('CPTooLarge')
    return it, nxt


def pool(R):
    size = R.u16()
    seq, end = R.fold(K(1), lambda v: c_le(v + 1 - size), constant, 'pool', size)
    return PoolVal(seq, end, ('class', 'pool'))


class PoolVal:
    def __init__(self, seq, end, region):
        self.seq = seq
        self.end = end
        self.region = region

    def cmp(self, V, cv, R, reg):
        import poolval
        return poolval.compare(V, self, cv, R)


# ------------------------------------------------------------------ class
MAGIC = (0xCA, 0xFE, 0xBA, 0xBE)


def member(R, k):
    f = flags(R)
    n = u16(R)
    d = u16(R)
    return R.rec(None, access_flags=f, name=n, desc=d, attributes=R.nt('attributes'))


def klass(R):
    R.need(4)
    m = [R.byte() for _ in MAGIC]
    if not R.decide(c_and([c_eq(R.f.norm(b - q)) for b, q in zip(m, MAGIC)])):
        R.err('NotAClass')
    minor = u16(R)
    major = u16(R)
    p = pool(R)
    fl = flags(R)
    name = u16(R)
    sup = u16(R)
    ifs = u16s(R, 'interfaces')
    fields = table(member)(R, 'fields')
    methods = table(member)(R, 'methods')
    at = R.nt('attributes')
    return Tup(p, R.rec(None, minor_version=minor, major_version=major, access_flags=fl, name=name,
                        super_name=sup, interfaces=ifs, fields=fields, methods=methods, attributes=at))


# ------------------------------------------------------------------ attributes
def a_constant_value(R, n):
    return R.rec('ConstantValue', _0=u16(R))


def single(name):
    return lambda R, n: R.rec(name, _0=u16(R))


def empty(name):
    return lambda R, n: R.rec(name)


def a_enclosing(R, n):
    a = u16(R)
    return R.rec('EnclosingMethod', class_index=a, method_index=u16(R))


def indices(name):
    return lambda R, n: R.rec(name, _0=u16s(R, 'rows'))


def rows(name, row, wide=True):
    return lambda R, n: R.rec(name, _0=table(row, wide)(R, 'rows'))


def fields(*fs):
    """a row of u16 columns; a name that ends in ! is a word of flags"""
    def row(R, k):
        d = {}
        for f in fs:
            if f.endswith('!'):
                d[f[:-1]] = flags(R)
            else:
                d[f] = u16(R)
        return R.rec(None, **d)
    return row


def bootstrap_row(R, k):
    m = u16(R)
    return R.rec(None, method_ref=m, arguments=u16s(R, 'arguments'))


def export_row(R, k):
    i = u16(R)
    f = flags(R)
    return R.rec(None, index=i, flags=f, to=u16s(R, 'to'))


def provide_row(R, k):
    i = u16(R)
    return R.rec(None, **{'index': i, 'with': u16s(R, 'with')})


def a_module(R, n):
    name = u16(R)
    fl = flags(R)
    ver = u16(R)
    req = table(fields('index', 'flags!', 'version'))(R, 'requires')
    ex = table(export_row)(R, 'exports')
    op = table(export_row)(R, 'opens')
    uses = u16s(R, 'uses')
    pr = table(provide_row)(R, 'provides')
    return R.rec('Module', name=name, flags=fl, version=ver, requires=req, exports=ex, opens=op, uses=uses,
                 provides=pr)


# ---- annotations
def annotation(R, k=None):
    t = u16(R)
    n = R.u16()
    return R.rec(None, type_index=t, element_value_pairs=R.rep(n, pair, 'pairs'))


def pair(R, k):
    n = u16(R)
    return Tup(n, R.nt('element_value'))


def annotations(R, k=None):
    n = R.u16()
    return R.rep(n, annotation, 'annotations')


def parameter_annotations(R):
    n = R.u8()
    return R.rep(n, annotations, 'parameters')


def local_var(R, k):
    a = u16(R)
    b = u16(R)
    c = u16(R)
    return R.rec(None, start=a, length=b, index=c)


def target(R):
    t = R.u8()
    one8 = {0x00: 'TypeParameterClass', 0x01: 'TypeParameterMethod', 0x16: 'FormalParameter'}
    one16 = {0x10: 'SuperType', 0x17: 'Throws', 0x42: 'Catch', 0x43: 'OffsetInstanceOf', 0x44: 'OffsetNew',
             0x45: 'OffsetNewRef', 0x46: 'OffsetRef'}
    none = {0x13: 'EmptyField', 0x14: 'EmptyReturn', 0x15: 'EmptyReceiver'}
    bound = {0x11: 'TypeParameterBoundClass', 0x12: 'TypeParameterBoundMethod'}
    local = {0x40: 'LocalVariable', 0x41: 'ResourceVariable'}
    arg = {0x47: 'TypeArgumentCast', 0x48: 'TypeArgumentConstructor', 0x49: 'TypeArgumentMethod',
           0x4A: 'TypeArgumentNewRef', 0x4B: 'TypeArgumentRef'}
    every = {}
    for d, kind in ((one8, 1), (one16, 2), (none, 0), (bound, 3), (local, 4), (arg, 5)):
        for v, n in d.items():
            every[v] = (n, kind)
    x = R.switch(t, [((v,), y) for v, y in sorted(every.items())])
    if x is None:
        R.err('InvalidTargetType')
    n, kind = x
    if kind == 0:
        return R.rec(n)
    if kind == 1:
        return R.rec(n, _0=u8(R))
    if kind == 2:
        return R.rec(n, _0=u16(R))
    if kind == 3:
        a = u8(R)
        return R.rec(n, type_parameter=a, bound_index=u8(R))
    if kind == 4:
        return R.rec(n, _0=table(local_var)(R, 'locals'))
    a = u16(R)
    return R.rec(n, offset=a, type_argument=u8(R))


PATHKINDS = ['ArrayType', 'NestedType', 'WildcardType', 'Type']


def path_step(R, k):
    b = R.u8()
    kind = R.switch(b, [((i,), n) for i, n in enumerate(PATHKINDS)])
    if kind is None:
        R.err('InvalidTypePath')
    return R.rec(None, path_kind=Rec(kind), argument_index=u8(R))


def type_annotation(R, k):
    t = R.part('target', target)
    n = R.u8()
    p = R.rep(n, path_step, 'path')
    return R.rec(None, target_type=t, target_path=p, annotation=annotation(R))


def type_annotations(R):
    n = R.u16()
    return R.rep(n, type_annotation, 'annotations')


ELEMENTS = {'B': 'Byte', 'S': 'Short', 'C': 'Char', 'I': 'Int', 'J': 'Long', 'F': 'Float', 'D': 'Double',
            'Z': 'Boolean', 's': 'String', 'c': 'Class'}


def element_value(R):
    tag = R.u8()
    x = R.switch(tag, [((ord(c),), (c, n)) for c, n in ELEMENTS.items()]
                 + [((ord(c),), (c, None)) for c in 'e@['])
    if x is None:
        R.err('InvalidElementValue', ('0', Num(tag)))
    c, n = x
    if n:
        return R.rec(n, _0=u16(R))
    if c == 'e':
        a = u16(R)
        return R.rec('Enum', type_name=a, const_name=u16(R))
    if c == '@':
        return R.rec('Annotation', _0=annotation(R))
    n = R.u16()
    return R.rec('Array', _0=R.rep(n, lambda R, k: R.nt('element_value'), 'values'))


# ---- stack map
def verification(R, k=None):
    tag = R.u8()
    names = ['Top', 'Integer', 'Float', 'Double', 'Long', 'Null', 'UninitializedThis', 'Object', 'Uninitialized']
    n = R.switch(tag, [((i,), n) for i, n in enumerate(names)])
    if n is None:
        R.err('InvalidVerificationType', ('0', Num(tag)))
    if n in ('Object', 'Uninitialized'):
        return R.rec(n, _0=u16(R))
    return R.rec(n)


def frame(R, k):
    t = R.u8()
    x = R.switch(t, [(range(0, 64), 'same'), (range(64, 128), 'same1'), ((247,), 'same1x'), (range(248, 251), 'chop'),
                     ((251,), 'samex'), (range(252, 255), 'append'), ((255,), 'full')])
    if x is None:
        R.err('ReservedStackMapFrame', ('0', Num(t)))
    if x == 'same':
        return R.rec('Same', offset_delta=Num(t))
    if x == 'same1':
        return R.rec('Same1', offset_delta=Num(t - 64), stack=verification(R))
    if x == 'same1x':
        d = u16(R)
        return R.rec('Same1', offset_delta=d, stack=verification(R))
    if x == 'chop':
        return R.rec('Chop', offset_delta=u16(R), count=Num(K(251) - t))
    if x == 'samex':
        return R.rec('Same', offset_delta=u16(R))
    d = u16(R)
    if x == 'append':
        return R.rec('Append', offset_delta=d, locals=R.rep(t - 251, verification, 'locals'))
    n = R.u16()
    ls = R.rep(n, verification, 'locals')
    n = R.u16()
    return R.rec('Full', offset_delta=d, locals=ls, stack=R.rep(n, verification, 'stack'))


# ---- code
PLAIN = {}


def _plain(first, names):
    for i, n in enumerate(names.split()):
        PLAIN[first + i] = n


_plain(0x00, 'NOP AConstNull IConstM1 IConst0 IConst1 IConst2 IConst3 IConst4 IConst5 LConst0 LConst1 '
             'FConst0 FConst1 FConst2 DConst0 DConst1')
_plain(0x1A, ' '.join('%sLoad%d' % (t, i) for t in 'ILFDA' for i in range(4)))
_plain(0x2E, ' '.join('%sALoad' % t for t in 'ILFDABCS'))
_plain(0x3B, ' '.join('%sStore%d' % (t, i) for t in 'ILFDA' for i in range(4)))
_plain(0x4F, ' '.join('%sAStore' % t for t in 'ILFDABCS'))
_plain(0x57, 'Pop Pop2 Dup DupX1 DupX2 Dup2 Dup2X1 Dup2X2 Swap')
_plain(0x60, ' '.join(t + op for op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg') for t in 'ILFD'))
_plain(0x78, ' '.join(t + op for op in ('ShL', 'ShR', 'UShR', 'And', 'Or', 'XOr') for t in 'IL'))
_plain(0x85, 'I2L I2F I2D L2I L2F L2D F2I F2L F2D D2I D2L D2F I2B I2C I2S LCmp FCmpL FCmpG DCmpL DCmpG')
_plain(0xAC, 'IReturn LReturn FReturn DReturn AReturn Return')
_plain(0xBE, 'ArrayLength AThrow')
_plain(0xC2, 'MonitorEnter MonitorExit')
_plain(0xCA, 'BreakPoint')
_plain(0xFE, 'ImpDep1 ImpDep2')

LOCAL = dict((0x15 + i, t + 'Load') for i, t in enumerate('ILFDA'))
LOCAL.update((0x36 + i, t + 'Store') for i, t in enumerate('ILFDA'))
LOCAL[0xA9] = 'Ret'

JUMP = dict(enumerate('IfEq IfNE IfLT IfGE IfGT IfLE IfICmpEq IfICmpNE IfICmpLT IfICmpGE IfICmpGT IfICmpLE '
                      'IfACmpEq IfACmpNE'.split(), 0x99))
JUMP.update({0xC6: 'IfNull', 0xC7: 'IfNonNull'})
INDEX = dict(enumerate('GetStatic PutStatic GetField PutField InvokeVirtual InvokeSpecial InvokeStatic'.split(), 0xB2))
INDEX.update({0xBB: 'New', 0xBD: 'ANewArray', 0xC0: 'CheckCast', 0xC1: 'InstanceOf', 0x13: 'LDC', 0x14: 'LDC'})
ARRAYS = 'Boolean Char Float Double Byte Short Int Long'.split()
SPECIAL = [0x10, 0x11, 0x12, 0x84, 0xA7, 0xA8, 0xAA, 0xAB, 0xB9, 0xBA, 0xBC, 0xC4, 0xC5, 0xC8, 0xC9]


def instruction(R, at):
    op = R.u8()
    cases = [((o,), ('plain', n)) for o, n in PLAIN.items()] + [((o,), ('local', n)) for o, n in LOCAL.items()] \
        + [((o,), ('jump', n)) for o, n in JUMP.items()] + [((o,), ('index', n)) for o, n in INDEX.items()] \
        + [((o,), ('special', o)) for o in SPECIAL]
    x = R.switch(op, cases)
    if x is None:
        R.err('InvalidInstruction', ('op_code', Num(op)), ('at', Num(at)))
    k, n = x
    if k == 'plain':
        return R.rec(n)
    if k == 'local':
        return R.rec(n, _0=u8(R))
    if k == 'jump':
        return R.rec(n, _0=R.signed(2))
    if k == 'index':
        return R.rec(n, _0=u16(R))
    return R.part('%02X' % n, special, n, at)


def special(R, op, at):
    if op == 0x10:
        return R.rec('BIPush', _0=R.signed(1))
    if op == 0x11:
        return R.rec('SIPush', _0=R.signed(2))
    if op == 0x12:
        return R.rec('LDC', _0=u8(R))
    if op == 0x84:
        i = u8(R)
        return R.rec('IInc', _0=i, _1=R.signed(1))
    if op in (0xA7, 0xC8):
        return R.rec('GoTo', _0=R.signed(2 if op == 0xA7 else 4))
    if op in (0xA8, 0xC9):
        return R.rec('JSR', _0=R.signed(2 if op == 0xA8 else 4))
    if op == 0xB9:
        i = u16(R)
        c = u8(R)
        R.skip(K(1))
        return R.rec('InvokeInterface', _0=i, _1=c)
    if op == 0xBA:
        i = u16(R)
        R.skip(K(2))
        return R.rec('InvokeDynamic', _0=i)
    if op == 0xBC:
        a = R.u8()
        n = R.switch(a, [((i,), n) for i, n in enumerate(ARRAYS, 4)])
        if n is None:
            R.err('InvalidInstruction', ('op_code', Num(K(op))), ('at', Num(at)))
        return R.rec('NewArray', _0=Rec(n))
    if op == 0xC5:
        i = u16(R)
        return R.rec('MultiANewArray', _0=i, _1=u8(R))
    if op == 0xC4:
        w = R.u8()
        n = R.switch(w, [((o,), n) for o, n in LOCAL.items()] + [((0x84,), 'IInc')])
        if n is None:
            R.err('InvalidInstruction', ('op_code', Num(K(op))), ('at', Num(at)))
        if n == 'IInc':
            i = u16(R)
            return R.rec(n, _0=i, _1=R.signed(2))
        return R.rec(n, _0=u16(R))
    # switches: padding up to a multiple of four from the start of the code
    R.skip(R.padding(at))
    default = R.signed(4)
    if op == 0xAA:
        low = R.signed(4)
        high = R.signed(4)
        n = R.value(high) - R.value(low) + 1
        seq = R.rep(n, lambda R, k: R.signed(4), 'offsets')
        return R.rec('TableSwitch', default=default, low=low, high=high, offsets=seq)
    n = R.u32()
    seq = R.rep(n, lambda R, k: Tup(R.signed(4), R.signed(4)), 'pairs')
    return R.rec('LookupSwitch', default=default, offsets=seq)


def code(R, n):
    stack = u16(R)
    loc = u16(R)
    n = R.u32()
    old = R.sub(n)
    if R.eq(n):
        # the specification has no empty code; decoding it to nothing is as good as an error
        R.reject_or('LimitExceeded')
    start = R.pos
    end = R.limit

    def insn(R, k):
        at = R.pos - start
        return Tup(Num(at), R.part('instruction', instruction, at))
    insns = R.until(end, insn, 'code', start)
    R.close(old)
    exc = table(fields('start', 'end', 'handler', 'catch_type'))(R, 'exceptions')
    return R.rec('Code', max_stack=stack, max_locals=loc, instructions=insns, exceptions=exc,
                 attributes=R.nt('attributes'))


def source_debug(R, n):
    return R.rec('SourceDebugExtension', _0=mutf8(R, n))


def ann(name):
    return lambda R, n: R.rec(name, _0=annotations(R))


def pann(name):
    return lambda R, n: R.rec(name, _0=parameter_annotations(R))


def tann(name):
    return lambda R, n: R.rec(name, _0=type_annotations(R))


ATTRIBUTES = {
    'AnnotationDefault': lambda R, n: R.rec('AnnotationDefault', _0=R.nt('element_value')),
    'BootstrapMethods': rows('BootstrapMethods', bootstrap_row),
    'Code': code,
    'ConstantValue': single('ConstantValue'),
    'Deprecated': empty('Deprecated'),
    'EnclosingMethod': a_enclosing,
    'Exceptions': indices('Exceptions'),
    'InnerClasses': rows('InnerClasses', fields('inner_class_info', 'outer_class_info', 'inner_name',
                                                'inner_class_access_flags!')),
    'LineNumberTable': rows('LineNumberTable', fields('start', 'line_number')),
    'LocalVariableTable': rows('LocalVariableTable', fields('start', 'length', 'name', 'descriptor', 'index')),
    'LocalVariableTypeTable': rows('LocalVariableTypeTable', fields('start', 'length', 'name', 'signature', 'index')),
    'MethodParameters': rows('MethodParameters', fields('name', 'access_flags!'), False),
    'Module': a_module,
    'ModuleMainClass': single('ModuleMainClass'),
    'ModulePackages': indices('ModulePackages'),
    'RuntimeVisibleAnnotations': ann('RuntimeVisibleAnnotations'),
    'RuntimeInvisibleAnnotations': ann('RuntimeInvisibleAnnotations'),
    'RuntimeVisibleParameterAnnotations': pann('RuntimeVisibleParameterAnnotations'),
    'RuntimeInvisibleParameterAnnotations': pann('RuntimeInvisibleParameterAnnotations'),
    'RuntimeVisibleTypeAnnotations': tann('RuntimeVisibleTypeAnnotations'),
    'RuntimeInvisibleTypeAnnotations': tann('RuntimeInvisibleTypeAnnotations'),
    'Signature': single('Signature'),
    'SourceDebugExtension': source_debug,
    'SourceFile': single('SourceFile'),
    'StackMapTable': rows('StackMapTable', frame),
    'Synthetic': empty('Synthetic'),
}


def unknown(R, idx, n):
    return R.rec('Unknown', _0=Num(idx), _1=R.bytes(n))


def attribute(R, k):
    idx = R.u16()
    text = R.utf8_at(idx)
    if text is None:
        R.err('InvalidCPItem', ('0', Num(idx)))
    n = R.u32()
    old = R.sub(n)
    name = None
    for s in ATTRIBUTES:
        if R.is_text(text, s):
            name = s
            break
    if name is None:
        v = R.part('Unknown', unknown, idx, n)
    else:
        v = R.part(name, ATTRIBUTES[name], n)
    R.close(old)
    return v


def attributes(R):
    n = R.u16()
    return R.rep(n, attribute, 'attribute')


SPECS = {'class': klass, 'attributes': attributes, 'element_value': element_value}
