"""The checks, one per property."""
import report, session
from vals import Undecided

TRUSTED = [
    'rustc (nightly): MIR of the crate and of the std functions it calls, as dumped by /verif/driver',
    'the abstract interpreter and its models of std functions (engine/*.py, engine/native/fastlin.c)',
]
ASSUMPTIONS = [
    'std functions that have a model behave as documented',
    'memory allocation succeeds for sizes the input can justify',
]
LEVEL = {}
NOTE = {
    'C29': 'Decides the absence of effects over the call graph of everything public, from resolved callees; trusts '
           'that std functions outside the listed modules have no such effect.',
}
TECHNIQUE = {
    'C29': 'effect analysis over the resolved call graph, types and items',
}
NOT_APPLICABLE = {
    'C30': 'the crate has no writer at this commit, so there is nothing to analyse; it is the behaviour of a future part',
    'C31': 'expected running time over a random hash seed is a runtime quantity that no static argument here bounds',
}


def c01(se, v, tier):
    import judge_parse
    ps = se.parse_system()
    judge_parse.panics(ps.ip, v)
    cover(ps, v)


def c02(se, v, tier):
    import judge_parse
    ps = se.parse_system()
    w = report.Verdict(v.prop)
    judge_parse.progress(ps.ip, ps.ip.recs.values(), w, ps.glob)
    if w.violations and ps.sy.again():
        w = report.Verdict(v.prop)
        judge_parse.progress(ps.ip, ps.ip.recs.values(), w, ps.glob)
    v.take(w)
    cover(ps, v)


def c03(se, v, tier):
    import judge_parse
    ps = se.parse_system()
    w = report.Verdict(v.prop)
    judge_parse.depth(ps, w)
    if w.violations and ps.sy.again():
        w = report.Verdict(v.prop)
        judge_parse.depth(ps, w)
    v.take(w)
    cover(ps, v)


def spec_check(prop):
    def go(se, v, tier):
        import judge_spec
        ps = se.parse_system()
        judge_spec.judge(prop, ps, v)
        if prop == 'C17':
            judge_spec.flags(ps, v)
        cover(ps, v)
    return go


def c29(se, v, tier):
    import effects
    effects.check(se, v)


def cover(ps, v):
    ip = ps.ip
    v.coverage.update(functions=len([f for f in ps.reach if f.local]), std_functions=len([f for f in ps.reach if not f.local]),
                      loops=len(ip.recs), back_edges=sum(len(r.backs) for r in ip.recs.values()),
                      blocks=ip.stats['blocks'], summaries=len(ps.nts),
                      summary_exits=sum(len(n.results) for n in ps.nts))
    if len(ip.recs) < 1 or v.coverage['functions'] < 10:
        v.unknown(('floor',), 'hardly anything was analysed')


def careful(V, v, names):
    """a pool that keeps more than its items: what is wrong in the invariant of all histories only counts if
    it is wrong after one of the histories of a few operations"""
    import copy, pooljudge
    w = report.Verdict(v.prop)
    for n in names:
        getattr(pooljudge, n)(V, w)
    bad, w.violations = w.violations, {}
    v.take(w)
    if not bad:
        return
    for k, t in bad.items():
        v.undecided.setdefault(k, t)
    B = copy.copy(V)
    V.ip.plain_keys = True
    B.heads = V.bounded()
    B.exact = True
    w = report.Verdict(v.prop)
    try:
        for n in names:
            getattr(pooljudge, n)(B, w)
    finally:
        V.ip.plain_keys = False
    v.coverage['histories'] = len(B.heads)
    v.violations.update(w.violations)
    v.obligations += w.obligations
    v.discharged += w.discharged


def pool_check(name, *more):
    def go(se, v, tier):
        import drive, pooljudge
        try:
            V = se.cached('pool', lambda: pooljudge.PoolSystem(se))
            if V.partial:
                v.unknown(('history',), 'the histories of all operations: ' + V.partial)
            if not V.extra:
                for n in (name,) + more:
                    getattr(pooljudge, n)(V, v)
            else:
                careful(V, v, (name,) + more)
        except drive.Undecided as e:
            v.unknown(('pool',), str(e))
            return
        v.coverage.update(operations=[f.path for f in V.muts], constructors=[f.path for f in V.makers_],
                          abstract_pools=len(V.heads), calls_analysed=V.obl)
    return go


CHECKS = dict(C01=c01, C02=c02, C03=c03, C29=c29)
SPEC = 'abstract interpretation of the compiler\'s MIR (path-partitioned, loop fixpoints, procedure summaries); the ' \
    'abstract outcome of every path is compared with a dataflow specification of the class file format, loops by induction'
for _i in range(4, 19):
    TECHNIQUE['C%02d' % _i] = SPEC
    CHECKS['C%02d' % _i] = spec_check('C%02d' % _i)


ADT = 'abstract interpretation of the compiler\'s MIR: the loop invariant of a synthetic program that calls the mutating ' \
    'operations in any order stands for every reachable pool; each operation is then observed through the others'
for _i, _f in ((19, ('c19', 'later', 'c22')), (20, ('c20',)), (21, ('c21',)), (23, ('c23',))):
    TECHNIQUE['C%02d' % _i] = ADT
    CHECKS['C%02d' % _i] = pool_check(*_f)
TECHNIQUE['C22'] = 'abstract interpretation of the compiler\'s MIR: equality of every pair of kinds of constants with symbolic ' \
    'operands, and what equal constants feed to the hasher'
CHECKS['C22'] = pool_check('c22')
TECHNIQUE['C24'] = 'queries over the types, visibility and signatures of everything public, and abstract interpretation of ' \
    'every operation with exclusive access from the invariant of all histories'
CHECKS['C24'] = pool_check('c24')


def c32(se, v, tier):
    import eqjudge
    eqjudge.c32(se.cached('eq', lambda: eqjudge.EqSystem(se)), v)


TECHNIQUE['C32'] = 'abstract interpretation of the compiler\'s MIR: equality of every pair of variants with symbolic operands'
CHECKS['C32'] = c32


def desc_check(name):
    def go(se, v, tier):
        import drive, descjudge
        try:
            V = se.cached('desc', lambda: descjudge.DescSystem(se))
            getattr(descjudge, name)(V, v)
        except drive.Undecided as e:
            v.unknown(('descriptors',), str(e))
    return go


PROD = 'abstract interpretation of the compiler\'s MIR in product with a monitor automaton: %s; loop fixpoints relate the ' \
    'state of the monitor to that of the function, the exits are compared'
for _i, _m in ((25, 'the grammar of field descriptors reads the same string'), (26, 'the grammar of method descriptors reads the same string'),
               (27, 'what a descriptor looks like, in step with what is written'), (28, 'assertions and loop measures of those runs')):
    TECHNIQUE['C%02d' % _i] = PROD % _m
    CHECKS['C%02d' % _i] = desc_check('c%02d' % _i)


def run(prop, tier, se=None):
    v = report.Verdict(prop)
    se = se or session.Session()
    try:
        CHECKS[prop](se, v, tier)
    except Undecided as e:
        v.unknown(('all',), str(e))
    return v
