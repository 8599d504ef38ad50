"""Writes known_findings.json: genuine defects found, all of them repaired."""
import json, subprocess
F = [
    ('ba46958', 'C23', 'Pool::get panicked for an index equal to the length of the pool'),
    ('68c0adf', 'C21', 'PoolIter paired items with an index one too small'),
    ('20dd8a7', 'C20', 'Pool::push refused items that still fitted and checked the length with wrapping arithmetic'),
    ('60528ca', 'C20', 'Pool::default made a pool of encoded length 0 in which the first item got index 0'),
    ('5150012', 'C07', 'repeated equal constants were merged while parsing, which shifted every later index'),
    ('1183e3f', 'C11', 'EnclosingMethod was looked for under a misspelt name and came out as unknown'),
    ('c5947a6', 'C04', 'the arguments of a bootstrap method were given the space of the count of methods'),
    ('29f5985', 'C01', 'tableswitch overflowed in high - low + 1 and reserved space for an untrusted range'),
    ('40a32d9', 'C15', 'wide astore was expected under a wrong opcode'),
    ('145d69a', 'C12', 'MethodParameters was read with a 16-bit count'),
    ('64023b1', 'C13', 'local variable targets were read with an 8-bit table length'),
    ('e94a701', 'C17', 'MODULE and MANDATED did not have the value 0x8000'),
    ('0e07c5d', 'C09', 'invalid continuation bytes and unpaired surrogates were accepted in modified UTF-8'),
    ('e7b5846', 'C03', 'nested code attributes and element values recursed without limit'),
]
out = dict(known=[], fixed=['fixed: property=%s %s %s' % (p, c, w) for c, p, w in F])
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
