import itertools as it
import warnings
warnings.simplefilter('ignore')
from mc import shapes as S
from mc.lib import Violated
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from peak.assembler.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2
from peak.assembler import AssembledADT as AADT1
from peak.assembler2 import AssembledADT as AADT2

ASMS = {'v1': Asm1, 'v2': Asm2}
AADTS = {'v1': AADT1, 'v2': AADT2}


def truth(b):
    """a 1-bit answer as a bool (python bool, Bit or 1-bit value)"""
    if isinstance(b, bool):
        return b
    if isinstance(b, Bit):
        return bool(b)
    if isinstance(b, int):
        return bool(b)
    raise Violated('answer-kind', f'expected a bit, got {type(b).__name__} {b!r}')


def unmake(d, o):
    """the model value of a real instruction object"""
    k = d[0]
    T = S.build(d)
    if not isinstance(o, T):
        raise Violated('decoded-type', f'{o!r} is not a {S.sname(d)}')
    if k == 'bit':
        return int(o)
    if k in ('bv', 's', 'u'):
        return o.as_uint()
    if k == 'enum':
        for n, _ in d[1:]:
            if truth(getattr(T, n) == o):
                return n
        raise Violated('decoded-enum', f'{o!r} is no member of {S.sname(d)}')
    if k == 'tuple':
        return tuple(unmake(f, o[i]) for i, f in enumerate(d[1:]))
    if k == 'prod':
        return tuple(unmake(f, getattr(o, S.fieldname(d, i))) for i, f in enumerate(d[1:]))
    hits = []
    for i, f in enumerate(d[1:]):
        m = o[S.build(f)] if k == 'sum' else getattr(o, S.fieldname(d, i))
        if m.match:
            val = m.value
            if type(val) is S.build(f):
                hits.append((i, unmake(f, val)))
    if len(hits) != 1:
        raise Violated('decoded-alternative', f'{o!r}: {len(hits)} alternatives of {S.sname(d)} match')
    return hits[0]


E3, E4 = S.enum(('a', 0), ('b', 1), ('c', 2)), S.enum(('a', 2), ('b', 0), ('c', 5))
HOMONYMS = [E3, E4, S.enum(('a', None), ('b', 1), ('c', None)), S.prod(S.BIT, S.bv(2)), S.prod(S.bv(2), S.BIT), S.prod(S.bv(2), S.sbv(2)), S.prod(E3, S.BIT),
            S.prod(E4, S.BIT), S.tup(E3, S.bv(2)), S.tup(E4, S.bv(2)), S.tu(S.BIT, S.bv(2)), S.tu(S.bv(2), S.BIT), S.tu(E3, S.bv(3)), S.tu(E4, S.bv(3)),
            S.sum_(E3, S.bv(2)), S.sum_(E4, S.bv(2)), S.prod(S.prod(S.BIT, S.bv(2)), S.BIT), S.prod(S.prod(S.bv(2), S.BIT), S.BIT)]


def homonym_pairs():
    """ordered pairs of different types that have the same name"""
    return list(it.permutations(HOMONYMS, 2))


def homonymous(check):
    """the check of a type, for two types of one name in one process"""
    def pair(r, case):
        S.homonyms(True)
        try:
            for gen in ASMS:
                for d in (*case, case[0]):
                    check(r, gen, d)
        finally:
            S.homonyms(False)
    return pair


def hname(case):
    return f'{S.sname(case[0])} {S.sname(case[1])}'


def opcodes(d, rich):
    """all opcodes of the width of d"""
    return range(1 << S.width(d))


def subshapes(d, path=()):
    yield path, d
    for k, f in S.fields(d):
        yield from subshapes(f, path + (k,))
