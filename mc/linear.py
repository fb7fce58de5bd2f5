"""Elements and programs of any width which are linear functions of their
inputs: two of them are equal exactly when their coefficients are, so a rule is
decided without tabulating."""
import itertools as it
from hwtypes import Bit, BitVector
from peak.mapper import Unbound
from mc import pegen

SRC = """
W = {w}
D_ = BitVector[W]
class Op(Enum):
    add = 1
    sub = 4
    rsub = 6
class Inst(Product):
    rhs = Sum[D_, Bit]
    op = Op

@family_closure
def PE_fc(family):
    Data = family.BitVector[W]
    @family.assemble(locals(), globals())
    class PE(Peak):
        @name_outputs(r=Data, ok=family.Bit)
        def __call__(self, a: Data, inst: Const(Inst), b: Data):
            rhs = b
            if inst.rhs[D_].match:
                rhs = inst.rhs[D_].value
            elif inst.rhs[Bit].value:
                rhs = Data(1)
            if inst.op == Op.add:
                res = a + rhs
            elif inst.op == Op.sub:
                res = a - rhs
            else:
                res = rhs - a
            return res, a == rhs
    return PE

@family_closure
def IR_fc(family):
    Data = family.BitVector[W]
    @family.assemble(locals(), globals())
    class IRPE(Peak):
        def __call__(self, {args}) -> Data:
            return {expr}
    return IRPE
"""
OPS = {1: (1, 1), 4: (1, -1), 6: (-1, 1)}


def programs(w):
    """(arguments, expression, coefficients of the arguments, constant)"""
    M = 1 << w
    ks = sorted({k % M for k in (0, 1, -1, 2, 1 << (w - 1), (1 << (w - 1)) - 1, 0x123456789abcdef0f, M // 3, 5 << (w // 2))})
    for k in ks:
        yield 'x', f'x + Data({k})', (1,), k
        yield 'x', f'Data({k}) - x', (-1,), k
    yield 'x', 'x << 1', (2,), 0
    yield 'x', 'x', (1,), 0
    yield 'x', 'x + x + Data(3)', (2,), 3
    yield 'x y', 'x + y', (1, 1), 0
    yield 'x y', 'x - y', (1, -1), 0
    yield 'y x', 'x - y', (-1, 1), 0
    yield 'x y', 'x - y + Data(1)', (1, -1), 1
    yield 'x y', f'x + y * Data({1 + (1 << (w - 1))})', (1, 1 + (1 << (w - 1))), 0
    yield 'x y', f'x + (y << {w - 1})', (1, 1 << (w - 1)), 0


def load(w, args, expr):
    return pegen.load(SRC.format(w=w, args=', '.join(f'{a}: Data' for a in args.split()), expr=expr), {})


def element(op, rhs):
    """(coefficient of a, of b, constant); rhs is ('imm', k) or ('bit', 0 or 1)"""
    s, t = OPS[op]
    if rhs[0] == 'imm':
        return s, 0, t * rhs[1]
    return (s, 0, t) if rhs[1] else (s, t, 0)


def right(w, op, rhs, a, b, args, coef, const):
    """a, b: the program's input there, or None"""
    ca, cb, k = element(op, rhs)
    have = {}
    free = 0
    for src, c in ((a, ca), (b, cb)):
        if src is None:
            free |= c
        else:
            have[src] = have.get(src, 0) + c
    M = (1 << w) - 1
    return not free & M and all((have.get(x, 0) - c) & M == 0 for x, c in zip(args.split(), coef)) and not (k - const) & M


def exists(w, args, coef, const):
    names = args.split()
    for op in OPS:
        s, t = OPS[op]
        for rhs in [('imm', t * const % (1 << w)), ('bit', 0), ('bit', 1)]:
            for a, b in it.permutations(names + [None] * (2 - len(names)), 2):
                if right(w, op, rhs, a, b, args, coef, const):
                    return True
    return False


def parse(w, rr, args):
    """(op, rhs, a, b) of a returned rule, or a complaint"""
    got = {}
    for p, q in rr.ibinding:
        if q in got:
            return f'{q} is bound twice'
        got[q] = p
    imm, bit = ('inst', 'rhs', BitVector[w]), ('inst', 'rhs', Bit)
    if set(got) - {imm, bit} != {('a',), ('b',), ('inst', 'op')} or (imm in got) == (bit in got):
        return f'paths {list(got)}'
    op = got['inst', 'op']
    rhs = got[imm if imm in got else bit]
    if not isinstance(op, BitVector) or op.size != 3 or int(op) not in OPS:
        return f'operation {op!r}'
    if not isinstance(rhs, BitVector[w] if imm in got else Bit):
        return f'operand {rhs!r}'
    srcs = []
    for q in ('a', 'b'):
        p = got[q,]
        if p is not Unbound and not (isinstance(p, tuple) and len(p) == 1 and p[0] in args.split()):
            return f'{q} from {p}'
        srcs.append(None if p is Unbound else p[0])
    if sorted(x for x in srcs if x) != sorted(args.split()):
        return f'inputs {srcs}'
    if [(p, q) for p, q in rr.obinding if p is not Unbound] != [((0,), ('r',))]:
        return f'outputs {rr.obinding}'
    return int(op), ('imm', int(rhs)) if imm in got else ('bit', int(bool(rhs))), *srcs


def binding(w, op, rhs, a, b):
    path = lambda x: Unbound if x is None else (x,)
    R = BitVector[w] if rhs[0] == 'imm' else Bit
    return ([(path(a), ('a',)), (R(rhs[1]), ('inst', 'rhs', R)), (BitVector[3](op), ('inst', 'op')), (path(b), ('b',))],
            [((0,), ('r',)), (Unbound, ('ok',))])
