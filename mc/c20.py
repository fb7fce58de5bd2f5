"""C20: instructions of an IR.  An instruction declared by an interface and a
function is an element with exactly that interface that computes that function
in every family; instructions and IRs are independent, names are unique."""
import itertools as it
import numpy as np

from mc import lib, shapes as S, pegen
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from hwtypes import SIntVector, UIntVector
from hwtypes.adt import Product, Enum, Sum, TaggedUnion, Tuple
from peak import family as F, family_closure, Peak
from peak.ir import IR

TYPES = {'B': Bit, 'D': BitVector[2], 'W': BitVector[3]}
FIELDS = ['in1', 'b', 'in0', 'a']            # not in alphabetical order
OUTS = ['y', 'out', 'x']


def iface(fields):
    return Product.from_fields('Interface', {n: TYPES[t] for n, t in fields})


def width(t):
    return {'B': 1, 'D': 2, 'W': 3}[t]


def combine(family, ins, args, t, k):
    """result number k of type t out of the arguments: depends on each argument
    and on their order"""
    w = width(t)
    BV = family.BitVector
    acc = BV[6](k + 1)
    for i, (_, ti) in enumerate(ins):
        x = args[i]
        x = x.ite(BV[6](1), BV[6](0)) if ti == 'B' else x.zext(6 - width(ti))
        acc = acc * BV[6](3) + x
    return acc[k % 2] if t == 'B' else acc[k % 2:k % 2 + w]


def meaning(ins, vals, t, k):
    acc = k + 1
    for v in vals:
        acc = (acc * 3 + v) % 64
    acc >>= k % 2
    return acc % (1 << width(t))


def signature(r, case):
    ins, outs, cls_name = case
    seen_fams = []

    def fun(family, *args):
        seen_fams.append(family)
        if len(args) != len(ins):
            raise lib.Violated('arguments', f'{len(args)} arguments for {ins}')
        res = tuple(combine(family, ins, args, t, k) for k, (_, t) in enumerate(outs))
        return res if len(res) > 1 else res[0]
    ir = IR()
    I, O = iface(ins), iface(outs)
    ir.add_peak_instruction('op', I, O, fun, *([cls_name] if cls_name else []))
    nm = f'{ins} -> {outs}'
    r.check(list(ir.instructions) == ['op'], 'names', lambda: f'{nm}: instructions {list(ir.instructions)}')
    fc = ir.instructions['op']
    space = list(it.product(*(range(1 << width(t)) for _, t in ins)))
    for famn in ('Py', 'PyX', 'SMT', 'Magma'):
        fam = getattr(F, famn + 'Family')()
        cls = fc(fam)
        r.check(isinstance(cls, type) and issubclass(cls, Peak) and cls.__name__ == (cls_name or 'op'), 'class', lambda: f'{nm}: {famn} gives {cls}')
        r.check(fc(fam) is cls, 'class', lambda: f'{nm}: {famn} gives another class when asked again')
        gi, go = list(cls.input_t.field_dict.items()), list(cls.output_t.field_dict.items())
        r.check(gi == list(I.field_dict.items()), 'interface', lambda: f'{nm}: {famn} inputs {gi}')
        r.check(go == list(O.field_dict.items()), 'interface', lambda: f'{nm}: {famn} outputs {go}')
        r.state()
        r.step()
        if famn == 'Magma':
            continue
        del seen_fams[:]
        if famn == 'SMT':
            args = [SMTBitVector[width(t)]() if t != 'B' else SMTBit() for _, t in ins]
            res = cls()(*args)
            res = res if len(outs) > 1 else (res,)
            env = {x.value: np.array([v[i] for v in space], dtype=np.int64) for i, x in enumerate(args)}
            got = [pegen.smt_eval(x, env, len(space)) for x in res]
            for k, (_, t) in enumerate(outs):
                want = [meaning(ins, v, t, k) for v in space]
                r.outcome(want)
                r.check(list(np.asarray(got[k]).reshape(-1)) == want, 'result', lambda: f'{nm}: symbolic result {k} is {got[k]}, the function gives {want}')
            r.step(len(space))
        else:
            pe = cls()
            for n, v in enumerate(space):
                r.step()
                args = [TYPES[t](x) for (_, t), x in zip(ins, v)]
                res = pe(*args) if n % 2 else pe(**dict(reversed([(f, a) for (f, _), a in zip(ins, args)])))
                res = res if len(outs) > 1 else (res,)
                want = [meaning(ins, v, t, k) for k, (_, t) in enumerate(outs)]
                r.outcome(want)
                r.check([int(x) for x in res] == want and [type(x) for x in res] == [TYPES[t] for _, t in outs],
                        'result', lambda: f'{nm}: {famn} on {v} gives {res}, the function gives {want}')
        r.check(all(f is fam or f == fam for f in seen_fams) and seen_fams, 'family', lambda: f'{nm}: the function got {seen_fams} for {famn}')
    r.trace()
    r.sample(nm)


# ---- interfaces of all kinds of types

def typed_universe():
    def op(codes):
        class Op(Enum):
            add = codes[0]
            sub = codes[1]
        return Op

    def rec(t):
        class Rec(Product):
            a = t
            b = Bit
        return Rec
    E1, E2 = op((0, 1)), op((2, 3))
    R1, R2 = rec(BitVector[2]), rec(E1)

    class U(TaggedUnion):
        p = Bit
        q = E1
    S1 = Sum[Bit, BitVector[2]]
    T1 = Tuple[Bit, BitVector[2]]
    D, I, N = BitVector[2], SIntVector[2], UIntVector[2]
    out = [(E1, [E1.add, E1.sub]), (E2, [E2.add, E2.sub]), (R1, [R1(D(1), Bit(1))]), (R2, [R2(E1.sub, Bit(0))]), (U, [U(p=Bit(1)), U(q=E1.sub)]),
           (S1, [S1(Bit(1)), S1(D(2))]), (T1, [T1(Bit(1), D(2))]), (D, [D(2)]), (I, [I(-1)]), (N, [N(3)]), (Bit, [Bit(1)])]
    return out


def typed(r, case):
    us = typed_universe()
    picks, outs = case
    ts = [us[i] for i in picks]
    names = ['in1', 'in0', 'a'][:len(ts)]
    I = Product.from_fields('Interface', {n: t for n, (t, _) in zip(names, ts)})
    O = Product.from_fields('Interface', {n: ts[i][0] for n, i in zip(OUTS, outs)})
    ir = IR()
    ir.add_peak_instruction('op', I, O, lambda family, *a: tuple(a[i] for i in outs) if len(outs) > 1 else a[outs[0]])
    nm = f'{[t.__name__ for t, _ in ts]} -> {outs}'
    for famn in ('Py', 'PyX'):
        r.state()
        r.step()
        cls = ir.instructions['op'](getattr(F, famn + 'Family')())
        for what, ft, want in (('inputs', cls.input_t, I), ('outputs', cls.output_t, O)):
            g, w = list(ft.field_dict.items()), list(want.field_dict.items())
            r.check(len(g) == len(w) and all(x == y and t is u for (x, t), (y, u) in zip(g, w)), 'interface', lambda: f'{nm}: {famn} {what} {g}, declared {w}')
        for vs in it.product(*(v for _, v in ts)):
            r.step()
            got = cls()(*vs)
            got = got if len(outs) > 1 else (got,)
            r.check(len(got) == len(outs) and all(x is vs[i] for x, i in zip(got, outs)), 'result', lambda: f'{nm}: {famn} {vs} gives {got}')
            r.outcome((picks, outs))
    r.trace()


# ---- histories of adding instructions

FUNS = {'f': lambda family, in1, b: in1 + b, 'g': lambda family, in1, b: b - in1}


def history(r, case):
    """all sequences of additions to two IRs; what every instruction is at the end"""
    IB = iface([('in1', 'D'), ('b', 'D')])
    OB = iface([('y', 'D')])
    IU = iface([('b', 'W')])
    OU = iface([('out', 'W')])

    @family_closure
    def Ready_fc(family):
        class Ready(Peak):
            def __call__(self, z: Bit) -> Bit:
                return ~z
        return Ready

    fc0 = Ready_fc
    irs = [IR(), IR()]
    ref = [{}, {}]
    fams = [F.PyFamily(), F.SMTFamily()]
    got_early = {}
    for i, name, kind in case:
        r.step()
        try:
            if kind == 'ready':
                irs[i].add_instruction(name, fc0)
            elif kind == 'u':
                irs[i].add_peak_instruction(name, IU, OU, lambda family, b: ~b, 'Op')
            else:
                irs[i].add_peak_instruction(name, IB, OB, FUNS[kind], 'Op')
            ok = True
        except ValueError:
            ok = False
        want = name not in ref[i]
        r.check(ok == want, 'duplicate', lambda: f'{case}: adding {name} to {i} {"succeeds" if ok else "is refused"}')
        if want:
            ref[i][name] = kind
        # every instruction used as soon as it is there, in the order of the history
        if name in irs[i].instructions and (i, name) not in got_early:
            got_early[i, name] = irs[i].instructions[name](fams[0])
    for i in (0, 1):
        r.state()
        r.check(list(irs[i].instructions) == list(ref[i]), 'names', lambda: f'{case}: IR {i} has {list(irs[i].instructions)}, added were {list(ref[i])}')
        for name, kind in ref[i].items():
            fc = irs[i].instructions.get(name)
            if fc is None:
                continue
            if kind == 'ready':
                r.check(fc is fc0, 'instruction', lambda: f'{case}: {name} of {i} is {fc}')
                continue
            cls = fc(fams[0])
            r.check(cls is got_early[i, name], 'instruction', lambda: f'{case}: {name} of {i} changed')
            if kind == 'u':
                got = [int(cls()(BitVector[3](x))) for x in range(8)]
                want = [7 - x for x in range(8)]
            else:
                D = BitVector[2]
                got = [int(cls()(D(x), D(y))) for x in range(4) for y in range(4)]
                want = [((x + y) if kind == 'f' else (y - x)) % 4 for x in range(4) for y in range(4)]
            r.outcome(want)
            r.check(got == want, 'instruction', lambda: f'{case}: {name} of {i} computes {got}, declared was {want}')
    r.trace()


def many(r, case):
    for h in case:
        history(r, h)


def main(run):
    deep = lib.thorough()
    sigs = []
    tn = 'BDW'
    for n in (1, 2, 3) if deep else (1, 2):
        for names in it.permutations(FIELDS[:n + 1], n) if not deep else it.permutations(FIELDS, n):
            for ts in it.product(tn, repeat=n):
                if n == 3 and ts[0] == ts[1] == ts[2]:
                    continue
                for m in (1, 2):
                    for j, os_ in enumerate(it.product(tn, repeat=m)):
                        if n == 3 and (len(sigs) + j) % 3:
                            continue
                        onames = (OUTS if len(sigs) % 2 else OUTS[::-1])[:m]
                        sigs.append((list(zip(names, ts)), list(zip(onames, os_)), [None, 'Op', 'Other'][len(sigs) % 3]))
    if not deep:
        for ts in it.product(tn, repeat=3):
            for m in (1, 3):
                sigs.append((list(zip(('in0', 'b', 'in1'), ts)), list(zip(OUTS, ts[::-1][:m])), None))
    # more than ten arguments and results
    many_ = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
    sigs.append(([(n, 'B') for n in many_], [('y', 'W')], None))
    sigs.append(([(n, 'B') for n in many_[:11]], [(n, 'BDW'[i % 3]) for i, n in enumerate(many_[::-1])], 'Op'))
    sigs.append(([('b', 'W'), ('a', 'D')], [(n, 'WBD'[i % 3]) for i, n in enumerate(many_)], None))
    run.explore('signatures', signature, sigs, chunk=8, describe=lambda c: f'{c[0]} -> {c[1]} {c[2]}')
    nt = len(typed_universe())
    run.explore('types', typed, [(p, o) for n in ((1, 2, 3) if deep else (1, 2)) for p in it.product(range(nt), repeat=n)
                                 for m in (1, 2) for o in it.product(range(n), repeat=m)], chunk=16)
    acts = [(i, n, k) for i in (0, 1) for n in ('A', 'B') for k in (('f', 'g', 'u', 'ready') if i == 0 or deep else ('g', 'u'))]
    L = 3
    hs = list(it.product(acts, repeat=L)) + (list(it.product(acts[:8], repeat=4)) if deep else [])
    run.explore('histories', many, [hs[i:i + 60] for i in range(0, len(hs), 60)], describe=lambda c: str(c[0]))
    run.bounds = {'signatures': len(sigs), 'histories': len(hs), 'history_length': 4 if deep else 3}
    run.assumptions = ['fields and instructions are not named like the parts of the generated source (family, self, peak_fc, ...)']
