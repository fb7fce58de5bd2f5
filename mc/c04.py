"""C04: an assembled value behaves like the plain value it encodes.

For every composite or enumerated type, every instruction: all ways of
constructing the assembled value, whole-tree comparison of field reads and
alternative matches with the plain object, equality against every other
instruction; concrete and (constant) symbolic bit-vectors."""
from mc import shapes as S
from mc import lib
from mc.asmcommon import *

FAM = {'py': BitVector, 'smt': SMTBitVector}


def const(x):
    """int of a concrete or constant symbolic bit / vector"""
    if isinstance(x, (Bit, BitVector)):
        return int(x.as_uint()) if isinstance(x, BitVector) else int(x)
    if isinstance(x, (SMTBit, SMTBitVector)):
        return int(x.value.simplify().constant_value())
    if isinstance(x, bool):
        return int(x)
    raise lib.Violated('value-kind', f'{type(x).__name__} {x!r}')


def leaf_type(fam, d):
    f = FAM[fam].get_family()
    if d[0] == 'bit':
        return f.Bit
    return {'bv': f.BitVector, 's': f.Signed, 'u': f.Unsigned}[d[0]][d[1]]


class Ctx:
    def __init__(self, r, gen, fam, nm):
        self.r, self.gen, self.fam, self.nm = r, gen, fam, nm

    def AT(self, d):
        return AADTS[self.gen][S.build(d), ASMS[self.gen], FAM[self.fam]]

    def same(self, x, d, v, where):
        """assembled x and model value v agree, recursively"""
        r = self.r
        r.step()
        if d[0] in ('bit', 'bv', 's', 'u'):
            T = leaf_type(self.fam, d)
            r.check(type(x) is T, 'leaf-type', lambda: f'{self.nm} {where}: {type(x)} for {T}')
            r.check(const(x) == v, 'field-value', lambda: f'{self.nm} {where}: reads {const(x)}, is {v}')
            return
        AT = self.AT(d)
        if not r.check(isinstance(x, AT), 'field-type', lambda: f'{self.nm} {where}: {type(x)} for {AT}'):
            return
        plain = S.make(d, v)
        r.check(const(x == plain) == 1 and const(x != plain) == 0, 'field-eq', lambda: f'{self.nm} {where}: != {v}')
        if d[0] == 'tuple':
            for i, f in enumerate(d[1:]):
                self.same(x[i], f, v[i], where + (i,))
        elif d[0] == 'prod':
            for i, f in enumerate(d[1:]):
                k = S.fieldname(d, i)
                self.same(getattr(x, k), f, v[i], where + (k,))
                if self.gen == 'v2':
                    self.same(x[i], f, v[i], where + (i,))
        elif d[0] in ('sum', 'tu'):
            for i, (k, f) in enumerate(S.fields(d)):
                m = x[k] if d[0] == 'sum' else getattr(x, k)
                r.check(const(m.match) == int(i == v[0]), 'match', lambda: f'{self.nm} {where}: {k} matches {m.match}')
                if i == v[0]:
                    self.same(m.value, f, v[1], where + (k,))


def one(r, case):
    gen, fam, d, lim, *nth = case
    nm = f'{gen} {fam} {S.sname(d)}'
    T, A, B = S.build(d), ASMS[gen], FAM[fam]
    w = S.width(d)
    c = Ctx(r, gen, fam, nm)
    ok, AT = r.guard('type-construction', c.AT, d)
    if not ok:
        return
    # type level: the type of a field is the assembled type of the field's type
    if d[0] in ('tuple', 'prod', 'sum', 'tu'):
        for i, (k, f) in enumerate(S.fields(d)):
            r.step()
            ft = AT[k] if d[0] in ('tuple', 'sum') else getattr(AT, k)
            want = leaf_type(fam, f) if f[0] in ('bit', 'bv', 's', 'u') else c.AT(f)
            r.check(ft is want, 'type-of-field', lambda: f'{nm}.{k}: {ft}')
    vals = S.values(d)
    if nth:
        vals = list(dict.fromkeys(vals[::len(vals) // nth[0] + 1] + vals[-1:]))
    objs = []
    for v in vals:
        inst = S.make(d, v)
        op = A(T).assemble(inst, B)
        r.state()
        made = [('plain', lambda: AT(inst)), ('opcode', lambda: AT(op)), ('copy', lambda: AT(AT(inst))),
                ('opcode literal', lambda: AT(B[w](const(op))))]
        if w and d[0] in ('tuple', 'prod'):
            def parts(conv):
                return [conv(f, x) for f, x in zip(d[1:], v)]
            def asm(f, x):
                return leaf_type(fam, f)(S.make(f, x).as_uint() if f[0] in ('s', 'u', 'bv') else x) \
                    if f[0] in ('bit', 'bv', 's', 'u') else c.AT(f)(S.make(f, x))
            made.append(('fields', lambda: AT.from_fields(*parts(asm))))
            if d[0] == 'prod':
                names = [k for k, _ in S.fields(d)]
                made.append(('fields by name', lambda: AT.from_fields(**dict(zip(names, parts(asm))))))
                made.append(('fields by name, reversed', lambda: AT.from_fields(**dict(reversed(list(zip(names, parts(asm))))))))
            if gen == 'v1':
                made.append(('call with fields', lambda: AT(*parts(asm))) if len(d) > 2 else made[0])
                if fam == 'py':
                    made.append(('plain fields', lambda: AT.from_fields(*parts(lambda f, x: S.make(f, x)))))
        elif w and d[0] in ('sum', 'tu'):
            k, f = S.fields(d)[v[0]]
            x = leaf_type(fam, f)(S.make(f, v[1]).as_uint() if f[0] in ('s', 'u', 'bv') else v[1]) \
                if f[0] in ('bit', 'bv', 's', 'u') else c.AT(f)(S.make(f, v[1]))
            if not (S.width(f) == 0 and gen == 'v2'):
                if d[0] == 'sum':
                    made.append(('alternative', lambda: AT.from_fields(k, x)))
                else:
                    made.append(('alternative', lambda: AT.from_fields(**{k: x})))
        first = None
        for how, mk in made:
            ok, obj = r.guard('construct', mk)
            if not ok:
                r.fail('construct', f'{nm}: {v} from {how}')
                continue
            r.check(type(obj) is AT, 'constructed-type', lambda: f'{nm} {v} from {how}: {type(obj)}')
            if d[0] == 'enum' or not w:
                r.check(const(obj == inst) == 1, 'construct-eq', lambda: f'{nm} {v} from {how}')
                r.step()
            else:
                c.same(obj, d, v, (how,))
            r.check(const(obj == op) == 1 and const(obj != op) == 0, 'opcode-eq', lambda: f'{nm} {v} from {how}: not equal to its opcode')
            if first is None:
                first = obj
            else:
                r.check(const(first == obj) == 1 and const(first != obj) == 0, 'construct-agree', lambda: f'{nm} {v} from {how}')
                if fam == 'py':
                    r.check(hash(first) == hash(obj), 'hash', lambda: f'{nm} {v} from {how}')
        objs.append((v, inst, op, first))
        r.trace()
        r.outcome((w, const(op)))
    # equality against the others
    for (v, i, o, x), (v2, i2, o2, y) in it.permutations(objs[:lim], 2):
        r.step()
        r.check(const(x == y) == 0 and const(x != y) == 1, 'distinct-equal', lambda: f'{nm}: {v} == {v2}')
        r.check(const(x == i2) == 0 and const(x != i2) == 1, 'distinct-equal', lambda: f'{nm}: {v} == plain {v2}')
        r.check(const(x == o2) == 0 and const(x != o2) == 1, 'distinct-equal', lambda: f'{nm}: {v} == opcode {v2}')
    # refusals
    if fam == 'py' and w:
        for bad in (B[w + 1](0), B[w - 1](0)):
            r.step()
            try:
                AT(bad)
            except TypeError:
                continue
            except Exception as e:
                r.fail('refusal', f'{nm}: wrong width: {type(e).__name__} {e}')
                continue
            if gen == 'v1' and d[0] in ('tuple', 'prod') and len(d) == 2:
                # with one field the call may also mean that field
                continue
            r.fail('accepts-wrong-width', f'{nm}: {bad!r}')
        x = objs[0][3]
        for bad in ('no_such_field',):
            r.step()
            try:
                getattr(x, bad)
                r.fail('accepts-bad-field', f'{nm}: {bad}')
            except Exception:
                pass
    r.sample({'type': nm, 'instructions': len(vals)})


def main(run):
    deep = lib.thorough()
    u = [d for d in S.universe(deep) if S.nvalues(d) <= 256 and d[0] in list(S.KINDS) + ['enum']]
    cases = [(g, 'py', d, 24 if deep else 12) for d in u for g in ASMS]
    us = [d for d in u if not S.has_zero(d) and S.nvalues(d) <= (64 if deep else 16)]
    cases += [(g, 'smt', d, 6 if deep else 4) for d in us for g in ASMS]
    run.bounds = {'types': len(u), 'types_symbolic': len(us), 'values': 'all'}
    run.explore('homonyms', homonymous(lambda r, g, d: [one(r, (g, f, d, 4)) for f in FAM]), homonym_pairs(), chunk=10, describe=hname)
    run.explore('large', one, [(g, f, d, 6, n) for d in S.large() for g in ASMS for f, n in (('py', 150 if deep else 30), ('smt', 10 if deep else 3))],
                describe=lambda c: f'{c[0]} {c[1]} {S.sname(c[2])}')
    run.explore('values', one, cases, chunk=15, describe=lambda c: f'{c[0]} {c[1]} {S.sname(c[2])}')
