"""C08: family closures and families.

Every history of instantiations of a closure, over every kind of family, gives
each request the class that was built for exactly that family (and options),
and the same class every time."""
import itertools as it
import sys
import types
from mc import lib, pegen, shapes as S
import hwtypes
from peak import family as F
from peak import family_closure, Peak
from peak.assembler import Assembler as A1, AssembledADT
from peak.assembler2 import Assembler as A2


class SubPy(F.PyFamily):
    pass


class SubSubPy(SubPy):
    pass


class SubPyX(F.PyXFamily):
    pass


class SubSMT(F.SMTFamily):
    pass


class SubMagma(F.MagmaFamily):
    pass


class OptPy(F.PyFamily):
    """a family with an option of its own"""
    def __init__(self, opt=0, **kwargs):
        super().__init__(**kwargs)
        self.opt = opt

    def __eq__(self, other):
        return type(other) is type(self) and self.opt == other.opt

    def __hash__(self):
        return self.opt


class A1b(A1):
    pass


# names do not matter
A1b.__name__, A1b.__qualname__, A1b.__module__ = A1.__name__, A1.__qualname__, A1.__module__
SubMagma.__name__, SubMagma.__qualname__, SubMagma.__module__ = F.MagmaFamily.__name__, F.MagmaFamily.__qualname__, F.MagmaFamily.__module__
SubSubPy.__name__, SubSubPy.__qualname__, SubSubPy.__module__ = F.PyFamily.__name__, F.PyFamily.__qualname__, F.PyFamily.__module__


MAKERS = {
    'Py': F.PyFamily, 'PyX': F.PyXFamily, 'SMT': F.SMTFamily, 'Magma': F.MagmaFamily,
    'SubPy': SubPy, 'SubSubPy': SubSubPy, 'SubPyX': SubPyX, 'SubSMT': SubSMT, 'SubMagma': SubMagma,
    'Opt0': lambda: OptPy(0), 'Opt1': lambda: OptPy(1),
    'PyX(asm)': lambda: F.PyXFamily(assembler=A1b), 'SMT(asm)': lambda: F.SMTFamily(assembler=A1b),
    'Magma(asm)': lambda: F.MagmaFamily(assembler=A1b),
    'PyX(default)': lambda: F.PyXFamily(assembler=A1),
}
# names of one and the same family
SAME = {'PyX(default)': 'PyX'}


def canon(n):
    return SAME.get(n, n)


def relation(r, _):
    """equality of families is an equivalence that separates exactly the
    different families, and hashes agree with it"""
    ns = list(MAKERS)
    fs = {n: (MAKERS[n](), MAKERS[n]()) for n in ns}
    for a, b in it.product(ns, repeat=2):
        for i, j in it.product((0, 1), repeat=2):
            x, y = fs[a][i], fs[b][j]
            r.step(2)
            want = canon(a) == canon(b)
            r.check((x == y) is want, 'equality', lambda: f'{a} == {b} is {x == y}')
            r.check((x != y) is (not want), 'equality', lambda: f'{a} != {b} is {x != y}')
            if want:
                r.check(hash(x) == hash(y), 'equality', lambda: f'{a}, {b} are equal with different hashes')
            d = {x: 1}
            r.check((y in d) is want, 'equality', lambda: f'{b} found under {a}: {y in d}')
    for n in ns:
        r.check(fs[n][0] != n and not fs[n][0] == 5, 'equality', f'{n} equals something that is no family')
    r.state(len(ns))
    r.trace(len(ns) ** 2)


def fresh_closure():
    log = []

    @family_closure
    def PE_fc(family, **kwargs):
        log.append((family, tuple(sorted(kwargs.items()))))
        D = family.BitVector[2]

        class PE(Peak):
            fam = family
            opts = dict(kwargs)

            def __call__(self, x: D) -> D:
                return x
        return PE
    return PE_fc, log


def histories(r, case):
    alphabet, L, first = case
    for rest in it.product(alphabet, repeat=L - 1):
        sq = (first,) + rest
        fc, log = fresh_closure()
        gc, _ = fresh_closure()
        got = {}
        for k, (n, kw) in enumerate(sq):
            r.step()
            if n.startswith('.'):
                cls = getattr(fc, n[1:])
                key = (n[1:], ())
                fam = MAKERS[n[1:]]()
            else:
                fam = MAKERS[n]()
                cls = fc(fam, **dict(kw))
                key = (canon(n), kw)
            if not r.check(type(cls.fam) is type(fam) and cls.fam == fam, 'wrong-family', lambda: f'{sq[:k+1]}: class built for {type(cls.fam).__name__}'):
                return
            if getattr(fam, 'opt', None) is not None:
                r.check(cls.fam.opt == fam.opt, 'wrong-family', lambda: f'{sq[:k+1]}: class built with option {cls.fam.opt}')
            if not r.check(cls.opts == dict(key[1]), 'wrong-options', lambda: f'{sq[:k+1]}: class built with {cls.opts}'):
                return
            T = cls.input_t.field_dict['x']
            if not r.check(T is fam.BitVector[2], 'wrong-family', lambda: f'{sq[:k+1]}: inputs of type {T}'):
                return
            if not r.check(got.setdefault(key, cls) is cls, 'not-cached', lambda: f'{sq[:k+1]}: another class for the same request'):
                return
            other = [q for q in got if q != key and got[q] is cls]
            if not r.check(not other, 'shared', lambda: f'{sq[:k+1]}: the class of {other}'):
                return
        # another closure shares nothing
        c2 = gc(MAKERS[canon(first[0].lstrip('.'))]())
        r.check(all(c2 is not c for c in got.values()), 'shared', lambda: f'{sq}: two closures share a class')
        r.check(len(log) == len(got), 'not-cached', lambda: f'{sq}: built {len(log)} classes for {len(got)} requests')
        r.trace()
    r.state(len(alphabet) ** L)
    r.outcome((first, L))
    r.sample({'requests': [str(x) for x in alphabet], 'length': L})


def namespaces(r, _):
    """closures bound to a namespace of families, and nested closures"""
    for names in it.product((True, False), repeat=4):
        ns = types.SimpleNamespace(PyFamily=SubPy if names[0] else F.PyFamily, PyXFamily=SubPyX if names[1] else F.PyXFamily,
                                   SMTFamily=SubSMT if names[2] else F.SMTFamily, MagmaFamily=SubMagma if names[3] else F.MagmaFamily)
        built = []

        @family_closure
        def inner(family):
            built.append(family)
            return type('Inner', (), {'fam': family})

        @family_closure(ns)
        def outer(family):
            I = inner(family)
            return type('Outer', (), {'fam': family, 'inner': I})
        r.check(outer.family is ns, 'namespace', 'the closure lost its namespace')
        r.check(inner.family is F, 'namespace', 'the default namespace is not the standard one')
        for order in it.permutations(('Py', 'PyX', 'SMT', 'Magma')):
            for n in order:
                r.step()
                c = getattr(outer, n)
                want = getattr(ns, n + 'Family')
                r.check(type(c.fam) is want, 'namespace', lambda: f'{n} of {names}: {type(c.fam).__name__}')
                r.check(type(c.inner.fam) is want, 'namespace', lambda: f'nested {n} of {names}: {type(c.inner.fam).__name__}')
                r.check(c is outer(want()), 'namespace', lambda: f'{n} of {names}: not the cached class')
                r.check(type(getattr(inner, n).fam) is getattr(F, n + 'Family'), 'namespace', lambda: f'{n} of the inner closure: {getattr(inner, n).fam}')
            r.trace()
        r.state()


def vocab(r, _):
    """the vocabulary of each family"""
    import magma as m
    W = {'Py': (hwtypes.Bit, hwtypes.BitVector, hwtypes.SIntVector, hwtypes.UIntVector),
         'SMT': (hwtypes.SMTBit, hwtypes.SMTBitVector, hwtypes.SMTSIntVector, hwtypes.SMTUIntVector),
         'Magma': (m.Bit, m.Bits, m.SInt, m.UInt)}
    W['PyX'] = W['Py']
    for n, mk in MAKERS.items():
        base = next(b for b in ('PyX', 'SMT', 'Magma', 'Py') if b in n or b == 'Py')
        f = mk()
        r.state()
        for got, want, what in zip((f.Bit, f.BitVector, f.Signed, f.Unsigned), W[base], ('Bit', 'BitVector', 'Signed', 'Unsigned')):
            r.step()
            r.check(got is want, 'vocabulary', lambda: f'{what} of {n} is {got}')
    us = S.universe(False)
    for i, d in enumerate(us):
        T = S.build(d)
        if d[0] in ('bit', 'bv', 's', 'u'):
            continue
        for n in ('Py', 'PyX', 'SMT', 'SubPy', 'PyX(asm)', 'Magma'):
            f = MAKERS[n]()
            r.step()
            t = f.get_adt_t(T)
            if 'PyX' not in n and 'Py' in n:
                r.check(t is T, 'vocabulary', lambda: f'{n}: {T} becomes {t}')
                continue
            r.check(t is MAKERS[n]().get_adt_t(T), 'vocabulary', lambda: f'{n}: two types for {T}')
            r.check(t.adt_t is T and t.bv_type is f.BitVector and t.assembler_t is (A1b if 'asm' in n else A1),
                    'vocabulary', lambda: f'{n}: {T} becomes {t}')
        r.trace()
    for n in ('PyX', 'SMT', 'Magma'):
        f = MAKERS[n]()
        for T in (f.Bit, f.BitVector[3]):
            r.check(f.get_adt_t(T) is T, 'vocabulary', lambda: f'{n}: {T} becomes {f.get_adt_t(T)}')
        for bad in (int, str, Peak):
            r.step()
            try:
                t = f.get_adt_t(bad)
                r.fail('vocabulary', f'{n}: {bad} becomes {t}')
            except TypeError:
                pass


def main(run):
    deep = lib.thorough()
    run.explore('relation', relation, [None])
    no = ()
    base = [(n, no) for n in ('Py', 'PyX', 'SMT', 'Magma', 'SubPy', 'SubPyX', 'Opt0', 'Opt1', 'PyX(asm)')]
    dots = [('.' + n, no) for n in ('Py', 'PyX', 'SMT', 'Magma')]
    kws = [('Py', (('k', 1),)), ('Py', (('k', 2),)), ('Py', (('j', 1),)), ('SubPy', (('k', 1),)), ('PyX', (('k', 1),)), ('Py', no)]
    rest = [(n, no) for n in ('Py', 'SubPy', 'SubSubPy', 'SMT', 'SubSMT', 'Magma', 'SubMagma', 'SMT(asm)', 'Magma(asm)', 'PyX(default)', 'PyX')]
    L = 6 if deep else 5
    for name, al in (('base', base), ('shortcuts', dots + base[:6]), ('options', kws), ('subclasses', rest)):
        run.explore(name, histories, [(al, n, f) for n in range(1, L + 1) for f in al], chunk=1)
    run.explore('namespaces', namespaces, [None])
    run.explore('vocabulary', vocab, [None])
    run.bounds = {'requests': [len(base), len(dots) + 6, len(kws), len(rest)], 'history_length': L}
