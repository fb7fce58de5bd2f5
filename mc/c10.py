"""C10: the interface of a PE.  Its published input and output records list
exactly the arguments and results, in declaration order, with the declared
types, in every family; type checking rejects exactly the ill-typed results."""
import itertools as it
from mc import lib, pegen, shapes as S
from hwtypes import Bit, BitVector
from hwtypes.adt import Product, Tuple
from peak import family as F
from peak import Peak, name_outputs, typecheck as tc_deco, gen_input_t, gen_output_t, Const
from peak.features import typecheck

P = S.prod(S.BIT, S.ints(1, 2))
TS = {'B': 'Bit', 'D': 'BitVector[2]', 'E': 'E', 'P': 'P', 'CE': 'Const(E)', 'CD': 'Const(BitVector[2])', 'S': 'SIntVector[2]'}
NAMES = ['b', 'a', 'self_', 'c']


def ns():
    return {'E': S.build(S.ints(1, 2)), 'P': S.build(P)}


def real(t, g):
    return {'B': Bit, 'D': BitVector[2], 'E': g['E'], 'P': g['P'], 'CE': Const(g['E']), 'CD': Const(BitVector[2]),
            'S': __import__('hwtypes').SIntVector[2]}[t]


def metadata(r, case):
    """one module with many PEs; each PE in each family"""
    sigs = case
    g = ns()
    src = []
    for i, (ins, outs, named) in enumerate(sigs):
        args = ''.join(f', {n}: {TS[t]}' for n, t in ins)
        names = [n for n, _ in outs]
        res = []
        for j, (n, t) in enumerate(outs):
            m = [x for x, u in ins if u.lstrip('C') == t]
            res.append(m[-1] if m else {'B': 'Bit(0)', 'D': 'BitVector[2](0)', 'E': 'E.m1', 'S': 'SIntVector[2](0)', 'P': 'P(Bit(0), E.m1)'}[t])
        ret = ', '.join(res) if res else 'None'
        if named:
            deco = f'        @name_outputs({", ".join(f"{n}={TS[t]}" for n, t in outs)})\n'
            ann = ''
        else:
            deco = ''
            ann = ' -> ' + (TS[outs[0][1]] if len(outs) == 1 else f'({", ".join(TS[t] for _, t in outs)})')
        src.append(f'''
@family_closure
def PE{i}_fc(family):
    @family.assemble(locals(), globals())
    class PE(Peak):
{deco}        def __call__(self{args}){ann}:
            return {ret}
    return PE
''')
    mod = pegen.load('\n'.join(src), g)
    for i, (ins, outs, named) in enumerate(sigs):
        fc = getattr(mod, f'PE{i}_fc')
        for famn in ('Py', 'PyX', 'SMT'):
            r.step()
            cls = getattr(fc, famn)
            it_, ot = cls.input_t, cls.output_t
            nm = f'{famn} PE{ins} -> {outs}'
            if not ins:
                r.check(it_ is None, 'inputs', lambda: f'{nm}: inputs {it_}')
            else:
                r.check(issubclass(it_, Product), 'inputs', lambda: f'{nm}: inputs {it_}')
                got = list(it_.field_dict.items())
                r.check([n for n, _ in got] == [n for n, _ in ins] and all(t == real(u, g) for (_, t), (_, u) in zip(got, ins)),
                        'inputs', lambda: f'{nm}: inputs {got}')
                r.check(all(issubclass(t, Const) == u.startswith('C') for (_, t), (_, u) in zip(got, ins)), 'inputs', lambda: f'{nm}: constness of {got}')
            got = list(ot.field_dict.items())
            if named:
                r.check(issubclass(ot, Product) and [n for n, _ in got] == [n for n, _ in outs], 'outputs', lambda: f'{nm}: outputs {got}')
            else:
                r.check(issubclass(ot, Tuple) and [n for n, _ in got] == list(range(len(outs))), 'outputs', lambda: f'{nm}: outputs {got}')
            r.check(all(t is real(u, g) for (_, t), (_, u) in zip(got, outs)), 'outputs', lambda: f'{nm}: outputs {got}')
            r.check(cls.input_t is it_ and cls.output_t is ot and (cls().__call__._input_t is it_), 'inputs', lambda: f'{nm}: the records change')
            r.outcome((famn, tuple(ins), tuple(outs)))
        r.trace()
        r.state()


def structure(r, _):
    """missing annotations, inheritance, and the switches"""
    D = BitVector[2]
    for mask in it.product((0, 1), repeat=3):
        for out in ('named', 'ann', None):
            for gi, go in it.product((True, False), repeat=2):
                r.step()
                ann = {n: D for n, m in zip('xyz', mask) if m}

                def call(self, x, y, z):
                    return x
                call.__name__ = '__call__'
                call.__annotations__ = dict(ann, **({'return': D} if out == 'ann' else {}))
                if out == 'named':
                    call = name_outputs(o=D)(call)
                # an output record is only generated when none is given
                bad = gi and sum(mask) < 3 or go and out is None
                try:
                    cls = type(Peak)('T', (Peak,), {'__call__': call}, gen_input_t=gi, gen_output_t=go)
                    r.check(not bad, 'annotations', lambda: f'annotations {list(ann)}, outputs {out}: accepted')
                    if gi and not bad:
                        r.check(list(cls.input_t.field_dict) == list('xyz'), 'annotations', lambda: f'{ann}')
                except ValueError:
                    r.check(bad, 'annotations', lambda: f'annotations {list(ann)}, outputs {out}, switches {gi, go}: rejected')
        r.trace()

    def mk(bases, sig, named=None):
        def call(self, *a):
            return a[0]
        d = {}
        exec(f'def __call__(self, {", ".join(sig)}): return {sig[0]}', d)
        c = d['__call__']
        c.__annotations__ = {n: D for n in sig}
        if named:
            c = name_outputs(**{named: Bit})(c)
        else:
            c.__annotations__['return'] = D
        return type(Peak)('T', bases, {'__call__': c})
    for s0, s1, n0, n1 in it.product((('a',), ('b', 'a')), (('c',), ('a', 'd'), None), (None, 'o'), (None, 'q')):
        r.step()
        base = mk((Peak,), s0, n0)
        sub = mk((base,), s1, n1) if s1 else type(Peak)('S', (base,), {})
        s, n = (s1, n1) if s1 else (s0, n0)
        r.check(list(sub.input_t.field_dict) == list(s), 'inheritance', lambda: f'{s0} then {s1}: {sub.input_t.field_dict}')
        r.check(list(sub.output_t.field_dict) == ([n] if n else [0]), 'inheritance', lambda: f'{n0} then {n1}: {sub.output_t.field_dict}')
        r.check(list(base.input_t.field_dict) == list(s0), 'inheritance', 'the base class changed')
        r.trace()
        r.state()


def typechecks(r, case):
    outs, named, how = case
    g = ns()
    E, PT = g['E'], g['P']
    from hwtypes import SIntVector
    vals = {'B': Bit(1), 'D': BitVector[2](1), 'D3': BitVector[3](1), 'E': E.m1, 'P': PT(Bit(0), E.m1), 'S': SIntVector[2](1), 'int': 1, 'none': None}
    types = [real(t, g) for t in outs]
    box = [None]

    def call(self, x):
        return box[0]
    call.__name__ = '__call__'
    call.__annotations__ = {'x': Bit}
    if named:
        call = name_outputs(**{n: t for n, t in zip('qpa', types)})(call)
    else:
        call.__annotations__['return'] = types[0] if len(types) == 1 else tuple(types)
    if how == 'class':
        cls = type(Peak)('T', (Peak,), {'__call__': call}, typecheck=True)
        f = cls()
        r.check(list(cls.input_t.field_dict) == ['x'] and len(cls.output_t.field_dict) == len(outs), 'typecheck', 'the records are lost')
    else:
        c2 = typecheck(gen_output_t(call))
        f = lambda x: c2(None, x)
    for combo in it.product(vals, repeat=len(outs)):
        r.step()
        v = tuple(vals[c] for c in combo)
        box[0] = v[0] if len(v) == 1 else v
        good = all(isinstance(x, T) for x, T in zip(v, types))
        try:
            got = f(Bit(0))
            r.check(good, 'typecheck', lambda: f'results {combo} for outputs {outs}: accepted')
            r.check(got is box[0], 'typecheck', lambda: f'results {combo}: changed to {got}')
        except TypeError:
            r.check(not good, 'typecheck', lambda: f'results {combo} for outputs {outs}: rejected')
        r.trace()
    # a result which is not there is none of the declared type
    good = tuple(next(x for x in vals.values() if isinstance(x, T)) for T in types)
    for n in range(len(types)):
        for x in ([good[:n]] + ([good[0]] if n == 1 else [])):
            box[0] = x
            r.step()
            try:
                f(Bit(0))
            except Exception:
                continue
            r.fail('typecheck', f'{n} results for outputs {outs}: accepted')
    # the same by keyword, and after a rejected call
    box[0] = good if len(good) > 1 else good[0]
    if how == 'class':
        r.check(cls()(x=Bit(1)) is box[0] and f(Bit(1)) is box[0], 'typecheck', 'by keyword: another result')
    r.state(len(vals) ** len(outs))
    r.outcome(case)


def many_results(r, case):
    """a wrong result at every position of a long list of results"""
    n, named = case
    types = [BitVector[k % 3 + 1] for k in range(n)]
    box = [None]

    def call(self, x):
        return box[0]
    call.__name__ = '__call__'
    call.__annotations__ = {'x': Bit}
    if named:
        call = name_outputs(**{f'k{(7 * i) % n}': t for i, t in enumerate(types)})(call)
    else:
        call.__annotations__['return'] = tuple(types)
    f = type(Peak)('T', (Peak,), {'__call__': call}, typecheck=True)()
    good = [T(1) for T in types]
    for i in [None, *range(n)]:
        for wrong in (Bit(0), BitVector[(i or 0) % 3 + 2](0), None):
            v = list(good)
            if i is not None:
                v[i] = wrong
            box[0] = tuple(v)
            r.step()
            try:
                got = f(Bit(0))
                r.check(i is None and got is box[0], 'typecheck', lambda: f'{n} results, position {i} is {wrong!r}: accepted')
            except TypeError:
                r.check(i is not None, 'typecheck', lambda: f'{n} results: rejected')
            r.trace()
    r.state(n)


def main(run):
    deep = lib.thorough()
    ts = list(TS)
    ins = [()]
    for n in (1, 2):
        for t in it.product(ts, repeat=n):
            ins.append(tuple(zip(NAMES, t)))
    for t in it.product(('B', 'CE', 'D'), repeat=3):
        ins.append(tuple(zip(NAMES, t)))
    outs = [(t,) for t in ('B', 'D', 'E', 'P', 'S')] + list(it.product(('B', 'D', 'E'), repeat=2)) + [('P', 'B', 'D'), ('D', 'D', 'B')]
    sigs = []
    for i, s in enumerate(ins):
        for j, o in enumerate(outs):
            if deep or (i + j) % 8 == 0:
                for named in (False, True):
                    sigs.append((s, tuple(zip(('z', 'y', 'o'), o)), named))
    # more than ten arguments and results, whose names sort differently
    many = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
    for k in range(len(ts)):
        for n in (4, 8, 12):
            for m in (n, 13 - n):
                for named in (False, True):
                    sigs.append((tuple(zip(many[:n], (ts[(i + k) % len(ts)] for i in range(n)))),
                                 tuple(zip(reversed(many[:m]), (ts[(3 * i + k) % 4] for i in range(m)))), named))
    run.explore('metadata', metadata, [sigs[i:i + 8] for i in range(0, len(sigs), 8)], chunk=2)
    run.explore('structure', structure, [None])
    run.explore('typecheck', typechecks, [(o, n, h) for o in outs for n in (False, True) for h in ('class', 'function')], chunk=2)
    run.explore('many', many_results, [(n, x) for n in (2, 5, 11, 13) for x in (False, True)])
    run.bounds = {'signatures': len(sigs)}
