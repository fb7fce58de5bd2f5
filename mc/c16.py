"""C16: the counterexample-guided loop decides every (small) exists-forall
formula exactly, and says so when it gives up."""
import itertools as it
import pysmt.shortcuts as smt
from mc import lib
from peak.mapper import mapper as M

# variable layouts: number of values of the chosen and of the universal part
LAYOUTS = {
    'bv2/bit': (['bv2'], ['bit']),
    'bv1/bv2': (['bv1'], ['bv2']),
    'bit+bit/bv1': (['bit', 'bit'], ['bv1']),
    'bit/bit+bit': (['bit'], ['bit', 'bit']),
    'bv2/bv2': (['bv2'], ['bv2']),
    'bit+bv1/bv1+bit': (['bit', 'bv1'], ['bv1', 'bit']),
    'none/bv2': ([], ['bv2']),
    'bv2/none': (['bv2'], []),
    'bv3/bit': (['bv3'], ['bit']),
}
_n = [0]


def make(kinds, tag):
    out = []
    for k in kinds:
        _n[0] += 1
        nm = f'{tag}{_n[0]}'
        out.append(smt.Symbol(nm) if k == 'bit' else smt.Symbol(nm, smt.BVType(int(k[2:]))))
    return out


def size(kinds):
    n = 1
    for k in kinds:
        n *= 2 if k == 'bit' else 1 << int(k[2:])
    return n


def split(kinds, v):
    out = []
    for k in kinds:
        n = 2 if k == 'bit' else 1 << int(k[2:])
        out.append(v % n)
        v //= n
    return out


def equals(vs, kinds, v):
    cs = []
    for s, k, x in zip(vs, kinds, split(kinds, v)):
        cs.append((s if x else smt.Not(s)) if k == 'bit' else smt.Equals(s, smt.BV(x, int(k[2:]))))
    return smt.And(cs)


def formula(xs, xk, ys, yk, table, cnf):
    nx, ny = size(xk), size(yk)
    if cnf:
        return smt.And([smt.Not(smt.And(equals(xs, xk, i), equals(ys, yk, j))) for i in range(nx) for j in range(ny) if not table >> (i * ny + j) & 1])
    return smt.Or([smt.And(equals(xs, xk, i), equals(ys, yk, j)) for i in range(nx) for j in range(ny) if table >> (i * ny + j) & 1])


def tables(r, case):
    name, ts, init, loops = case
    xk, yk = LAYOUTS[name]
    nx, ny = size(xk), size(yk)
    full = (1 << ny) - 1
    xs, ys = make(xk, 'x'), make(yk, 'y')
    for t in ts:
        phi = formula(xs, xk, ys, yk, t, t & 1)
        good = [i for i in range(nx) if t >> (i * ny) & full == full]
        what = f'{name} table {t:#x} (init {init}, limit {loops})'
        calls = []

        def found(solver, token):
            # values of variables the formula does not mention do not matter
            calls.append(token)
            v, f = 0, 1
            for s, k in zip(xs, xk):
                c = solver.get_value(s).constant_value()
                v += int(c) * f
                f *= 2 if k == 'bit' else 1 << int(k[2:])
            return ('found', v)
        r.state(nx * ny)
        r.step()
        try:
            res = M.external_loop_solve(list(ys), phi, maxloops=loops, solver_name='z3', irmapper='token', num_initial_vectors=init, rr_from_solver=found)
        except M.LoopException:
            r.count('gave_up')
            # every round excludes one choice at least
            r.check(loops is not None and loops < nx, 'gave-up', lambda: f'{what}: gives up')
            r.outcome((name, 'gave up'))
            continue
        r.trace()
        if res is None:
            r.check(not good, 'missed', lambda: f'{what}: no answer, but {good} satisfy it for all')
            r.check(not calls, 'protocol', lambda: f'{what}: a rule was built for nothing')
        else:
            r.check(calls == ['token'] and isinstance(res, tuple), 'protocol', lambda: f'{what}: {res!r} after {calls}')
            r.check(res[1] in good, 'wrong', lambda: f'{what}: answer {res[1]}, but only {good} satisfy it for all')
        r.outcome((name, t, res is None))


def wide_formulas(w):
    """(name, formula of lists of x and y, the one right choice for every x or
    None): for every width the answer is known"""
    M = (1 << w) - 1
    for K in sorted({0, 1, M, M // 3, 1 << (w - 1), 0xdeadbeefcafe1234567 & M}):
        k = smt.BV(K, w)
        yield f'xor {K}', lambda x, y, k=k: smt.Equals(smt.BVXor(x, y), smt.BVXor(y, k)), K
        yield f'add {K}', lambda x, y, k=k: smt.Equals(smt.BVAdd(x, y), smt.BVAdd(k, y)), K
        yield f'and {K}', lambda x, y, k=k: smt.Equals(smt.BVAnd(x, y), smt.BVAnd(k, y)), K
        yield f'sub {K}', lambda x, y, k=k: smt.Equals(smt.BVSub(y, x), smt.BVAdd(y, k)), -K & M
        yield f'equal {K}', lambda x, y, k=k: smt.Equals(smt.BVAdd(x, k), y), None
        if w < 6:                # each round excludes one choice only
            yield f'other {K}', lambda x, y, k=k: smt.Not(smt.Equals(smt.BVXor(x, k), y)), None
    yield 'or', lambda x, y: smt.Equals(smt.BVOr(x, y), x), M
    yield 'least', lambda x, y: smt.BVULE(x, smt.BVOr(y, x)), 'any'
    yield 'double', lambda x, y: smt.Equals(smt.BVMul(x, y), smt.BVAdd(y, y)), 2 & M
    yield 'half', lambda x, y: smt.Equals(smt.BVAdd(x, smt.BVAnd(y, x)), smt.BVAnd(y, smt.BVNot(x))), None


def wide(r, case):
    w, n, copies, init, conn = case
    name, f, want = list(wide_formulas(w))[n]
    xs, ys = make([f'bv{w}'] * copies, 'x'), make([f'bv{w}'] * copies, 'y')
    phi = [f(x, y) for x, y in zip(xs, ys)]
    if conn:          # an unused variable, a bit on both sides
        b, = make(['bit'], 'x')
        c, = make(['bit'], 'y')
        phi.append(smt.Or(b, c))
        phi.append(smt.Or(b, smt.Equals(xs[0], ys[0])))
        xs, ys = xs + [b], ys + [c]
    phi = smt.And(phi)
    what = f'{name}, {copies} x {w} bits (init {init})'

    def found(solver, token):
        return [solver.get_value(x).constant_value() for x in xs]
    r.state()
    r.step()
    res = M.external_loop_solve(list(ys), phi, maxloops=None, solver_name='z3', num_initial_vectors=init, rr_from_solver=found)
    r.trace()
    r.outcome((what, res is None))
    if want is None:
        r.check(res is None, 'wrong', lambda: f'{what}: answer {res}, there is none')
    elif r.check(res is not None, 'missed', lambda: f'{what}: no answer, {want} is one'):
        r.check(all(v == want or want == 'any' for v in res[:copies]) and (not conn or res[-1] is True), 'wrong', lambda: f'{what}: answer {res}, only {want} satisfies it for all')


def main(run):
    deep = lib.thorough()
    cs = []
    for name, (xk, yk) in LAYOUTS.items():
        cells = size(xk) * size(yk)
        ny = size(yk)
        if cells <= 8:
            ts = list(range(1 << cells))
        elif deep and cells == 16 and name == 'bv2/bv2':
            ts = list(range(1 << cells))
        else:
            # one table per multiset of rows
            rows = range(1 << ny)
            ts = [sum(rw << (i * ny) for i, rw in enumerate(c)) for c in it.combinations_with_replacement(rows, size(xk))]
            if not deep and cells > 8:
                ts = [t for t in ts if t % 2 == 0 or t % 3 == 0][::2] if name != 'bv2/bv2' else ts
        big = cells > 8
        for init in (-1, 0, 2):
            for loops in (None, 0, 1, 2, 4, 20) if not big else (None, 2) if init != 2 else (None,):
                for k in range(0, len(ts), 128):
                    cs.append((name, ts[k:k + 128], init, loops))
    run.explore('formulas', tables, cs, chunk=1, timeout=800, describe=lambda c: f'{c[0]} {c[1][0]:#x}.. {c[2]} {c[3]}')
    run.explore('wide', wide, [(w, n, k, i, c) for w in (1, 5, 8, 16, 33, 64) for n in range(len(list(wide_formulas(w)))) for k in (1, 12) for i in (-1, 0, 3)
                               for c in (0, 1)], chunk=8, timeout=300)
    run.bounds = {'layouts': {k: (size(a), size(b)) for k, (a, b) in LAYOUTS.items()}}
