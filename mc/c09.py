"""C09: black boxes.  Every history of presetting, calling and reading a black
box, and every bounded hierarchy containing black boxes, against a small model
of the protocol."""
import itertools as it
from collections import OrderedDict
import numpy as np
from mc import lib, pegen, evalsmt
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from peak import family as F
from peak import family_closure, Peak, name_outputs
from peak.black_box import BlackBox, get_black_boxes, get_black_box

SRC = '''
from peak.black_box import BlackBox
@family_closure
def BB_fc(family):
    D = BitVector[2]
    B = Bit
    @family.assemble(locals(), globals())
    class BB(Peak, BlackBox):
{deco}        def __call__(self, {args}) -> {ret}:
            return {body}
    return BB
'''

# name: (arguments, [output names or positions])
SIGS = {
    'one': ('x: D', 'D', 'x', ['x'], [0], False),
    'two': ('z: D, a: D', 'D', 'z + a', ['z', 'a'], [0], False),
    'bits': ('z: D, b: B, a: D', '(D, B)', 'z ^ a, b', ['z', 'b', 'a'], [0, 1], False),
    'named': ('z: D, a: D', 'None', 'z, a', ['z', 'a'], ['q', 'p'], True),
}


MANY = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
SIGS['many'] = (', '.join(f'{k}: D' for k in MANY), '(' + ', '.join('DB'[i % 2] for i in range(12)) + ')',
                ', '.join(f'{k}[0]' if i % 2 else k for i, k in enumerate(MANY)), MANY, list(range(12)), False)


def load_bb(sig):
    args, ret, body, ins, outs, named = SIGS[sig]
    deco = '        @name_outputs(q=D, p=D)\n' if named else ''
    src = SRC.format(args=args, ret=ret, body=body, deco=deco)
    if named:
        src = src.replace(') -> None', ')')
    return pegen.load(src, {}).BB_fc


class Err:
    def __repr__(self):
        return 'error'


ERR = Err()


def orders(n):
    """orders of n keywords"""
    if n > 3:
        return [tuple(range(n)), tuple(range(n))[::-1], tuple(sorted(range(n), key=lambda i: MANY[i]))]
    return list(it.permutations(range(n)))


def protocol(r, case):
    sig, L, first = case
    fc = load_bb(sig)
    cls = fc.SMT
    ins, outs = SIGS[sig][3:5]
    n, m = len(ins), len(outs)
    # anything can be preset and passed, also values that are false or have no truth value
    vals = [BitVector[2](0), (Bit(0),), SMTBitVector[2](), None, SMTBit(), object(), BitVector[2](1), object()]
    if max(n, m) > 3:
        vals += [object() for _ in range(m)]
    # operations: set k outputs from a base, call positionally / by keyword in
    # every order / wrongly, read the inputs
    ops = [('set', b) for b in (0, 1)] + [('set-bad', m + 1)] + ([('set-bad', m - 1)] if m > 1 else [])
    ops += [('call', (0,)), ('call', (1,)), ('call-bad', 'short'), ('call-bad', 'long'), ('call-bad', 'none')]
    ops += [('kw', p) for p in orders(n)] + [('call-bad', 'kwname'), ('call-bad', 'kwshort')]
    if n > 1:
        ops += [('call-bad', 'mixed')]
    ops += [('call-bad', 'both')]
    ops += [('get',)]
    ops = [ops[first]] if L == 0 else ops
    for rest in it.product(ops, repeat=L - 1):
        sq = (ops[first],) + rest
        bb, other = cls(), cls()
        out = inp = None
        for k, op in enumerate(sq):
            r.step()
            want = None
            try:
                if op[0] == 'set':
                    want = None
                    got = bb._set_outputs(*vals[op[1]:op[1] + m])
                    out = tuple(vals[op[1]:op[1] + m])
                elif op[0] == 'set-bad':
                    want = ERR
                    got = bb._set_outputs(*vals[:op[1]])
                elif op[0] == 'get':
                    want = inp if inp is not None else ERR
                    got = bb._get_inputs()
                elif op[0] == 'call':
                    a = tuple(vals[2 + op[1][0]:2 + op[1][0] + n])
                    want = (out[0] if m == 1 else out) if out is not None else ERR
                    got = bb(*a)
                    inp = a
                elif op[0] == 'kw':
                    a = tuple(vals[3:3 + n])
                    want = (out[0] if m == 1 else out) if out is not None else ERR
                    got = bb(**{ins[i]: a[i] for i in op[1]})
                    inp = a
                else:
                    want = ERR
                    a = tuple(vals[4:4 + n])
                    if op[1] == 'short':
                        got = bb(*a[:-1])
                    elif op[1] == 'long':
                        got = bb(*a, vals[0])
                    elif op[1] == 'none':
                        got = bb()
                    elif op[1] == 'kwname':
                        got = bb(**{ins[i] if i else 'nope': a[i] for i in range(n)})
                    elif op[1] == 'kwshort':
                        got = bb(**{ins[i]: a[i] for i in range(n - 1)}) if n > 1 else bb(nope=a[0])
                    elif op[1] == 'both':
                        got = bb(*a, **{ins[0]: a[0]})
                    else:
                        got = bb(a[0], **{ins[i]: a[i] for i in range(1, n)})
            except ValueError:
                got = ERR
            if not r.check(got is want or isinstance(want, tuple) and isinstance(got, tuple) and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                           'protocol', lambda: f'{sig}: {sq[:k+1]} gives {got}, expected {want} (values {vals})'):
                return
        for get, what in ((lambda: other._get_inputs(), 'inputs'), (lambda: other(*vals[:n]), 'outputs')):
            try:
                get()
                r.fail('protocol', f'{sig}: after {sq} an untouched black box has {what}')
            except ValueError:
                pass
        r.trace()
    r.state(len(ops) ** (L - 1))
    r.outcome((sig, first, L))
    r.sample({'signature': SIGS[sig][0], 'operations': len(ops), 'length': L})


# ------------------------------------------------------------ hierarchies

def trees(depth, kinds):
    """PE = dict of children; 'B' black box; 'P' a leaf PE; 'R' a register;
    'v' an ordinary value"""
    out = ['B', 'P', 'R', 'v']
    if depth == 0:
        return out
    sub = trees(depth - 1, kinds)
    for n in (1, 2):
        for fs in it.product(sub, repeat=n):
            out.append(fs)
    return out


def tsize(t):
    return 1 if isinstance(t, str) else 1 + sum(map(tsize, t))


NAMES = ['_y', 'x__', '__w__'] + MANY


def hierarchy(r, case):
    shapes, famn = case
    fc = load_bb('one')
    BB = getattr(fc, famn)
    Reg = getattr(F, famn + 'Family')().gen_register(BitVector[1] if famn != 'SMT' else SMTBitVector[1], 0)

    class Node(Peak):
        def __init__(self, kids):
            for n, k in zip(NAMES, kids):
                setattr(self, n, k)

        def __call__(self, x: BitVector[1]) -> BitVector[1]:
            return x

    class Leaf(Peak):
        def __call__(self, x: BitVector[1]) -> BitVector[1]:
            return x
    made = []
    for t in shapes:
        want, wrong = {}, []

        def build(t, path):
            if t == 'B':
                o = BB()
                want[path] = o
                wrong.append(path + ('_y',))
                return o
            if t == 'P':
                return Leaf()
            if t == 'R':
                return Reg()
            if t == 'v':
                wrong.append(path)
                return 5
            return Node([build(k, path + (n,)) for n, k in zip(NAMES, t)])
        top = build(t, ())
        if t == 'v':
            continue
        made.append((t, top, want, wrong))
    # queries in two orders, twice: answers do not depend on earlier queries
    for order in (made, made[::-1]):
        for t, top, want, wrong in order:
            r.step()
            got = get_black_boxes(top)
            if not r.check(got.keys() == want.keys() and all(got[p] is want[p] for p in want), 'hierarchy',
                           lambda: f'{t}: found {sorted(got)}, there are {sorted(want)}'):
                return
            for p, o in want.items():
                r.check(get_black_box(top, p) is o, 'hierarchy', lambda: f'{t}: {p} leads to another object')
            r.check(get_black_box(top, ()) is top, 'hierarchy', 'the empty path does not lead to the object itself')
            for p in wrong + [('nope',)]:
                try:
                    o = get_black_box(top, p)
                    r.fail('hierarchy', f'{t}: {p} leads to {o}')
                except ValueError:
                    pass
            # as a part of a larger hierarchy
            if not isinstance(t, str):
                outer = Node([top])
                r.check(set(get_black_boxes(outer)) == {('_y',) + p for p in want}, 'hierarchy', lambda: f'{t} inside another: {sorted(get_black_boxes(outer))}')
    for t, top, want, wrong in made:
        r.trace()
        r.state()
        r.outcome((t, len(want)))
    for bad in (5, None, BB, 'x'):
        try:
            get_black_boxes(bad)
            r.fail('hierarchy', f'{bad!r} has black boxes')
        except ValueError:
            pass


PE_SRC = '''
from peak.black_box import BlackBox
@family_closure
def F_fc(family):
    D = BitVector[2]
    @family.assemble(locals(), globals())
    class F(Peak, BlackBox):
        def __call__(self, x: D, y: D) -> D:
            return {f}
    return F
@family_closure
def Mid_fc(family):
    D = BitVector[2]
    F = F_fc(family)
    @family.assemble(locals(), globals())
    class Mid(Peak):
        def __init__(self):
            self.f = F()
            self.g = F()
        def __call__(self, x: D, y: D) -> D:
            return self.f({a}) {op} self.g({b})
    return Mid
@family_closure
def PE_fc(family):
    D = BitVector[2]
    F = F_fc(family)
    Mid = Mid_fc(family)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.m = Mid()
            self.f = F()
        def __call__(self, x: D, y: D, c: Bit) -> D:
            t = self.m(x, y)
            u = self.f({c}t, x{d})
            if c:
                return u
            return t - u
    return PE
'''


def dataflow(r, case):
    """with the black boxes' outputs preset symbolically, the PE's output and
    the recorded inputs are the right functions: checked for every value of the
    inputs and of the black-box outputs, and against plain Python when the
    outputs are those the box would compute"""
    f, a, b, op, c, d = case
    fc = pegen.load(PE_SRC.format(f=f, a=a, b=b, op=op, c=c, d=d), {}).PE_fc
    pe = fc.SMT()
    D = SMTBitVector[2]
    x, y, cc = D(), D(), SMTBit()
    bbs = get_black_boxes(pe)
    r.check(set(bbs) == {('m', 'f'), ('m', 'g'), ('f',)}, 'dataflow', f'black boxes {sorted(bbs)}')
    o = {p: D() for p in bbs}
    for p, bb in bbs.items():
        bb._set_outputs(o[p])
    res = pe(x, y, cc)
    grid = np.array(list(it.product(range(4), range(4), (0, 1), range(4), range(4), range(4)))).T
    X, Y, C, F1, G1, F2 = grid
    n = X.size
    env = {x.value: X, y.value: Y, cc.value: C, o['m', 'f'].value: F1, o['m', 'g'].value: G1, o['f',].value: F2}
    E = lambda e: eval(e, {'x': X, 'y': Y, 't': T}) & 3
    T = None
    T = (F1 + G1 if op == '+' else F1 ^ G1) & 3

    def pair(s):
        if '=' in s:
            kw = dict(q.strip().split('=') for q in s.split(','))
            return [E(kw['x']), E(kw['y'])]
        return [E(q) for q in s.split(',')]
    want = {('m', 'f'): pair(a), ('m', 'g'): pair(b)}
    kw = f'{c}t, x{d}'
    want['f',] = pair(kw)
    for p in want:
        got = bbs[p]._get_inputs()
        r.check(len(got) == 2, 'dataflow', lambda: f'{p}: recorded {got}')
        for i in (0, 1):
            v = evalsmt.evaluate(got[i].value, env, n)
            r.check((v == want[p][i]).all(), 'dataflow', lambda: f'{case}: recorded input {i} of {p} differs from what was passed')
    v = evalsmt.evaluate(res.value, env, n)
    r.check((v == np.where(C != 0, F2, (T - F2) & 3)).all(), 'dataflow', lambda: f'{case}: the output is not the function of the black-box outputs')
    r.step(n)
    # agreement with plain Python
    py = fc.Py()
    g = lambda p, q: eval(f, {'x': p, 'y': q}) & 3
    for xv, yv, cv in it.product(range(4), range(4), (0, 1)):
        got = int(py(BitVector[2](xv), BitVector[2](yv), Bit(cv)))
        X, Y, C = np.array([xv]), np.array([yv]), np.array([cv])
        T = None
        m = [int(q[0]) for q in pair(a)], [int(q[0]) for q in pair(b)]
        T = (g(*m[0]) + g(*m[1]) if op == '+' else g(*m[0]) ^ g(*m[1])) & 3
        T = np.array([T])
        u = g(*[int(q[0]) for q in pair(kw)])
        w = u if cv else (int(T[0]) - u) & 3
        r.step()
        r.check(got == w, 'dataflow', lambda: f'{case}: plain Python gives {got} on {xv, yv, cv}, not {w}')
    r.state(n)
    r.trace()
    r.outcome(case)


def main(run):
    deep = lib.thorough()
    cases = []
    for s in SIGS:
        n = len(SIGS[s][3])
        m = len(SIGS[s][4])
        nops = 2 + 1 + (m > 1) + 5 + len(orders(n)) + 2 + (n > 1) + 1
        L = 3 + deep if nops > 18 else 4
        cases += [(s, l, f) for l in range(1, L + 1) for f in range(nops)]
    run.explore('protocol', protocol, cases, chunk=2)
    ts = trees(2, None)
    ts = [t for t in ts if tsize(t) <= (9 if deep else 7)]
    t3 = [t for t in trees(3, None) if tsize(t) <= 5] if deep else [(t,) for t in ts if tsize(t) <= 5]
    # more than ten parts, deeper nesting
    t3 += [('B',) * 12, ('B', 'P', 'R', 'v') * 3, tuple(('B', 'v') for _ in range(12)), (((((('B', 'B'), 'B'), 'B'), 'B'), 'B'), 'B'),
           ('P', ('R', ('v', ('B', ('P', ('B',)))))), (('B',) * 11, ('B',) * 11, 'B')]
    for famn in ('SMT', 'Py'):
        run.explore('hierarchy-' + famn, hierarchy, [(ts[i:i + 100], famn) for i in range(0, len(ts), 100)] + [(t3[i:i + 100], famn) for i in range(0, len(t3), 100)],
                    chunk=1, describe=lambda c: f'{c[0][0]}..{c[0][-1]}')
    args = ['x, y', 'y, x', 'x=x, y=y', 'y=x, x=y', 'y=y, x=x']
    run.explore('dataflow', dataflow, [(f, a, b, op, c, d) for f in ('x - y', 'x ^ ~y') for a in args for b in (args if deep else args[:4:3]) for op in '+^'
                                       for c, d in (('', ''),)], chunk=2)
    run.bounds = {'protocol_history': '3-4 operations', 'hierarchies': len(ts) + len(t3)}
