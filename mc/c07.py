"""C07: state elements.  A register gives the value it holds (at first its
initial value) and then holds the last value written; a memory is one such cell
per address; no two elements share state, whatever was created before.

Real registers of every family are driven through all operation sequences of
the bound and compared with a plain cell."""
import itertools as it
import numpy as np
import warnings
from mc import lib, pegen, netlist, evalsmt, shapes as S
from hwtypes import Bit, BitVector, SIntVector, UIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum
from peak import family as F
from peak import Peak, family_closure, gen_register, RAM, ROM
from peak.register import gen_register2

OPS_ENUM = S.ints(1, 2, 3)
# another type of the same name
OPS_TWIN = Enum.from_fields(S.build(OPS_ENUM).__name__, {'m2': 2, 'm1': 1}, cache=False)
ENUMS = {'enum': S.build(OPS_ENUM), 'twin': OPS_TWIN}


def fam_of(name):
    if name == 'Sub':
        return Sub()
    return getattr(F, name + 'Family')()


class Sub(F.PyFamily):
    pass


def vtype(fam, t):
    k, w = t
    if k == 'bit':
        return fam.Bit
    if k in ENUMS:
        return fam.get_adt_t(ENUMS[k])
    return {'bv': fam.BitVector, 's': fam.Signed, 'u': fam.Unsigned}[k][w]


def domain(t):
    k, w = t
    if k == 'bit':
        return [0, 1]
    if k == 'enum':
        return [1, 2, 3]
    if k == 'twin':
        return [1, 2]
    return S.corners(w)[::7] if w > 8 else list(range(1 << w))


def mk(T, t, v):
    if t[0] in ENUMS:
        return T(getattr(ENUMS[t[0]], f'm{v}'))
    return T(v)


def num(x, t=None):
    if isinstance(x, Enum):
        return x._value_ if t is None or type(x) is ENUMS[t[0]] else f'{x!r} of another type'
    return pegen.val(x)


def make_class(fam, kind, t, init):
    T = vtype(fam, t)
    if t[0] in ENUMS:
        init = getattr(ENUMS[t[0]], f'm{init}')
    if kind == 'attr':
        return fam.gen_attr_register(T, init)
    return fam.gen_register(T, init, has_enable=kind == 'en') if kind == 'noen' else fam.gen_register(T, init)


class Holder(Peak):
    """an attribute register only shows its value through its owner"""
    def __init__(self, **regs):
        for k, v in regs.items():
            setattr(self, k, v)


def cell_ops(kind, t, deep):
    """operations on one element: write (value, enable), read"""
    d = domain(t)
    if kind == 'en':
        ops = [('w', v, e) for v in d for e in (0, 1)]
    else:
        ops = [('w', v, 1) for v in d]
    return ops + [('r', None, None)]


def apply(reg, kind, T, t, bit, op):
    o, v, e = op
    if kind == 'attr':
        h, name = reg
        if o == 'r':
            return num(getattr(h, name), t)
        old = num(getattr(h, name), t)
        setattr(h, name, mk(T, t, v))
        return old
    if o == 'r':
        return num(reg.prev(), t)
    v = mk(T, t, v)
    return num(reg(v, bit(e)) if kind == 'en' else reg(v), t)


def expect(state, op):
    o, v, e = op
    return (v if o == 'w' and e else state), state


def single(r, case):
    famn, kind, t, init, L = case
    fam = fam_of(famn)
    cls = make_class(fam, kind, t, init)
    T = vtype(fam, t)
    ops = cell_ops(kind, t, False)
    nm = f'{famn} {kind} register of {t} from {init}'
    for n in range(1, L + 1):
        for sq in it.product(ops, repeat=n):
            if n < L and sq[-1][0] == 'w':
                continue         # a prefix of a longer history
            reg = cls()
            if kind == 'attr':
                reg = (Holder(x=reg), 'x')
            st = init
            for k, op in enumerate(sq):
                got = apply(reg, kind, T, t, fam.Bit, op)
                r.step()
                nst, want = expect(st, op)
                if not r.check(got == want, 'value', lambda: f'{nm}: {sq[:k+1]} gives {got}, the register holds {want}'):
                    return
                st = nst
            r.trace()
            r.outcome((t, sq[-1], want))
    r.state(len(domain(t)))
    r.sample({'register': nm, 'length': L})


def pair(r, case):
    """two elements (possibly of one class), created in this order, operated
    in every interleaving"""
    a, b, L, same = case
    regs, st, meta = [], [], []
    classes = []
    for famn, kind, t, init in (a, b):
        fam = fam_of(famn)
        classes.append(make_class(fam, kind, t, init))
        meta.append((fam, kind, t, vtype(fam, t)))
        st.append(init)
    for i, c in enumerate(classes):
        reg = c()
        regs.append((Holder(x=reg), 'x') if meta[i][1] == 'attr' else reg)
    nm = f'{a} then {b}'
    init = list(st)
    d0, d1 = (domain(m[2]) for m in meta)
    ops = []
    for i, d in enumerate((d0, d1)):
        ops.append((i, ('r', None, None)))
        for v in (d[-1], d[0]):
            ops.append((i, ('w', v, 1)))
        if meta[i][1] == 'en':
            ops.append((i, ('w', d[-1] if init[i] != d[-1] else d[0], 0)))
    for sq in it.product(ops, repeat=L):
        regs = []
        for i, c in enumerate(classes):
            reg = c()
            regs.append((Holder(x=reg), 'x') if meta[i][1] == 'attr' else reg)
        s = list(init)
        for k, (i, op) in enumerate(list(sq) + [(0, ('r', 0, 0)), (1, ('r', 0, 0))]):
            fam, kind, t, T = meta[i]
            got = apply(regs[i], kind, T, t, fam.Bit, op)
            r.step()
            s[i], want = expect(s[i], op)
            if not r.check(got == want, 'interference', lambda: f'{nm}: after {sq[:k]} element {i} gives {got}, it holds {want}'):
                return
        r.trace()
    r.state(len(d0) * len(d1))
    r.outcome((a, b))


def attrs(r, case):
    """a PE object with two attribute registers and an ordinary attribute:
    all access histories"""
    L, (a, b, n) = case
    fam = F.PyFamily()
    D = BitVector[2]
    RA, RB = fam.gen_attr_register(D, 1), fam.gen_attr_register(UIntVector[2], 2)
    ops = [('get', a), ('get', b), ('get', n)] + [('set', x, v) for x in (a, b) for v in (0, 3)] \
        + [('set', n, v) for v in (7, 'x')] + [('bad', x) for x in (a, b)] + [('copy', a, n), ('raw', a), ('wrong', b)]
    for sq in it.product(ops, repeat=L):
        h = Holder(**{a: RA(), b: RB(), n: None})
        st = {a: D(1), b: UIntVector[2](2), n: None}
        raw = h.__dict__[a]
        for k, op in enumerate(sq):
            r.step()
            if op[0] == 'get':
                pass
            elif op[0] == 'set':
                v = op[2]
                if op[1] == a:
                    v = D(v)
                elif op[1] == b:
                    v = UIntVector[2](v)
                setattr(h, op[1], v)
                st[op[1]] = v
            elif op[0] == 'copy':
                setattr(h, n, getattr(h, a))
                st[n] = st[a]
            elif op[0] == 'raw':
                r.check(h.__dict__[a] is raw, 'attribute', lambda: f'{sq[:k+1]}: the element itself was replaced')
            else:
                try:
                    setattr(h, op[1], 5 if op[0] == 'bad' else BitVector[3](1))
                    r.fail('attribute', f'{sq[:k+1]}: a value of another type was stored')
                except TypeError:
                    pass
            for x in (a, b, n):
                got = getattr(h, x)
                if not r.check(type(got) is type(st[x]) and got == st[x], 'attribute', lambda: f'{sq[:k+1]}: {x} reads {got!r}, holds {st[x]!r}'):
                    return
        r.trace()
    r.state(3 * 16)


def memory(r, case):
    kind, n, mem, init, L = case
    W = BitVector[2]
    warnings.simplefilter('ignore')
    m0 = [W(v) for v in mem]
    ops = [(a, v, e) for a in range(n) for v in (1, 2) for e in (0, 1) if n < 4 or v > e] if kind == 'ram' else [(a,) for a in range(n)]
    addr = BitVector[max(2, n.bit_length())]
    for sq in it.product(ops, repeat=L):
        obj = (RAM if kind == 'ram' else ROM)(W, n, m0, W(init))
        other = (RAM if kind == 'ram' else ROM)(W, n, m0, W(init))
        st = (list(mem) + [init] * n)[:n]
        st0 = list(st)
        for k, op in enumerate(sq):
            r.step()
            if kind == 'ram':
                got = num(obj(addr(op[0]), W(op[1]), Bit(op[2])))
            else:
                got = num(obj(addr(op[0])))
            want = st[op[0]]
            if kind == 'ram' and op[2]:
                st[op[0]] = op[1]
            if not r.check(got == want, 'memory', lambda: f'{kind} of {n} from {mem}/{init}: {sq[:k+1]} gives {got}, the cell holds {want}'):
                return
        for a in range(n):
            for o, s in ((obj, st), (other, st0)):
                got = num(o(addr(a), W(0), Bit(0)) if kind == 'ram' else o(addr(a)))
                if not r.check(got == s[a], 'memory', lambda: f'{kind} of {n} from {mem}/{init}: after {sq} cell {a} holds {got}, not {s[a]}'):
                    return
        r.trace()
        r.outcome(tuple(st))
    r.state(min(3 ** n, len(ops) ** L))


def legacy(r, case):
    """gen_register(T, init) closures and gen_register2 classes"""
    which, famn, t, init, L = case
    fam = fam_of(famn)
    T = vtype(fam, t)
    PT = vtype(F.PyFamily(), t)
    warnings.simplefilter('ignore')
    if which == 'gen_register':
        cls = gen_register(PT, init)(fam)
    elif which == 'default':
        cls, init = gen_register(PT)(fam), 0
    elif which == 'default2':
        cls, init = gen_register2(fam, T), 0
    else:
        cls = gen_register2(fam, T, T(init))
    ops = cell_ops('en', t, False)[:-1]
    for sq in it.product(ops, repeat=L):
        reg, st = cls(), init
        for k, op in enumerate(sq):
            got = num(T(reg(T(op[1]), fam.Bit(op[2]))))
            r.step()
            nst, want = expect(st, op)
            if not r.check(got == want, 'value', lambda: f'{which} {famn} {t} from {init}: {sq[:k+1]} gives {got}, holds {want}'):
                return
            st = nst
        r.trace()
    r.state(len(domain(t)))


SRC = '''
@family_closure
def PE_fc(family):
    T0 = {t0}
    T1 = {t1}
    B = family.Bit
    R0 = family.gen_register(T0, {i0})
    R1 = family.gen_register(T1, {i1}, has_enable=False)
    R2 = family.gen_attr_register(T0, {i2})
    R3 = family.gen_register(T0, {i3})
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.r0 = R0()
            self.r1 = R1()
            self.r2 = R2()
            self.r3 = R3()
        def __call__(self, a: T0, b: T1, e: B, f: B) -> (T0, T1, T0, T0):
            x2 = self.r2
            x0 = self.r0(a, e)
            x1 = self.r1(b)
            if f:
                self.r2 = a
            x3 = self.r3(x0, f)
            return x0, x1, x2, x3
    return PE
'''


def hw(r, case):
    """symbolic and hardware registers: all input sequences at once (with a
    reset in any cycle for hardware)"""
    t0, t1, ini, L = case
    nm = f'registers of {t0}, {t1} from {ini}'
    ex = {'bit': 'family.Bit', 'bv': 'family.BitVector', 's': 'family.Signed', 'u': 'family.Unsigned'}
    ty = lambda t: ex[t[0]] + (f'[{t[1]}]' if t[0] != 'bit' else '')
    fc = pegen.load(SRC.format(t0=ty(t0), t1=ty(t1), i0=ini[0], i1=ini[1], i2=ini[2], i3=ini[3]), {}).PE_fc
    alpha = list(it.product(domain(t0), domain(t1), (0, 1), (0, 1), (0, 1)))
    seqs = list(it.product(alpha, repeat=L))
    n = len(seqs)
    cols = [np.array([[sq[k][i] for sq in seqs] for i in range(5)], dtype=np.int64) for k in range(L)]

    def reference(reset):
        s = [np.full(n, v) for v in ini]
        out = []
        for k in range(L):
            a, b, e, f, z = cols[k]
            if reset:
                s = [np.where(z != 0, v, x) for v, x in zip(ini, s)]
            out.append(list(s))
            s = [np.where(e != 0, a, s[0]), b, np.where(f != 0, a, s[2]), np.where(f != 0, s[0], s[3])]
            if reset:
                s = [np.where(z != 0, v, x) for v, x in zip(ini, s)]
        return out

    def report(kind, k, i, got, want):
        if (np.asarray(got) != want).any():
            j = int(np.nonzero(np.asarray(got) != want)[0][0])
            r.fail(kind, f'{nm}: {seqs[j][:k+1]}: {kind} register {i} gives {int(got[j])}, holds {int(want[j])}')
    ref = reference(False)
    fam = F.SMTFamily()
    pe, env = fc.SMT(), {}
    for k in range(L):
        args = []
        for i, t in enumerate((t0, t1, ('bit', 1), ('bit', 1))):
            T = vtype(fam, t)
            x = SMTBit() if t[0] == 'bit' else SMTBitVector[t[1]]()
            env[x.value] = cols[k][i]
            args.append(x if t[0] in ('bit', 'bv') else T(x))
        res = pe(*args)
        for i, x in enumerate(res):
            report('symbolic', k, i, evalsmt.evaluate(x.value, env, n), ref[k][i])
        r.step(n)
    netlist.fresh_magma()
    net = netlist.compile_pe(fc.Magma, 'pe')
    r.check(net.clocked(), 'hardware', f'{nm}: a register is not driven by the clock')
    net.reset(n)
    ref = reference(True)
    for k in range(L):
        a, b, e, f, z = cols[k]
        o = net.eval({'a': a, 'b': b, 'e': e, 'f': f, 'ASYNCRESET': z})
        for i in range(4):
            report('hardware', k, i, o[f'O{i}'], ref[k][i])
        net.step()
        r.step(n)
    r.state(len(domain(t0)) ** 3 * len(domain(t1)))
    r.trace(2 * n)
    r.outcome((t0, t1, ini))
    r.count('hardware_designs')
    r.sample({'registers': nm, 'sequences': n})


def main(run):
    deep = lib.thorough()
    ts = [('bit', 1), ('bv', 1), ('bv', 2), ('s', 2), ('u', 2), ('enum', 2), ('twin', 2)]
    cases = []
    for famn in ('Py', 'PyX', 'Sub'):
        for kind in ('en', 'noen', 'attr'):
            for t in ts:
                if t[0] == 'enum' and famn == 'PyX' and kind != 'attr':
                    pass
                for init in domain(t):
                    cases.append((famn, kind, t, init, 4 if deep or len(domain(t)) < 4 else 3))
    # wide values: small ones, single bits, their complements
    for famn in ('Py', 'PyX'):
        for kind in ('en', 'noen', 'attr'):
            for t in (('bv', 16), ('s', 20), ('u', 33), ('bv', 64)):
                for init in domain(t)[::5]:
                    cases.append((famn, kind, t, init, 2))
    run.explore('single', single, cases, chunk=2)
    specs = [(f, k, t, i) for f in ('Py', 'PyX', 'Sub') for k in ('en', 'noen', 'attr')
             for t, i in ((('bv', 2), 0), (('bv', 2), 1), (('u', 2), 1), (('bv', 1), 1), (('bit', 1), 1), (('s', 2), 1), (('enum', 2), 1), (('twin', 2), 1))]
    if not deep:
        specs = [s for s in specs if s[0] == 'Py' or s[2] == ('bv', 2) or s[0] == 'PyX' and s[2][0] not in ENUMS]
    prs = [(a, b, 3 if deep else 2, False) for a in specs for b in specs]
    run.explore('pair', pair, prs, chunk=40)
    names = [('a', 'b', 'n'), ('_a', 'a_', '_n_'), ('_a_', '__a', '__n'), ('a__', '_a__', 'n'), ('__a_', '____', '_'), ('value', '_value_', 'fields'), ('__', '_____', '___n___')]
    run.explore('attrs', attrs, [(L, x) for L in [1, 2] + ([4] if deep else []) for x in names] + [(3, names[0])], chunk=1)
    mems = [(k, n, tuple(m), i, L) for k in ('ram', 'rom') for n in (1, 2, 3) for m in ((), (1,), (1, 2), (3, 0, 1)) if len(m) <= n
            for i in (0, 3) for L in ((1, 2, 3) if n < 3 or deep else (1, 2))]
    mems += [(k, n, (3, 0, 1, 2) * 4, 3, L) for k in ('ram', 'rom') for n in (17, 33) for L in (1, 2)]
    run.explore('memory', memory, mems, chunk=2)
    leg = [(w, f, t, i, 3) for w in ('gen_register', 'default', 'default2', 'gen_register2') for f in ('Py', 'PyX')
           for t in (('bv', 1), ('bv', 2), ('u', 2), ('s', 2)) for i in domain(t)[-2:]]
    run.explore('legacy', legacy, leg, chunk=4)
    h = [(t0, t1, ini, L) for t0, t1, L in ((('bv', 1), ('bv', 1), 4 if deep else 3), (('bv', 2), ('bit', 1), 2 if not deep else 3), (('u', 2), ('s', 2), 2), (('bit', 1), ('bv', 2), 2))
         for ini in ((0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0))]
    run.explore('hw', hw, h, chunk=1)
    run.bounds = {'types': [str(t) for t in ts], 'history_length': '3-4', 'pairs': len(prs), 'memories': 'up to 3 cells, histories up to 3'}
    run.assumptions = ['the CoreIR netlist interpreter in mc/netlist.py gives CoreIR primitives their documented meaning']
