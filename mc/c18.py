"""C18: the floating-point library.  Every element computes its own operation on
its operands in the requested format and rounding mode, whether the mode is an
input or a constant of the element, in every executable interpretation."""
import inspect
import itertools as it
import json
import os
import warnings
import gmpy2
from fractions import Fraction

from mc import lib
import hwtypes
from hwtypes import Bit, BitVector, FPVector, SMTBitVector, RoundingMode as HM
from hwtypes.fp_vector_abc import AbstractFPVector
from peak import family as F, family_closure, Peak, Const
from peak.black_box import get_black_boxes
from peak.float import float_lib_gen, RoundingMode, RoudningMode_utils

warnings.simplefilter('ignore')

# what the modes of the library mean
MODES = {'RNE': HM.RNE, 'RTZ': HM.RTZ, 'RDN': HM.RTN, 'RUP': HM.RTP, 'RMM': HM.RNA}
PRED = ['fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive']
CMP = ['fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq']
UN = ['fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral']
BIN = ['fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max']
OPS = {**{k: 1 for k in PRED + UN}, **{k: 2 for k in CMP + BIN}, 'fp_fma': 3}
BITOUT = set(PRED + CMP)


def name(op):
    return op[3:].capitalize() + '_fc'


def fam(n):
    return getattr(F, n + 'Family')()


def mode(m):
    return getattr(RoundingMode, m)


_nan = [False]
_init = FPVector.__init__


def _watch(self, value):
    if isinstance(value, type(gmpy2.mpfr(0))) and gmpy2.is_nan(value):
        _nan[0] = True
    _init(self, value)


def same(fmt, op, got, want, nan):
    """a NaN has no sign, and without IEEE compliance it is an infinity: of either sign"""
    if got == want:
        return True
    return nan and op not in BITOUT and got ^ want == 1 << (fmt[0] + fmt[1])


def reference(fmt, m, op, words):
    """the operation of the number system itself; is the result not a number?"""
    _nan[0] = False
    FPVector.__init__ = _watch
    try:
        return _reference(fmt, m, op, words), _nan[0]
    finally:
        FPVector.__init__ = _init


def _reference(fmt, m, op, words):
    T = FPVector[fmt[0], fmt[1], MODES[m], fmt[2]]
    w = 1 + fmt[0] + fmt[1]
    xs = [T.reinterpret_from_bv(BitVector[w](x)) for x in words]
    v = getattr(xs[0], op)(*xs[1:])
    return int(bool(v)) if op in BITOUT else int(v.reinterpret_as_bv())


# ---- the number system, independently (finite values of the IEEE formats)

def decode(fmt, w):
    e, f, _ = fmt
    frac = w & ((1 << f) - 1)
    ex = w >> f & ((1 << e) - 1)
    s = -1 if w >> (e + f) else 1
    bias = (1 << (e - 1)) - 1
    if ex == (1 << e) - 1:
        return None
    if ex == 0:
        return s * Fraction(frac) / (1 << f) * Fraction(2) ** (1 - bias)
    return s * (1 + Fraction(frac) / (1 << f)) * Fraction(2) ** (ex - bias)


def table(fmt):
    """value -> even significand?"""
    t = {}
    for w in range(1 << (fmt[0] + fmt[1])):
        v = decode(fmt, w)
        if v is not None:
            t[v] = t[-v] = not w & 1
    return t


def rounded(tab, vals, m, x):
    lo = max((v for v in vals if v <= x), default=None)
    hi = min((v for v in vals if v >= x), default=None)
    if lo is None or hi is None:
        return None                 # overflow
    if lo == hi:
        return lo
    if m == 'RDN':
        return lo
    if m == 'RUP':
        return hi
    if m == 'RTZ':
        return lo if x > 0 else hi
    if x - lo != hi - x:
        return lo if x - lo < hi - x else hi
    return lo if tab[lo] else hi


def exact(op, a):
    x = a[0]
    if op == 'fp_add':
        return x + a[1]
    if op == 'fp_sub':
        return x - a[1]
    if op == 'fp_mul':
        return x * a[1]
    if op == 'fp_div':
        return x / a[1] if a[1] else None
    if op == 'fp_fma':
        return x * a[1] + a[2]
    if op == 'fp_abs':
        return abs(x)
    if op == 'fp_neg':
        return -x
    if op in ('fp_min', 'fp_max'):
        return (min if op == 'fp_min' else max)(x, a[1])
    return None


def exact_bit(op, a):
    x = a[0]
    return {'fp_leq': lambda: x <= a[1], 'fp_lt': lambda: x < a[1], 'fp_geq': lambda: x >= a[1], 'fp_gt': lambda: x > a[1],
            'fp_eq': lambda: x == a[1], 'fp_is_zero': lambda: x == 0, 'fp_is_negative': lambda: x < 0, 'fp_is_positive': lambda: x > 0,
            'fp_is_infinite': lambda: False, 'fp_is_NaN': lambda: False}.get(op, lambda: None)()


def num(v, op, w):
    if op in BITOUT:
        if not isinstance(v, Bit):
            raise lib.Violated('result-type', f'{op} gives a {type(v).__name__}, declared Bit')
        return int(bool(v))
    if not isinstance(v, BitVector) or v.size != w:
        raise lib.Violated('result-type', f'{op} gives {v!r}, declared BitVector[{w}]')
    return int(v)


def corners(fmt, n):
    """operands of a large format: one of every kind, and neighbours"""
    e, f, _ = fmt
    S = 1 << (e + f)
    one = ((1 << (e - 1)) - 1) << f
    inf = ((1 << e) - 1) << f
    ws = [0, one, S | one + (1 << f) + 1, inf - 1, 1, inf]
    if n < 3:
        ws += [S, (1 << f) - 1, 1 << f, one + 1, S | one // 3 * 2 + 5, S | inf - 1, S | inf, inf + 1, one + (f << f) - 1]
    if n == 1:
        ws += [one + k * (1 << (f - 1)) for k in range(-6, 7)] + [S | one + (f << f) - 2, one - 1, S | 1]
    return ws


def values(r, case):
    fmt, op, m, *large = case
    warnings.simplefilter('ignore')
    e, f, ieee = fmt
    w = 1 + e + f
    n = OPS[op]
    L = float_lib_gen(e, f, ieee)
    D = getattr(L, name(op))
    C = getattr(L.const_rm(mode(m)), name(op))
    want_out = Bit if op in BITOUT else BitVector[w]
    els = []
    for famn in ('Py', 'PyX'):
        fm = fam(famn)
        d, c = D(fm), C(fm)
        rm = mode(m) if famn == 'Py' else fm.get_constructor(RoundingMode)(mode(m))
        ft = list(d.input_t.field_dict.items())
        r.check([x for x, _ in ft] == ['rm'] + [f'in{i}' for i in range(n)], 'interface', lambda: f'{op}: inputs {ft}')
        r.check(list(d.output_t.field_dict.values()) == [want_out], 'interface', lambda: f'{op}: outputs {d.output_t.field_dict}')
        r.check([t for _, t in c.input_t.field_dict.items()] == [BitVector[w]] * n, 'interface', lambda: f'{op}: constant mode inputs {c.input_t.field_dict}')
        r.check(list(c.output_t.field_dict.values()) == [want_out], 'interface', lambda: f'{op}: outputs {c.output_t.field_dict}')
        els.append((famn + '/input', d(), (rm,)))
        els.append((famn + '/constant', c(), ()))
    tab = None if large else table(fmt)
    vals = None if large else sorted(tab)
    BV = BitVector[w]
    for words in it.product(corners(fmt, n) if large else range(1 << w), repeat=n):
        r.state()
        try:
            want, nan = reference(fmt, m, op, words)
        except Exception:
            r.count('undefined_in_the_number_system')
            continue
        r.outcome((op, want))
        if ieee and m != 'RMM' and not large:
            a = [decode(fmt, x) for x in words]
            if None not in a:
                if op in BITOUT:
                    x = exact_bit(op, a)
                    if x is not None:
                        r.trace()
                        if int(x) != want:
                            raise lib.HarnessError(f'number system {fmt} {m} {op} {words}: {want}, exactly {x}')
                else:
                    x = exact(op, a)
                    q = None if x is None else rounded(tab, vals, m, x)
                    if q is not None:
                        # hwtypes rounds twice when the result is subnormal and halves
                        # the smallest values; the reference decides there
                        if decode(fmt, want) == q:
                            r.trace()
                        else:
                            r.count('number_system_inexact')
        for nm, el, pre in els:
            r.step()
            try:
                got = num(el(*pre, *[BV(x) for x in words]), op, w)
            except lib.Violated:
                raise
            except Exception as ex:
                raise lib.Violated('element-fails', f'{op} {nm} {fmt} {m} {words}: {type(ex).__name__}: {str(ex)[:200]}')
            if not same(fmt, op, got, want, nan):
                r.fail('wrong-result', f'{op} {nm} format {fmt} mode {m} operands {words}: {got}, the number system says {want}')
    r.sample(f'{op} {fmt} {m}')


def modes(r, case):
    """conversions between the library's modes, their words and the number system's modes"""
    famn = case
    fm = fam(famn)
    u = RoudningMode_utils(fm)
    A = fm.get_adt_t(RoundingMode)
    V = SMTBitVector if famn == 'SMT' else BitVector

    def val(x):
        x = x._value_ if hasattr(x, '_value_') else x
        return x.value.constant_value() if famn == 'SMT' else int(x)
    r.check(len(MODES) == len(list(RoundingMode.enumerate())), 'modes', lambda: f'{list(RoundingMode.enumerate())}')
    for m, h in MODES.items():
        r.state()
        r.step(4)
        r.outcome(m)
        r.check(u.RM_to_RM_hwtypes(mode(m)) is h, 'modes', lambda: f'{m} -> {u.RM_to_RM_hwtypes(mode(m))}')
        r.check(u.RM_hwtypes_to_RM(h) == mode(m), 'modes', lambda: f'{h} -> {u.RM_hwtypes_to_RM(h)}')
        a = fm.get_constructor(RoundingMode)(mode(m))
        r.check(val(u.from_rm(a)) == mode(m)._value_, 'modes', lambda: f'{famn}: word of {m} is {u.from_rm(a)}')
        b = u.to_rm(V[3](mode(m)._value_))
        r.check(val(b) == val(a), 'modes', lambda: f'{famn}: mode of word {mode(m)._value_} is {b!r}')


def symbolic(r, case):
    """symbolically, elements are black boxes; multiply-add with a constant mode
    contains the one with a mode input, called with that mode"""
    fmt, m = case
    w = 1 + fmt[0] + fmt[1]
    fm = fam('SMT')
    L = float_lib_gen(*fmt)
    C = L.const_rm(mode(m))
    for op, n in OPS.items():
        r.state()
        r.step()
        for dyn in (False, True):
            cls = getattr(L if dyn else C, name(op))(fm)
            pe = cls()
            bbs = get_black_boxes(pe)
            if not r.check(len(bbs) == 1, 'symbolic', lambda: f'{op}: black boxes {list(bbs)}'):
                continue
            bb, = bbs.values()
            out = hwtypes.SMTBit() if op in BITOUT else SMTBitVector[w]()
            bb._set_outputs(out)
            args = [SMTBitVector[w]() for _ in range(n)]
            rm = fm.get_constructor(RoundingMode)(mode(m))
            res = pe(*([rm] if dyn else []), *args)
            r.check(res is out, 'symbolic', lambda: f'{op} {m}: result is not the black box output')
            ins = bb._get_inputs()
            r.check([x.value for x in ins[-n:]] == [x.value for x in args], 'symbolic', lambda: f'{op} {m}: operands {ins}')
            if op == 'fp_fma' or dyn:
                got = ins[0]._value_.value
                r.check(len(ins) == n + 1 and got.is_bv_constant() and got.constant_value() == mode(m)._value_, 'symbolic',
                        lambda: f'{op}: the mode {m} is passed as {got}')
            r.outcome((op, m, dyn))


def identity(r, case):
    """elements are the same class exactly when they are the same element: the
    mapper identifies operations by their class"""
    famn = case
    fm = fam(famn)
    seen = {}
    keys = []
    fmts = ((2, 1, False), (2, 1, True), (1, 2, False), (2, 2, False))
    for fmt in fmts if famn == 'Py' or lib.thorough() else fmts[1:3]:
        for m in [None] + list(MODES):
            for op in OPS if famn == 'Py' or lib.thorough() else ('fp_add', 'fp_mul', 'fp_sqrt', 'fp_lt', 'fp_is_zero', 'fp_fma'):
                keys.append((fmt, m, op))
    for rnd in range(2):
        for fmt, m, op in (keys if not rnd else reversed(keys)):
            L = float_lib_gen(*fmt)
            L = L if m is None else L.const_rm(mode(m))
            cls = getattr(L, name(op))(fm)
            r.step()
            k = (fmt, m, op)
            if rnd:
                r.check(seen[k] is cls, 'identity', lambda: f'{k}: another class when asked again')
            else:
                seen[k] = cls
                r.state()
    r.check(len(set(map(id, seen.values()))) == len(seen), 'identity', lambda: 'different elements share a class')
    r.outcome(len(seen))


HWOPS = {'fp_add': 'add', 'fp_mul': 'mul'}


def reach(mod, start):
    """the ports connected to one, through wire instances"""
    inst = mod['instances']
    conn = {}
    for a, b in mod['connections']:
        conn.setdefault(a, []).append(b)
        conn.setdefault(b, []).append(a)
    out, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += conn.get(x, [])
        i, _, pn = x.partition('.')
        if i in inst and inst[i].get('genref') in ('coreir.wire', 'mantle.wire') and pn in ('in', 'out'):
            todo.append(f'{i}.{"out" if pn == "in" else "in"}')
    return out


def one_op(r, mod, op, fmt, names):
    """a module that is one operation on its two operands"""
    inst = mod['instances']
    ops = {k: v for k, v in inst.items() if v.get('genref', '').startswith('float.')}
    if len(ops) != 1:
        return r.fail('hardware', f'{op}: instances {inst}')
    (k, v), = ops.items()
    ga = {x: y[1] for x, y in v['genargs'].items()}
    r.outcome((op, tuple(ga.items())))
    r.check(v['genref'] == 'float.' + HWOPS.get(op, op[3:]), 'hardware', lambda: f'{op}: {v["genref"]}')
    if ga != {'exp_bits': fmt[0], 'frac_bits': fmt[1]}:
        r.fail('hardware-format-16' if sum(fmt) == 15 else 'hardware-format', f'{op} in format {fmt}: hardware of format {ga}')
    for port, want in (('in0', f'self.{names[0]}'), ('in1', f'self.{names[1]}'), ('out', 'self.O')):
        r.trace()
        got = reach(mod, f'{k}.{port}')
        r.check(want in got, 'hardware', lambda: f'{op}: {port} is connected to {sorted(got)}')


def compiled(C, fn):
    import magma
    magma.compile(fn, C, output='coreir')
    j = json.load(open(fn + '.json'))
    mods = j['namespaces']['global']['modules']
    return mods, mods[j['top'].split('.')[1]]


def hardware(r, case):
    """the elements hardware exists for: one instance of the operation in the
    format asked for, fed with the operands in order.  What hardware does not
    exist for may be refused."""
    e, f, op, m = case
    L = float_lib_gen(e, f)
    fc = getattr(L.const_rm(mode(m)), name(op))
    r.state()
    r.step()
    try:
        mods, mod = compiled(fc.Magma, f'fp_{os.getpid()}')
    except Exception as ex:
        r.outcome(('refused', type(ex).__name__))
        if (e, f) == (8, 7) and m == 'RNE' and op in HWOPS:
            raise lib.Violated('hardware-fails', f'{op} {e, f} {m}: {type(ex).__name__}: {str(ex)[:200]}')
        return
    r.check(m == 'RNE', 'hardware-mode', lambda: f'{op} {m}: hardware rounds to nearest even')
    one_op(r, mod, op, (e, f), list(fc.Py.input_t.field_dict))


def hardware_pair(r, case):
    """two operations as parts of one element"""
    lib_ = float_lib_gen(8, 7).const_rm(RoundingMode.RNE)
    fcs = [getattr(lib_, name(op)) for op in case]
    Data = BitVector[16]

    @family_closure
    def Top_fc(family):
        A, B = fcs[0](family), fcs[1](family)

        @family.assemble(locals(), globals())
        class Top(Peak):
            def __init__(self):
                self.a: A = A()
                self.b: B = B()

            def __call__(self, x: Data, y: Data, z: Data) -> Data:
                return self.b(self.a(x, y), z)
        return Top
    r.state()
    mods, mod = compiled(Top_fc.Magma, f'fp_{os.getpid()}')
    inst = {k: mods[v['modref'].split('.')[1]] for k, v in mod['instances'].items() if 'modref' in v}
    subs = {}
    for k, m in inst.items():
        fl = [v['genref'] for v in m['instances'].values() if v.get('genref', '').startswith('float.')]
        if fl:
            subs[fl[0]] = (k, m)
    r.step()
    if not r.check(set(subs) == {'float.' + HWOPS[op] for op in case}, 'hardware', lambda: f'{case}: parts {list(subs)}'):
        return
    ks = []
    for op, fc in zip(case, fcs):
        k, m = subs['float.' + HWOPS[op]]
        names = list(fc.Py.input_t.field_dict)
        one_op(r, m, op, (8, 7), names)
        ks.append((k, names))
    (ka, na), (kb, nb) = ks
    for a, b in ((f'{ka}.{na[0]}', 'self.x'), (f'{ka}.{na[1]}', 'self.y'), (f'{ka}.O', f'{kb}.{nb[0]}'), (f'{kb}.{nb[1]}', 'self.z'), (f'{kb}.O', 'self.O')):
        r.trace()
        got = reach(mod, a)
        r.check(b in got, 'hardware', lambda: f'{case}: {a} is connected to {sorted(got)}, not {b}')


def main(run):
    thorough = lib.thorough()
    have = {k for k in AbstractFPVector.__dict__ if k.startswith('fp_')}
    if have != set(OPS):
        raise lib.HarnessError(f'operations of the number system: {have ^ set(OPS)}')
    small = [(2, 1, True), (2, 1, False)]
    mid = [(2, 2, True), (3, 1, False), (3, 2, True)]
    if thorough:
        mid += [(3, 2, False), (2, 3, True), (3, 1, True), (2, 2, False)]
    cases = []
    for fmt in small + mid:
        for op, n in OPS.items():
            if n == 3 and fmt not in (small + [(2, 2, True)] if thorough else small):
                continue
            if n == 2 and not thorough and (fmt in mid[2:] or fmt in mid and op not in ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_lt')):
                continue
            for m in MODES:
                cases.append((fmt, op, m))
    cases.sort(key=lambda c: -OPS[c[1]] * (c[0][0] + c[0][1] + 1))
    run.explore('values', values, cases, chunk=3)
    std = [(5, 10, True), (8, 7, False), (8, 23, True), (11, 52, True)] + ([(8, 7, True), (8, 23, False), (4, 3, True), (15, 112, True)] if thorough else [])
    run.explore('standard', values, [(fmt, op, m, 'large') for fmt in std for op in OPS for m in MODES], chunk=6)
    run.explore('modes', modes, ['PyX', 'SMT'])
    run.explore('symbolic', symbolic, [((2, 1, True), m) for m in MODES] + [((7, 8, False), m) for m in (MODES if thorough else ['RUP'])])
    run.explore('identity', identity, ['Py', 'PyX', 'SMT'])
    run.explore('hardware', hardware, [(e, f, op, m) for e, f in ((8, 7), (7, 8), (5, 10), (3, 4)) for op in ('fp_add', 'fp_mul', 'fp_sub', 'fp_lt')
                                       for m in ('RNE', 'RTZ', 'RDN')])
    run.explore('hardware_pair', hardware_pair, [('fp_add', 'fp_mul'), ('fp_mul', 'fp_add')])
    run.assumptions = ['hwtypes FPVector is the number system (validated against exact rational arithmetic where the result is finite)',
                       'symbolically the elements are black boxes (C09)', 'hardware exists for addition and multiplication, round to nearest even']
    run.bounds = {'formats': [list(x) for x in small + mid], 'formats with chosen operands': [list(x) for x in std], 'operations': len(OPS), 'modes': 5}
