"""Processing elements and small programs for the mapper, with an independent
model of the functions they compute (integer lambdas tabulated over all leaf
words) and of the set of correct rewrite rules between them."""
import itertools as it
import numpy as np
from hwtypes import Bit, BitVector
from hwtypes.adt import Product
from peak import Const
from peak.mapper import Unbound
from mc import pegen, shapes as S

W = 2
M = 3
D, B, SD = ('bv', W), ('bit',), ('s', W)
OP2 = S.ints(0, 1)
OP3 = S.ints(0, 1, 3)             # code 2 is not an operation
OP5 = S.ints(0, 1, 2, 5, 6)       # 3, 4 and 7 are not
LEAF = ('bit', 'bv', 's', 'u', 'enum')


def forms_of(d, path=()):
    """[leaves]: leaves [(path, shape)] of every form of shape d"""
    if d[0] in LEAF:
        return [[(path, d)]]
    if d[0] in ('tuple', 'prod'):
        return [sum(c, []) for c in it.product(*(forms_of(f, path + (k,)) for k, f in S.fields(d)))]
    return [l for k, f in S.fields(d) for l in forms_of(f, path + (k,))]


def words(d):
    """(number of words, valid words)"""
    n = 1 << S.width(d)
    if d[0] == 'enum':
        return n, sorted(S.enum_codes(d).values())
    return n, list(range(n))


class Leaf:
    def __init__(self, path, shape, const):
        self.path, self.shape, self.const = path, shape, const
        self.n, self.valid = words(shape)
        self.type = (shape, const)

    def __repr__(self):
        return '.'.join(str(p) for p in self.path)


class Form:
    def __init__(self, index, leaves):
        self.index, self.leaves = index, leaves


class PE:
    """inputs: [(name, shape, const)]; outputs: shapes, with oname the names
    given by name_outputs (or None); model(form index, *leaf words) -> tuple of
    output leaf words, leaves in declaration order"""
    def __init__(self, name, inputs, outputs, body, model, onames=None, tables=True, pre='', init='', extra=None, constpaths=(), real=None, box=None, ns=None):
        self.name, self.inputs, self.outputs, self.body, self.model, self.onames = name, inputs, outputs, body, model, onames
        self.pre, self.init, self.extra, self.real = pre, init, extra or {}, real or {}
        self.box, self.ns = box, ns or {}
        self.forms = []
        for i, combo in enumerate(it.product(*(forms_of(d, (n,)) for n, d, c in inputs))):
            lv = []
            for (n, d, c), part in zip(inputs, combo):
                lv += [Leaf(p, s, c or p in constpaths) for p, s in part]
            self.forms.append(Form(i, lv))
        self.out_leaves = []
        for i, d in enumerate(outputs):
            key = onames[i] if onames else i
            fs = forms_of(d, (key,))
            assert len(fs) == 1
            self.out_leaves += [Leaf(p, s, False) for p, s in fs[0]]
        self._fc = None

    def tabulate(self):
        for f in self.forms:
            if self.box:
                f.tables = [self.tab(f, g) for g in BOXES[self.box]]
                f.table = f.tables[REAL[self.box]]
            else:
                f.table = self.tab(f, None)
        return self

    def tab(self, f, g):
        dims = [l.n for l in f.leaves]
        tab = np.zeros((len(self.out_leaves),) + tuple(dims), dtype=np.int64)
        for ix in np.ndindex(*dims):
            out = self.model(f.index, *ix) if g is None else self.model(g, f.index, *ix)
            if not isinstance(out, tuple):
                out = (out,)
            for o, (v, l) in enumerate(zip(out, self.out_leaves)):
                tab[(o,) + ix] = int(v) & (l.n - 1)
        return tab

    # ---- the real thing
    def source(self):
        names = {}
        def t(d, const):
            if d == D:
                s = 'D'
            elif d == B:
                s = 'Bit_'
            elif d == SD:
                s = 'SD'
            else:
                s = pegen.tname(d, names)
            return f'Const({s})' if const else s
        args = ', '.join(f'{n}: {t(d, c)}' for n, d, c in self.inputs)
        outs = [t(d, False) for d in self.outputs]
        ret = outs[0] if len(outs) == 1 else '(' + ', '.join(outs) + ')'
        # names usable in the body: T0, T1 ... in order of the inputs, then the
        # shapes in `extra`
        ns = {n: self.real.get(d) or S.build(d) for d, n in names.items()}
        ns.update(self.ns)
        for n, d in self.extra.items():
            ns[n] = d if isinstance(d, type) else S.build(d)
        ctor = ''.join(f'    {n}_c = family.get_constructor({n})\n' for n, d in ns.items() if n not in self.ns
                       and not isinstance(self.extra.get(n), type) and any(S.build(x) is d and x[0] in ('prod', 'tuple', 'sum', 'tu') for x in self.outputs))
        deco = f'        @name_outputs({", ".join(f"{n}={o}" for n, o in zip(self.onames, outs))})\n' if self.onames else ''
        src = f'''
@family_closure
def PE_fc(family):
    D = family.BitVector[{W}]
    SD = family.Signed[{W}]
    UD = family.Unsigned[{W}]
    Bit_ = family.Bit
{self.pre}{ctor}    @family.assemble(locals(), globals())
    class {self.name}(Peak):
{self.init}{deco}        def __call__(self, {args}) -> {ret}:
''' + ''.join(f'            {l}\n' for l in self.body.strip('\n').split('\n')) + '''
    return ''' + self.name + '\n'
        return src, ns

    @property
    def fc(self):
        if self._fc is None:
            src, ns = self.source()
            self._fc = pegen.load(src, ns).PE_fc
        return self._fc


# ------------------------------------------------------------------ templates

def ite(c, a, b):
    return a if c else b


def sgn(x):
    return x - 4 if x & 2 else x


def alu(op, a, b):
    return ite(op == 0, a + b, ite(op == 1, a - b, a & b))


ALU = '''if {op} == {T}.m0:
    r = {a} + {b}
elif {op} == {T}.m1:
    r = {a} - {b}
else:
    r = {a} & {b}
'''


def archs():
    out = []
    def add(*a, **k):
        out.append(PE(*a, **k))
    # one constant operation
    add('Alu', [('inst', OP3, True), ('a', D, False), ('b', D, False)], [D],
        ALU.format(op='inst', T='T0', a='a', b='b') + 'return r',
        lambda f, op, a, b: alu(op, a, b))
    # immediate, two outputs of different types
    P = S.prod(OP3, B, D)
    add('Imm', [('inst', P, True), ('a', D, False), ('b', D, False)], [D, B],
        'if inst.y:\n    c = inst.x\nelse:\n    c = b\n' + ALU.format(op='inst.z', T='O', a='a', b='c') + 'return r, r == 0',
        lambda f, op, s, i, a, b: (lambda r: (r, r & 3 == 0))(alu(op, a, i if s else b)), onames=('o', 'z'), extra={'O': OP3})
    # untagged union of instructions
    P = S.prod(B, D)
    U = S.sum_(OP3, P)
    add('Sum', [('a', D, False), ('inst', U, True), ('b', D, False)], [D],
        'if inst[O].match:\n    k = inst[O].value\n' + ''.join('    ' + l + '\n' for l in ALU.format(op='k', T='O', a='a', b='b').strip().split('\n'))
        + 'else:\n    p = inst[P].value\n    if p.z:\n        r = a + p.y\n    else:\n        r = a ^ p.y\nreturn r',
        lambda f, *l: (lambda a, op, b: alu(op, a, b))(*l) if f == 0 else (lambda a, s, i, b: a + i if s else a ^ i)(*l), extra={'O': OP3, 'P': P})
    # tagged union with two alternatives of the same type
    U = S.tu(D, D, B)
    add('Tagged', [('inst', U, True), ('a', D, False), ('b', D, False)], [D],
        'if inst.z.match:\n    r = a + inst.z.value\nelif inst.y.match:\n    r = a & inst.y.value\nelse:\n    r = a | b\n    if inst.x.value:\n        r = ~a\nreturn r',
        lambda f, i, a, b: (a + i, a & i, ~a if i else a | b)[f])
    # no constants at all
    add('Plain', [('a', D, False), ('b', D, False)], [D], 'return a & ~b', lambda f, a, b: a & ~b)
    # compound data in and out
    Q = S.prod(D, S.tup(B, D))
    R = S.prod(B, D)
    add('Nest', [('k', B, True), ('q', Q, False)], [R, D],
        'p = q.y\nx = q.z\nif k:\n    x = p[1] - x\nreturn R_c(z=p[0] ^ k, y=x), x & p[1]',
        lambda f, k, z, y0, y1: (lambda x: (y0 ^ k, x, x & y1))(y1 - z if k else z), onames=('p', 'x'), extra={'R': R})
    # constants that are plain words and bits
    add('Top', [('c', B, True), ('k', D, True), ('a', D, False)], [D],
        'if c:\n    r = a + k\nelse:\n    r = k & ~a\nreturn r', lambda f, c, k, a: a + k if c else k & ~a)
    # a union as data: how the data is given is part of the rule
    U = S.sum_(D, B)
    add('Data', [('op', OP3, True), ('x', U, False), ('a', D, False)], [D],
        'v = a\nif x[D_].match:\n    v = x[D_].value\nelse:\n    if x[B_].value:\n        v = ~a\n' + ALU.format(op='op', T='T0', a='a', b='v') + 'return r',
        lambda f, op, x, a: alu(op, a, x) if f == S.fields(S.sum_(D, B)).index((S.build(D), D)) else alu(op, a, ~a if x else a), extra={'D_': D, 'B_': B})
    # two outputs of one type
    add('Two', [('inst', OP2, True), ('a', D, False), ('b', D, False)], [D, D],
        'x = a + b\ny = a - b\nif inst == T0.m1:\n    x = a & b\nreturn x, y', lambda f, op, a, b: (a & b if op == 1 else a + b, a - b))
    # three operands of one type
    add('Mac', [('inst', OP2, True), ('a', D, False), ('b', D, False), ('c', D, False)], [D, B],
        'if inst == T0.m0:\n    r = (a & b) + c\nelse:\n    r = a - (b ^ c)\nreturn r, r[1]',
        lambda f, op, a, b, c: (lambda r: (r, r >> 1 & 1))(((a & b) + c if op == 0 else a - (b ^ c)) & 3))
    # signed operands, and two types of the same width
    add('Signed', [('inst', OP3, True), ('a', SD, False), ('b', SD, False), ('c', D, False)], [SD, B, D],
        'if inst == T0.m0:\n    r = a + b\nelif inst == T0.m1:\n    r = a >> b\nelse:\n    r = a\nreturn r, a < b, c ^ 1',
        lambda f, op, a, b, c: (a + b if op == 0 else sgn(a) >> b if op == 1 else a, sgn(a) < sgn(b), c ^ 1))
    # an operation as data
    add('OpData', [('k', D, True), ('op', OP3, False), ('a', D, False)], [D],
        ALU.format(op='op', T='T0', a='a', b='k') + 'return r', lambda f, k, op, a: alu(op, a, k), extra={})
    # an instruction with many fields, only some of which matter
    P = S.prod(OP5, S.tup(B, B), D)
    add('Wide', [('inst', P, True), ('a', D, False)], [B, D],
        'r = a\nt = inst.y\nif t[0]:\n    r = ~a\nif inst.z == O.m0:\n    r = r + inst.x\nelif inst.z == O.m1:\n    r = r & inst.x\nelif inst.z == O.m2:\n    r = r << inst.x\n'
        'elif inst.z == O.m5:\n    r = inst.x - r\nif t[1]:\n    r = r ^ 1\nreturn r[0], r',
        lambda f, op, t0, t1, i, a: wide(op, t0, t1, i, a), extra={'O': OP5})
    # a record that mixes constants and data
    P = S.prod(OP3, D)
    add('Mixed', [('p', P, False), ('a', D, False)], [D],
        ALU.format(op='p.z', T='O', a='a', b='p.y') + 'return r', lambda f, op, b, a: alu(op, a, b), extra={'O': OP3},
        constpaths=(('p', 'z'),), real={P: Product.from_fields('MixedP', {'z': Const(S.build(OP3)), 'y': S.build(D)})})
    # many forms
    U = S.tu(D, B, D, B, D, D, B, D, B)
    alts = [('a + {v}', lambda a, b, i: a + i), ('{v}.ite(a, ~a)', lambda a, b, i: a if i else ~a), ('a - {v}', lambda a, b, i: a - i), ('{v}.ite(a & b, a | b)', lambda a, b, i: a & b if i else a | b),
            ('a & {v}', lambda a, b, i: a & i), ('{v} - a', lambda a, b, i: i - a), ('{v}.ite(b, a - b)', lambda a, b, i: b if i else a - b), ('(a ^ b) + {v}', lambda a, b, i: (a ^ b) + i),
            ('{v}.ite(a << 1, ~b)', lambda a, b, i: a << 1 if i else ~b)]
    body = ''.join(f'{"el" if i else ""}if inst.{S.fieldname(U, i)}.match:\n    r = {e.format(v=f"inst.{S.fieldname(U, i)}.value")}\n' if i < 8 else f'else:\n    r = {e.format(v="inst.k8.value")}\n'
                   for i, (e, _) in enumerate(alts))
    add('Forms', [('a', D, False), ('inst', U, True), ('b', D, False)], [D], body + 'return r', lambda f, a, i, b: alts[f][1](a, b, i))
    # the word of an operation that is not one would do something useful
    add('Hole', [('inst', OP3, True), ('a', D, False), ('b', D, False)], [D],
        'r = a | b\nif inst == T0.m0:\n    r = a & b\nelif inst == T0.m1:\n    r = a\nelif inst == T0.m3:\n    r = b\nreturn r',
        lambda f, op, a, b: (a & b, a, a | b, b)[op])
    return out


def wide(op, t0, t1, i, a):
    r = ~a & 3 if t0 else a
    if op == 0:
        r = r + i
    elif op == 1:
        r = r & i
    elif op == 2:
        r = r << i
    elif op == 5:
        r = i - r
    if t1:
        r ^= 1
    r &= 3
    return r & 1, r


def irs():
    out = []
    def sig(tag, inputs, outputs, exprs, onames=None):
        for i, (src, fn) in enumerate(exprs):
            out.append(PE(f'I{tag}{i}', inputs, outputs, 'return ' + src, (lambda fn: lambda f, *l: fn(*l))(fn), onames=onames))
    x, y, z = ('in0', D, False), ('in1', D, False), ('in2', D, False)
    sig('U', [x], [D], [('in0', lambda a: a), ('~in0', lambda a: ~a), ('-in0', lambda a: -a), ('in0 + 1', lambda a: a + 1), ('in0 + 2', lambda a: a + 2),
                        ('in0 & 2', lambda a: a & 2), ('in0 ^ 1', lambda a: a ^ 1), ('in0 | 1', lambda a: a | 1), ('in0 << 1', lambda a: a << 1),
                        ('D(1) - in0', lambda a: 1 - a), ('D(2)', lambda a: 2), ('in0 & 0', lambda a: 0)])
    sig('B', [x, y], [D], [('in0 + in1', lambda a, b: a + b), ('in0 - in1', lambda a, b: a - b), ('in1 - in0', lambda a, b: b - a), ('in0 & in1', lambda a, b: a & b),
                           ('in0 & ~in1', lambda a, b: a & ~b), ('in1 & ~in0', lambda a, b: b & ~a), ('in0 | in1', lambda a, b: a | b), ('in0 ^ in1', lambda a, b: a ^ b),
                           ('in1', lambda a, b: b), ('in0 * in1', lambda a, b: a * b), ('~(in0 + in1)', lambda a, b: ~(a + b))], onames=('out',))
    sig('P', [x, y], [B], [('in0 == in1', lambda a, b: a == b), ('(in0 & in1) == 0', lambda a, b: a & b == 0)])
    sig('Z', [x], [B], [('in0 == 0', lambda a: a == 0), ('in0 == 2', lambda a: a == 2), ('in0[0]', lambda a: a & 1), ('in0[1]', lambda a: a >> 1)])
    sig('Q', [x, y], [D, B], [('in0 + in1, (in0 + in1) == 0', lambda a, b: (a + b, (a + b) & 3 == 0)), ('in0 - in1, in0 == in1', lambda a, b: (a - b, a == b)), ('in0 - in1, in0[0]', lambda a, b: (a - b, a & 1))])
    sig('R', [x, y], [D, D], [('in0 + in1, in0 - in1', lambda a, b: (a + b, a - b)), ('in1 - in0, in0 & in1', lambda a, b: (b - a, a & b)), ('in0 - in1, in1 - in0', lambda a, b: (a - b, b - a))])
    sig('K', [x, ('k', D, True)], [D], [('in0 + k', lambda a, k: a + k), ('in0 - k', lambda a, k: a - k), ('k - in0', lambda a, k: k - a), ('in0 & k', lambda a, k: a & k), ('k & ~in0', lambda a, k: k & ~a),
                                        ('in0 ^ k', lambda a, k: a ^ k)])
    sig('T', [x, y, z], [D], [('(in1 & in2) + in0', lambda a, b, c: (b & c) + a), ('in2 - (in0 ^ in1)', lambda a, b, c: c - (a ^ b)), ('in0 + in1 + in2', lambda a, b, c: a + b + c)])
    s, t = ('in0', SD, False), ('in1', SD, False)
    sig('S', [s, t], [SD], [('in0 + in1', lambda a, b: a + b), ('in0 >> in1', lambda a, b: sgn(a) >> b), ('in1 - in0', lambda a, b: b - a)])
    sig('L', [s, t], [B], [('in0 < in1', lambda a, b: sgn(a) < sgn(b)), ('in1 <= in0', lambda a, b: sgn(b) <= sgn(a)), ('in0 > in1', lambda a, b: sgn(a) > sgn(b))])
    sig('G', [s, t, ('x', D, False)], [D, SD], [('x ^ 1, in0', lambda a, b, x: (x ^ 1, a))])
    sig('C', [('c', B, False), x], [D], [('in0 + 0', lambda c, a: a), ('c.ite(in0, in0 + 1)', lambda c, a: a if c else a + 1), ('c.ite(~in0 & in0, in0)', lambda c, a: 0 if c else a)])
    sig('N', [('c', B, False), x, y], [D, B], [('in1 - in0, ~c', lambda c, a, b: (b - a, 1 - c)), ('in0, c', lambda c, a, b: (a, c)), ('in0 & in1, c', lambda c, a, b: (a & b, c))])
    sig('M', [('c', B, False), x, y], [D, D, B], [('in1 - in0, (in1 - in0) & in1, ~c', lambda c, a, b: (b - a, (b - a) & b, 1 - c)), ('in0 & in1, in0, c', lambda c, a, b: (a & b, a, c)),
                                                  ('in0 & in1, in0, ~c', lambda c, a, b: (a & b, a, 1 - c))])
    sig('E', [('e', OP3, False), x], [D], [('in0', lambda e, a: a), ('in0 & 1', lambda e, a: a & 1)])
    out.append(PE('IE9', [('e', OP3, False), x], [D], ALU.format(op='e', T='T0', a='in0', b='D(1)') + 'return r', lambda f, op, a: alu(op, a, 1)))
    sig('X', [('c', B, True), x], [D], [('c.ite(in0 + 1, in0 & 1)', lambda c, a: a + 1 if c else a & 1), ('c.ite(in0 + 1, ~in0 & 1)', lambda c, a: a + 1 if c else ~a & 1)])
    # compound inputs and outputs
    Pq = S.prod(D, D)
    out.append(PE('IV0', [('p', Pq, False)], [D], 'return p.z - p.y', lambda f, a, b: a - b))
    out.append(PE('IV1', [('p', Pq, False)], [S.prod(D, B)], 'r = p.y - p.z\nreturn R_c(z=r, y=r == 0)', lambda f, a, b: (b - a, (b - a) & 3 == 0), extra={'R': S.prod(D, B)}))
    return out


# -------------------------------------------------------------- black boxes

# what a black box could be: all functions of its type (functions are given as
# calls over integers); REAL is the one its body computes
BOXES = {
    'F': [(lambda k: lambda x: k >> 2 * x & 3)(k) for k in range(256)],                 # word -> word
    'G': [(lambda k: lambda c, x: k >> (c + 2 * x) & 1)(k) for k in range(256)],        # bit, word -> bit
    'P': [(lambda k: lambda c: (k >> 2 * c & 1, k >> (2 * c + 1) & 1))(k) for k in range(16)],   # bit -> bit, bit
    'FF': [(lambda k, m: (lambda x: k >> 2 * x & 3, lambda x: m >> 2 * x & 3))(k, m)
           for k in range(0, 256, 11) for m in range(0, 256, 13)],                        # two different boxes of one type
}
REAL = {'F': 0b10110001, 'G': 0b01101001, 'P': 0b0110, 'FF': 0}

BOX_SRC = """
from peak.black_box import BlackBox
@family_closure
def F_fc(family):
    D = family.BitVector[2]
    @family.assemble(locals(), globals())
    class F(Peak, BlackBox):
        def __call__(self, x: D) -> D:
            r = D({f})
            if x == 0:
                r = D({f0})
            elif x == 1:
                r = D({f1})
            elif x == 2:
                r = D({f2})
            return r
    return F
@family_closure
def F2_fc(family):
    D = family.BitVector[2]
    @family.assemble(locals(), globals())
    class F2(Peak, BlackBox):
        def __call__(self, x: D) -> D:
            return D(0)
    return F2
@family_closure
def F3_fc(family):
    D = family.BitVector[2]
    @family.assemble(locals(), globals())
    class F3(Peak, BlackBox):
        def __call__(self, x: D) -> D:
            return D(0)
    return F3
@family_closure
def G_fc(family):
    D = family.BitVector[2]
    B = family.Bit
    @family.assemble(locals(), globals())
    class G(Peak, BlackBox):
        def __call__(self, c: B, x: D) -> B:
            return x[0] ^ x[1] ^ c ^ B(1)
    return G
@family_closure
def P_fc(family):
    B = family.Bit
    @family.assemble(locals(), globals())
    class P(Peak, BlackBox):
        @name_outputs(s=B, t=B)
        def __call__(self, c: B) -> (B, B):
            return c, ~c
    return P
@family_closure
def Wrap_fc(family):
    D = family.BitVector[2]
    F = F_fc(family)
    @family.assemble(locals(), globals())
    class Wrap(Peak):
        def __init__(self):
            self.inner: F = F()
        def __call__(self, x: D) -> D:
            return self.inner(x) + 1
    return Wrap
"""
_real = [BOXES['F'][REAL['F']](x) for x in range(4)]
assert [BOXES['G'][REAL['G']](c, x) for x in range(4) for c in range(2)] == [(x & 1) ^ (x >> 1) ^ c ^ 1 for x in range(4) for c in range(2)]
assert [BOXES['P'][REAL['P']](c) for c in range(2)] == [(c, 1 - c) for c in range(2)]
_boxes = []


def boxes():
    if not _boxes:
        _boxes.append(pegen.load(BOX_SRC.format(f0=_real[0], f1=_real[1], f2=_real[2], f=_real[3]), {}))
    m = _boxes[0]
    return {k: getattr(m, k) for k in ('F_fc', 'F2_fc', 'F3_fc', 'G_fc', 'P_fc', 'Wrap_fc')}


def pre(**kw):
    return ''.join(f'    {c} = {c}_fc(family)\n' for c in dict.fromkeys(kw.values()))


def init(**kw):
    return '        def __init__(self):\n' + ''.join(f'            self.{a}: {c} = {c}()\n' for a, c in kw.items())


def boxed(name, box, members, inputs, outputs, body, model, **kw):
    return PE(name, inputs, outputs, body, model, box=box, pre=pre(**members), init=init(**members), ns=boxes(), **kw)


def box_archs():
    a, b, c = ('a', D, False), ('b', D, False), ('c', B, False)
    return [
        boxed('BxOne', 'F', dict(f='F'), [('inst', OP3, True), a, b], [D],
              'v = self.f(a)\nr = a + b\nif inst == T0.m0:\n    r = v + b\nelif inst == T0.m1:\n    r = v\nreturn r',
              lambda g, f, op, a, b: (g(a) + b if op == 0 else g(a) if op == 1 else a + b)),
        boxed('BxTwo', 'F', dict(f='F', h='F'), [('inst', S.prod(B, OP3), True), a, b], [D],
              'y = self.f(a)\nx = b\nif inst.z:\n    x = y\nz = self.h(x)\nr = z\nif inst.y == O.m0:\n    r = y + z\nelif inst.y == O.m1:\n    r = y ^ z\nreturn r',
              lambda g, f, s, op, a, b: (lambda y: (lambda z: y + z if op == 0 else y ^ z if op == 1 else z)(g(y if s else b)))(g(a)), extra={'O': OP3}),
        boxed('BxDeep', 'F', dict(w='Wrap', f='F'), [('k', B, True), a, b], [D, D],
              'u = self.w(a)\nv = self.f(b)\nx = u\nif k:\n    x = u - 1\nreturn x, v',
              lambda g, f, k, a, b: (g(a) if k else g(a) + 1, g(b))),
        boxed('BxG', 'G', dict(m='G'), [('inst', OP3, True), c, a], [B, D],
              'v = self.m(c, a)\nr = a\nif inst == T0.m0:\n    r = ~a\nif inst == T0.m3:\n    v = ~v\nreturn v, r',
              lambda g, f, op, c, a: (g(c, a) ^ (op == 3), ~a if op == 0 else a)),
        boxed('BxPair', 'P', dict(p='P'), [('inst', OP2, True), c], [B],
              's, t = self.p(c)\nr = s\nif inst == T0.m1:\n    r = s ^ t\nreturn r',
              lambda g, f, op, c: g(c)[0] ^ (g(c)[1] if op == 1 else 0)),
        boxed('BxKinds', 'FF', dict(f='F2', g='F3'), [('inst', OP2, True), a, b], [D],
              'u = self.f(a)\nv = self.g(b)\nr = u\nif inst == T0.m1:\n    r = u + v\nreturn r',
              lambda g, f, op, a, b: g[0](a) + (g[1](b) if op == 1 else 0)),
    ]


def box_irs():
    x, y, c = ('in0', D, False), ('in1', D, False), ('c', B, False)
    out = []
    def add(n, box, members, inputs, outputs, src, fn, onames=None):
        out.append(boxed(n, box, members, inputs, outputs, src if 'return' in src else 'return ' + src, lambda g, f, *l: fn(g, *l), onames=onames))
    F1, F2 = dict(f='F'), dict(f='F', k='F')
    add('J0', 'F', F1, [x], [D], 'self.f(in0)', lambda g, x: g(x))
    add('J1', 'F', F1, [x, y], [D], 'self.f(in1) + in0', lambda g, x, y: g(y) + x)
    add('J2', 'F', F1, [x], [D], 'self.f(in0 + 1)', lambda g, x: g(x + 1 & 3))
    add('J3', 'F', F2, [x], [D], 'self.k(self.f(in0))', lambda g, x: g(g(x)))
    add('J4', 'F', F2, [x, y], [D], 'self.f(in0) + self.k(in1)', lambda g, x, y: g(x) + g(y), ('out',))
    add('J5', 'F', F2, [x], [D], 'u = self.f(in0)\nreturn u ^ self.k(u)', lambda g, x: g(x) ^ g(g(x)))
    add('J6', 'F', F2, [x, y], [D], 'self.f(in0) - self.k(in0) + in1', lambda g, x, y: y)
    add('J7', 'F', F2, [x, y], [D], 'self.k(in0) - self.f(in0) + self.f(in1)' if False else 'u = self.k(in0)\nv = self.f(in0)\nreturn (u & v) + in1', lambda g, x, y: g(x) + y)
    add('J8', 'F', F2, [x, y], [D, D], 'self.f(in1), self.k(in0)', lambda g, x, y: (g(y), g(x)))
    add('JW', 'F', dict(w='Wrap'), [x], [D], 'self.w(in0)', lambda g, x: g(x) + 1)
    Gm = dict(m='G')
    add('K0', 'G', Gm, [c, x], [B], 'self.m(c, in0)', lambda g, c, x: g(c, x))
    add('K1', 'G', Gm, [c, x], [D, B], 'v = self.m(c, in0)\nreturn in0, ~v', lambda g, c, x: (x, 1 - g(c, x)))
    add('K2', 'G', Gm, [x, c], [B], 'self.m(~c, in0)', lambda g, x, c: g(1 - c, x))
    add('K3', 'G', Gm, [c, x], [B, D], 'self.m(c, in0), ~in0', lambda g, c, x: (g(c, x), ~x))
    Pm = dict(p='P')
    add('Q0', 'P', Pm, [c], [B], 's, t = self.p(c)\nreturn s', lambda g, c: g(c)[0])
    add('Q1', 'P', Pm, [c], [B], 's, t = self.p(c)\nreturn t', lambda g, c: g(c)[1])
    add('Q2', 'P', Pm, [c], [B], 's, t = self.p(c)\nreturn t ^ s', lambda g, c: g(c)[1] ^ g(c)[0])
    add('R0', 'FF', dict(f='F2'), [x], [D], 'self.f(in0)', lambda g, x: g[0](x))
    add('R1', 'FF', dict(f='F3'), [x], [D], 'self.f(in0)', lambda g, x: g[1](x))
    add('R2', 'FF', dict(f='F3', k='F2'), [x, y], [D], 'self.f(in0) + self.k(in1)', lambda g, x, y: g[1](x) + g[0](y))
    return out


def box_pairs(archs, irs, plain):
    """(element, program) pairs worth asking: same boxes, or one side without"""
    out = []
    for a in archs:
        for i in irs:
            if i.box == a.box:
                out.append((a, i))
        out += [(a, i) for i in plain]
    return out


# ------------------------------------------------------- the set of correct rules

def injections(srcs, dsts):
    """all ways to give every source its own destination of the same type:
    {destination index: source index}"""
    def rec(i, used):
        if i == len(srcs):
            yield {}
            return
        for j, d in enumerate(dsts):
            if j not in used and d.type == srcs[i].type:
                for m in rec(i + 1, used | {j}):
                    yield {j: i, **m}
    yield from rec(0, frozenset())


def holds(arch, form, ir, imap, omap, constraints=None, domain='all', given=()):
    """boolean array over the words of the arch leaves that get a value (the
    constants that are not inputs of the program, and those in `given`): does
    the rule hold for them (whatever the black boxes compute)?  Axes: those
    leaves in order."""
    irf = ir.forms[0]
    if not arch.box and not ir.box:
        return _holds(arch, form, form.table, ir, irf.table, imap, omap, constraints, domain, given)
    out = None
    for n in range(len(BOXES[arch.box or ir.box])):
        fixed, ok = _holds(arch, form, form.tables[n] if arch.box else form.table, ir, irf.tables[n] if ir.box else irf.table, imap, omap, constraints, domain, given)
        out = ok if out is None else out & ok
        if not out.any():
            break
    return fixed, out


def _holds(arch, form, table, ir, irtable, imap, omap, constraints, domain, given):
    constraints = constraints or {}
    irf = ir.forms[0]
    lv = form.leaves
    fixed = [j for j, l in enumerate(lv) if j not in imap and (l.const or j in given)]
    free = [j for j, l in enumerate(lv) if j not in imap and not l.const and j not in given]
    bound = sorted((i, j) for j, i in imap.items())
    order = fixed + [j for _, j in bound] + free
    ok = True
    for ai, ii in omap.items():
        t = np.transpose(table[ai], order)
        for pos, j in enumerate(free):
            l = lv[j]
            dom = constraints.get(l.path, l.valid if domain == 'valid' else range(l.n))
            t = np.take(t, list(dom), axis=len(fixed) + len(bound) + pos)
        w = irtable[ii].reshape((1,) * len(fixed) + irtable[ii].shape + (1,) * len(free))
        eq = t == w
        if domain == 'valid':
            for pos, l in enumerate(irf.leaves):
                eq = np.take(eq, l.valid, axis=len(fixed) + pos)
        ok = ok & eq.all(axis=tuple(range(len(fixed), eq.ndim)))
    ok = np.array(ok)
    for pos, j in enumerate(fixed):
        l = lv[j]
        mask = np.zeros(l.n, dtype=bool)
        mask[[v for v in l.valid if v in constraints.get(l.path, range(l.n))]] = True
        shape = [1] * len(fixed)
        shape[pos] = l.n
        ok = ok & mask.reshape(shape)
    return fixed, ok


def rules(arch, ir, constraints=None, domain='all', stop=False):
    """all correct rules: [(form, imap, omap, fixed, array)]"""
    out = []
    constraints = constraints or {}
    omaps = list(injections(ir.out_leaves, arch.out_leaves))
    for form in arch.forms:
        for imap in injections(ir.forms[0].leaves, form.leaves):
            if any(form.leaves[j].path in constraints for j in imap):
                continue
            for omap in omaps:
                fixed, ok = holds(arch, form, ir, imap, omap, constraints, domain)
                if ok.any():
                    out.append((form, imap, omap, fixed, ok))
                    if stop:
                        return out
    return out


def candidates(arch, ir):
    return sum(1 for form in arch.forms for _ in injections(ir.forms[0].leaves, form.leaves)) * sum(1 for _ in injections(ir.out_leaves, arch.out_leaves))


# ------------------------------------------------ reading and running rules

def word(x):
    """int of a constant in a rule"""
    return pegen.val(x)


def leafval(shape, v):
    """what a caller passes for a leaf: enumerations travel as their word"""
    if shape[0] == 'enum':
        return BitVector[S.width(shape)](v)
    return S.build(shape)(v)


def member(shape, v):
    """the plain value of a valid leaf word"""
    if shape[0] == 'enum':
        n = {c: n for n, c in S.enum_codes(shape).items()}[v]
        return S.make(shape, n)
    return v


def parse(rr, arch, ir, bad):
    """(form, imap, omap, {leaf index: word}) of a rule; bad(msg) reports"""
    paths = [p for _, p in rr.ibinding]
    form = [f for f in arch.forms if {l.path for l in f.leaves} == set(paths)]
    if len(form) != 1 or len(paths) != len(set(paths)):
        return bad(f'the rule binds {paths}, not the leaves of one form')
    form = form[0]
    idx = {l.path: j for j, l in enumerate(form.leaves)}
    irl = {l.path: i for i, l in enumerate(ir.forms[0].leaves)}
    imap, given = {}, {}
    for p, q in rr.ibinding:
        j = idx[q]
        l = form.leaves[j]
        if isinstance(p, tuple):
            if p not in irl or ir.forms[0].leaves[irl[p]].type != l.type:
                return bad(f'{p} given to {q}')
            if irl[p] in imap.values():
                return bad(f'{p} given twice')
            imap[j] = irl[p]
        elif p is Unbound:
            if l.const:
                return bad(f'constant {q} left open')
        else:
            if (Bit if l.shape[0] == 'bit' else BitVector[S.width(l.shape)]) not in type(p).__mro__ and not isinstance(p, BitVector):
                return bad(f'{q} gets a {type(p)}')
            given[j] = word(p)
            if given[j] not in l.valid:
                return bad(f'{q} gets {given[j]}, which encodes nothing')
    if set(imap.values()) != set(range(len(irl))):
        return bad('an input of the program is not used')
    aol = {l.path: i for i, l in enumerate(arch.out_leaves)}
    iol = {l.path: i for i, l in enumerate(ir.out_leaves)}
    omap = {}
    if len({q for _, q in rr.obinding}) != len(rr.obinding):
        return bad('an output is bound twice')
    for p, q in rr.obinding:
        if p is Unbound:
            continue
        if q not in aol or p not in iol or arch.out_leaves[aol[q]].type != ir.out_leaves[iol[p]].type:
            return bad(f'output {p} taken from {q}')
        if iol[p] in omap.values():
            return bad(f'output {p} taken twice')
        omap[aol[q]] = iol[p]
    if set(omap.values()) != set(range(len(iol))):
        return bad('an output of the program is not produced')
    return form, imap, omap, given


def correct(arch, ir, rule):
    form, imap, omap, given = rule
    fixed, ok = holds(arch, form, ir, imap, omap, given=given)
    return bool(ok[tuple(given[j] for j in fixed)])


def flat(pe, result):
    """output leaves of a real result"""
    if len(pe.outputs) == 1:
        result = (result,)
    out = []
    def walk(d, x):
        if d[0] in LEAF:
            out.append(word(x))
        else:
            for k, f in S.fields(d):
                walk(f, getattr(x, k) if d[0] == 'prod' else x[k])
    for d, x in zip(pe.outputs, result):
        walk(d, x)
    return tuple(out)


def execute(rr, arch, ir, rule, fam, limit):
    """run the rule on the real elements over all inputs (the first and last
    `limit` of them): yields (inputs, program outputs, element outputs)"""
    form, imap, omap, given = rule
    irl = ir.forms[0].leaves
    free = [j for j in range(len(form.leaves)) if j not in imap and j not in given]
    alls = list(it.product(*(l.valid for l in irl), *(form.leaves[j].valid for j in free)))
    if len(alls) > limit:
        alls = alls[:limit // 2] + alls[-(limit // 2):]
    ipe, ape = ir.fc(fam)(), arch.fc(fam)()
    for ws in alls:
        iv = {l.path: leafval(l.shape, w) for l, w in zip(irl, ws)}
        av = {form.leaves[j].path: leafval(form.leaves[j].shape, w) for j, w in zip(free, ws[len(irl):])}
        ii, ai = rr.build_inputs(iv, av, fam)
        yield ws, flat(ir, ipe(**ii)), flat(arch, ape(**ai))


def table_row(pe, ws):
    n = len(pe.forms[0].leaves)
    return tuple(int(x) for x in pe.forms[0].table[(slice(None),) + tuple(ws[:n])])
