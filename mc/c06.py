"""C06: a PE means the same in every interpretation.

Generated PEs are executed as plain Python, as rewritten Python over assembled
values, symbolically (terms evaluated exhaustively) and as compiled hardware
(CoreIR netlist, interpreted), for every input / input sequence of the bound,
and compared with a direct interpretation of the program over plain integers."""
import itertools as it
import numpy as np
from mc import shapes as S
from mc import lib, pegen, netlist, evalsmt
from mc.asmcommon import *
from hwtypes import SMTBit, SMTBitVector
from peak import family as F


class Layout(dict):
    def __hash__(self):
        return hash(tuple(sorted(map(str, self))))


def wrapped(fc, T, inst):
    """the hardware behind the wrapper that takes the instruction as a word"""
    from peak.rtl_utils import wrap_with_disassembler
    pe = fc.Magma
    asm = Asm1(T)
    lay = asm.layout
    return netlist.compile_pe(wrap_with_disassembler(pe, asm.disassemble, asm.width, Layout(lay), type(pe.interface.ports[inst])), 'wpe')


# ----------------------------------------------------- part 1: decoding ISAs

AVALS = [0, 0xA5, 0xFF]


def decode(r, case):
    d, magma, const = case
    nm = f'observer of {S.sname(d)}{" (const)" if const else ""}'
    mod = pegen.observer(d, const)
    fc = mod.PE_fc
    vals = [v for v in S.values(d)]
    T = S.build(d)
    want = {(i, a): pegen.observe_model(d, v, a) for i, v in enumerate(vals) for a in AVALS}
    B8 = BitVector[8]
    leaf = d[0] in ('bit', 'bv', 's', 'u')
    py, pyx = fc.Py(), fc.PyX()
    ty = F.PyXFamily().get_adt_t(T)
    for i, v in enumerate(vals):
        inst = S.make(d, v)
        xi = inst if leaf else ty(inst)
        for a in AVALS:
            r.step(2)
            o = pegen.val(py(inst, B8(a)))
            r.check(o == want[i, a], 'python', lambda: f'{nm}: {v}, {a}: python {o:#x}, meaning {want[i, a]:#x}')
            o = pegen.val(pyx(xi, B8(a)))
            r.check(o == want[i, a], 'rewritten-python', lambda: f'{nm}: {v}, {a}: rewritten python {o:#x}, meaning {want[i, a]:#x}')
            r.outcome(o)
        r.state()
    # all instructions x operands at once
    idx = [(i, a) for i in range(len(vals)) for a in AVALS]
    n = len(idx)
    ops = np.array([S.encode(d, vals[i])[0] for i, a in idx], dtype=np.int64)
    av = np.array([a for i, a in idx], dtype=np.int64)
    exp = np.array([want[k] for k in idx], dtype=np.int64)

    def report(kind, got):
        if got.shape != exp.shape or (got != exp).any():
            j = int(np.nonzero(got != exp)[0][0])
            r.fail(kind, f'{nm}: {vals[idx[j][0]]}, {idx[j][1]}: {kind} {int(got[j]):#x}, meaning {int(exp[j]):#x}')
    if not S.has_zero(d):
        w = S.width(d)
        x = SMTBitVector[w]() if d[0] != 'bit' else SMTBit()
        a = SMTBitVector[8]()
        fam = F.SMTFamily()
        if leaf:
            xi = x if d[0] in ('bit', 'bv') else {'s': fam.Signed, 'u': fam.Unsigned}[d[0]][w](x)
        else:
            xi = fam.get_adt_t(T)(x)
        res = fc.SMT()(xi, a)
        report('symbolic', pegen.smt_eval(res, {x.value: ops, a.value: av}, n))
        r.step(n)
        if magma:
            netlist.fresh_magma()
            net = netlist.compile_pe(fc.Magma, 'pe')
            net.reset(n)
            report('hardware', net.eval({'inst': ops, 'a': av})['O'])
            r.step(n)
            r.count('hardware_designs')
            if d[0] == 'prod':
                net = wrapped(fc, T, 'inst')
                net.reset(n)
                report('wrapped hardware', net.eval({'inst': ops, 'a': av})['O'])
                r.step(n)
                r.count('wrapped_designs')
    r.trace()
    r.sample({'pe': nm, 'instructions': len(vals), 'hardware': bool(magma)})


# ------------------------------------------------ part 2: rebuilding an ISA

def rebuild_stmts(d, e, out, ind, names):
    """statements that set `out` to a value constructed from the parts of e"""
    p = ' ' * ind
    k = d[0]
    C = pegen.tname(d, names) + 'c'
    fs = S.fields(d)
    if k == 'tuple':
        return [f'{p}{out} = {C}({", ".join(f"{e}[{i}]" for i, _ in fs)})']
    if k == 'prod':
        return [f'{p}{out} = {C}({", ".join(f"{n}={e}.{n}" for n, _ in reversed(fs))})']
    if k == 'tu':
        res = []
        for i, (n, f) in enumerate(fs):
            q = ind + (4 if len(fs) > 1 else 0)
            if len(fs) > 1:
                res.append(f'{p}{"el" if i else ""}if {e}.{n}.match:' if i < len(fs) - 1 else f'{p}else:')
            res.append(' ' * q + f'{out} = {C}({n}={e}.{n}.value)')
        return res
    if k == 'sum':
        res = []
        for i, (t, f) in enumerate(fs):
            n = pegen.tname(f, names)
            q = ind + (4 if len(fs) > 1 else 0)
            if len(fs) > 1:
                res.append(f'{p}{"el" if i else ""}if {e}[{n}].match:' if i < len(fs) - 1 else f'{p}else:')
            res.append(' ' * q + f'{out} = {C}({n}f, {e}[{n}].value)')
        return res
    if k == 'enum':
        res = []
        T = pegen.tname(d, names)
        ms = [n for n, _ in d[1:]]
        for i, n in enumerate(ms):
            q = ind + (4 if len(ms) > 1 else 0)
            if len(ms) > 1:
                res.append(f'{p}{"el" if i else ""}if {e} == {T}.{n}:' if i < len(ms) - 1 else f'{p}else:')
            res.append(' ' * q + f'{out} = {C}({T}.{n})')
        return res
    raise ValueError(d)


def rebuild(r, case):
    d, magma = case
    nm = f'rebuilder of {S.sname(d)}'
    names = {}
    T = pegen.tname(d, names)
    body = rebuild_stmts(d, 'inst', 'o', 12, names)
    # an alternative of an unordered union is named by its type
    decl = [f'    {n}c = family.get_constructor({n})' for f, n in names.items() if f == d]
    decl += [f'    {n}f = {n}' for f, n in names.items() if f != d]
    src = '''
@family_closure
def PE_fc(family):
''' + '\n'.join(decl) + f'''
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, inst: {T}) -> {T}:
''' + '\n'.join(body) + '''
            return o
    return PE
'''
    fc = pegen.load(src, {n: S.build(f) for f, n in names.items()}).PE_fc
    RT = S.build(d)
    vals = S.values(d)
    py, pyx = fc.Py(), fc.PyX()
    ty = F.PyXFamily().get_adt_t(RT)
    w = S.width(d)
    encs = [S.encode(d, v) for v in vals]
    for v, (enc, sig) in zip(vals, encs):
        r.state()
        r.step(2)
        inst = S.make(d, v)
        ok, o = r.guard('constructor', py, inst)
        if ok:
            r.check(unmake(d, o) == v, 'python', lambda: f'{nm}: {v} rebuilt as {o!r}')
        ok, o = r.guard('constructor', pyx, ty(inst))
        if ok:
            r.check(pegen.val(o) & sig == enc, 'rewritten-python', lambda: f'{nm}: {v} rebuilt as {pegen.val(o):#b}')
            r.check(truth(o == inst), 'rewritten-python', lambda: f'{nm}: {v} rebuilt as {o!r}, not equal')
            r.outcome((w, pegen.val(o)))
    if not S.has_zero(d):
        ops = np.array([e for e, _ in encs], dtype=np.int64)
        sig = np.array([s for _, s in encs], dtype=np.int64)
        x = SMTBitVector[w]()
        res = fc.SMT()(F.SMTFamily().get_adt_t(RT)(x))
        got = pegen.smt_eval(res, {x.value: ops}, len(ops))
        r.step(len(ops))
        r.check(not ((got & sig) != ops).any(), 'symbolic', lambda: f'{nm}: symbolic {got} for {ops}')
        if magma:
            netlist.fresh_magma()
            net = netlist.compile_pe(fc.Magma, 'pe')
            net.reset(len(ops))
            got = net.eval({'inst': ops})['O']
            r.step(len(ops))
            r.count('hardware_designs')
            r.check(not ((got & sig) != ops).any(), 'hardware', lambda: f'{nm}: hardware {got} for {ops}')
    r.trace()
    r.sample({'pe': nm})


# -------------------------------------------- part 3: stateful programs

# expressions over: a (2 bits), s (attribute register), v (local), p (the value
# a register held before the call), literals
# conditions over: c (1 bit), op (enumeration), equality
EXPRS = ['a', 'v', 's', 'v + 1', 'a ^ s']
CONDS = ['c', 'op == Op.m1', 'v == a']


def stmts(depth):
    out = [f'v = {e}' for e in EXPRS if e != 'v'] + [f's = {e}' for e in ('a', 'v', 'v + 1')]
    if depth:
        inner = stmts_simple()
        for c in CONDS:
            for x in inner:
                out.append((c, [x], []))
            for x, y in it.product(inner, repeat=2):
                if x != y:
                    out.append((c, [x], [y]))
    return out


def stmts_simple():
    return ['v = a', 'v = v + 1', 's = v', 's = a', 'return v', 'return s']


def programs(deep):
    """bodies: statement lists; each followed by a register call and return"""
    simple = stmts(0)
    nested = [x for x in stmts(1) if isinstance(x, tuple)]
    out = []
    for x in nested:
        out.append([x])
        for y in ('v = s', 's = v + 1', 'v = v + 1'):
            out.append([y, x])
            if deep:
                out.append([x, y])
    if deep:
        small = [('c', ['v = v + 1'], []), ('op == Op.m1', ['s = v'], ['v = s']), ('c', ['return v'], []),
                 ('v == a', ['s = a'], ['return s'])]
        for x in nested:
            for y in small:
                out.append([x, y])
                out.append([(y[0], [x], y[2])])
                out.append([(y[0], y[1], [x])])
    else:
        small = [('c', ['v = v + 1'], []), ('op == Op.m1', ['s = v'], ['return s']), ('v == a', ['return v'], [])]
        for x in small:
            for y in small:
                if x != y:
                    out.append([x, y])
                    out.append([(x[0], [y], x[2])])
                    out.append([(x[0], x[1], [y])])
    return out


ENS = {'always': 'en1', 'cond': 'c'}


def pretty(prog):
    def one(s):
        if isinstance(s, str):
            return s
        t = f'if {s[0]} {{{"; ".join(map(one, s[1]))}}}'
        return t + (f' else {{{"; ".join(map(one, s[2]))}}}' if s[2] else '')
    return '; '.join(map(one, prog))


def source(prog, named=False):
    """registers: `self.s` attribute style, `self.r` call style, `self.q` call
    style without enable"""
    lines = []

    def emit(s, ind):
        p = ' ' * ind
        if isinstance(s, str):
            if s.startswith('return'):
                lines.append(f'{p}return {s[7:].replace("s", "self.s")}, x')
            else:
                l, rhs = s.split(' = ')
                rhs = ' '.join({'s': 'self.s'}.get(t, t) for t in rhs.split())
                lines.append(f'{p}{"self.s" if l == "s" else l} = {rhs}')
            return
        c, t, f = s
        lines.append(f'{p}if {c}:')
        for x in t:
            emit(x, ind + 4)
        if f:
            lines.append(f'{p}else:')
            for x in f:
                emit(x, ind + 4)
    for s in prog:
        emit(s, 12)
    return '''
@family_closure
def PE_fc(family):
    Data = family.BitVector[2]
    Bit_ = family.Bit
    RegE = family.gen_register(Data, 2)
    RegN = family.gen_register(Data, 1, has_enable=False)
    RegA = family.gen_attr_register(Data, 3)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.r = RegE()
            self.q = RegN()
            self.s = RegA()
''' + ('        @name_outputs(o=Data, x=Data)\n' if named else '') + '''
        def __call__(self, op: Const(Op), a: Data, c: Bit_) -> (Data, Data):
            x = self.q(a) ^ self.r(a, c)
            v = x
''' + '\n'.join(lines) + '''
            return v + self.s, x
    return PE
'''


def model(prog, state, op, a, c):
    """one step over plain integers"""
    r, q, s = state
    x = q ^ r
    q = a
    if c:
        r = a
    env = {'v': x, 'a': a, 'c': c, 's': s}

    def ev(e):
        t = e.split()
        if len(t) == 1:
            return env[t[0]] if not t[0].isdigit() else int(t[0])
        x, o, y = t
        x, y = ev(x), ev(y)
        return (x + y) & 3 if o == '+' else x ^ y

    def cond(cd):
        if cd == 'c':
            return bool(c)
        if cd == 'op == Op.m1':
            return op == 'm1'
        return env['v'] == a

    def run(block):
        for st in block:
            if isinstance(st, str):
                if st.startswith('return'):
                    return ev(st[7:])
                l, rhs = st.split(' = ')
                env[l] = ev(rhs)
            else:
                res = run(st[1] if cond(st[0]) else st[2])
                if res is not None:
                    return res
        return None
    out = run(prog)
    if out is None:
        out = (env['v'] + env['s']) & 3
    return (r, q, env['s']), (out, x)


OPD = S.ints(1, 2)


def stateful(r, case):
    prog, magma, named, depth = case
    nm = pretty(prog)
    fc = pegen.load(source(prog, named), {'Op': S.build(OPD)}).PE_fc
    OpT = S.build(OPD)
    alphabet = [(o, a, c) for o in ('m1', 'm2') for a in range(4) for c in (0, 1)]
    B2 = BitVector[2]
    xop = F.PyXFamily().get_adt_t(OpT)
    enc = {o: getattr(OpT, o) for o in ('m1', 'm2')}
    xenc = {o: xop(enc[o]) for o in enc}
    # breadth-first over reference states: every input from every reachable
    # state, each reached by replaying its history on fresh objects
    init = (2, 1, 3)
    seen = {init: []}
    queue = [init]

    def run(cls, ops, hist):
        pe = cls()
        return pe, [tuple(map(pegen.val, pe(ops[o], B2(a), Bit(c)))) for o, a, c in hist]
    limit = 64
    while queue:
        st = queue.pop(0)
        hist = seen[st]
        if len(hist) < depth:
            for x in alphabet:
                nst, _ = model(prog, st, *x)
                if nst not in seen:
                    seen[nst] = hist + [x]
                    queue.append(nst)
    r.state(len(seen))
    # executions: from every state that needs a history, all inputs
    frontier = list(seen.items())
    for kind, cls, ops in (('python', fc.Py, enc), ('rewritten-python', fc.PyX, xenc)):
        for st, hist in frontier:
            if len(hist) > 2:
                continue
            for x in alphabet if len(hist) < 2 else alphabet[::5]:
                r.step()
                _, got = run(cls, ops, hist + [x])
                s, exp = init, []
                for y in hist + [x]:
                    s, o = model(prog, s, *y)
                    exp.append(o)
                if not r.check(got == exp, kind, lambda: f'{{{nm}}} on {hist + [x]}: {kind} gives {got}, meaning {exp}'):
                    return
    # all sequences of length 2 (3 for hardware when deep), vectorised
    L = 2
    seqs = list(it.product(alphabet, repeat=L))
    n = len(seqs)
    exp = np.zeros((L, 2, n), dtype=np.int64)
    for j, sq in enumerate(seqs):
        s = init
        for k, x in enumerate(sq):
            s, o = model(prog, s, *x)
            exp[k, :, j] = o
    code = S.enum_codes(OPD)
    cols = [(np.array([code[sq[k][0]] for sq in seqs]), np.array([sq[k][1] for sq in seqs]), np.array([sq[k][2] for sq in seqs]))
            for k in range(L)]
    r.outcome(exp.tobytes())

    def report(kind, k, got):
        for i in (0, 1):
            if (got[i] != exp[k, i]).any():
                j = int(np.nonzero(got[i] != exp[k, i])[0][0])
                r.fail(kind, f'{{{nm}}} on {seqs[j][:k+1]}: {kind} output {i} is {int(got[i][j])}, meaning {int(exp[k, i, j])}')
                return
    pe = fc.SMT()
    fam = F.SMTFamily()
    env = {}
    for k in range(L):
        o, a, c = SMTBitVector[2](), SMTBitVector[2](), SMTBit()
        env.update(zip((o.value, a.value, c.value), cols[k]))
        res = pe(fam.get_adt_t(OpT)(o), a, c)
        report('symbolic', k, [evalsmt.evaluate(x.value, env, n) for x in res])
        r.step(n)
    if magma:
        netlist.fresh_magma()
        net = netlist.compile_pe(fc.Magma, 'pe')
        net.reset(n)
        for k in range(L):
            o, a, c = cols[k]
            res = net.eval({'op': o, 'a': a, 'c': c})
            outs = ['O0', 'O1']
            report('hardware', k, [res[x] for x in outs])
            net.step()
            r.step(n)
        r.count('hardware_designs')
    r.trace(2 * n)
    r.sample({'program': nm, 'states': len(seen), 'sequences': n, 'hardware': bool(magma)})


# ------------------------------------------------------------- part 4: wiring

WIRING = {
    # name: (source, inputs [(name, width or 0 for Bit)], python meaning)
    'nested': ('''
@family_closure
def Inner_fc(family):
    D = family.BitVector[3]
    Un = family.Unsigned[3]
    @family.assemble(locals(), globals())
    class Inner(Peak):
        def __call__(self, x: D, y: D) -> (D, family.Bit):
            return x - y, Un(x) < Un(y)
    return Inner
@family_closure
def PE_fc(family):
    D = family.BitVector[3]
    B = family.Bit
    Inner = Inner_fc(family)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.i0 = Inner()
            self.i1 = Inner()
        def __call__(self, a: D, b: D, c: B) -> (D, B):
            d, lt = self.i0(a, b)
            e, lu = self.i1(b, d)
            if c & lt:
                return e, lu
            elif lt:
                return d, ~lu
            else:
                return e ^ d, lu
    return PE
''', [('a', 3), ('b', 3), ('c', 0)], lambda a, b, c: _nested(a, b, c)),
    'signed': ('''
@family_closure
def PE_fc(family):
    D = family.BitVector[3]
    Sg = family.Signed[3]
    Un = family.Unsigned[3]
    B = family.Bit
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, a: Sg, b: Sg, u: Un, c: B) -> (B, B, D, D):
            lt = a < b
            ge = Un(a) >= u
            if c:
                sh = D(a >> b)
            else:
                sh = D(Un(a) >> u)
            if lt & ~c:
                z = D(-a)
            else:
                z = D(a) | D(u)
            return lt, ge, sh, z
    return PE
''', [('a', 3), ('b', 3), ('u', 3), ('c', 0)], lambda a, b, u, c: _signed(a, b, u, c)),
    'bools': ('''
@family_closure
def PE_fc(family):
    D = family.BitVector[2]
    U = family.Unsigned[2]
    B = family.Bit
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, a: D, b: D, c: B, d: B) -> (D, B):
            if (a == b) & c:
                v = a + b
            elif (a[0] | d) & ~c:
                v = a.concat(b)[1:3]
            else:
                v = D(3)
            if v == 0:
                return D(1), c ^ d
            f = (U(v) > U(a))
            if f:
                v = ~v
            return v, f
    return PE
''', [('a', 2), ('b', 2), ('c', 0), ('d', 0)], lambda a, b, c, d: _bools(a, b, c, d)),
    'literals': ('''
@family_closure
def PE_fc(family):
    D = family.BitVector[3]
    B = family.Bit
    K = 5
    table = D(6)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, a: D, c: B) -> (D, B):
            o = a
            t = B(1)
            if c:
                o = o + K
                t = a == K
            else:
                o = table - o
                t = B(0)
            if t:
                o = D(0)
            return o, t
    return PE
''', [('a', 3), ('c', 0)], lambda a, c: _literals(a, c)),
    'pipeline': ('''
@family_closure
def Stage_fc(family):
    D = family.BitVector[2]
    Reg = family.gen_register(D, 1)
    @family.assemble(locals(), globals())
    class Stage(Peak):
        def __init__(self):
            self.r = Reg()
        def __call__(self, x: D, en: family.Bit) -> D:
            return self.r(x + 1, en)
    return Stage
@family_closure
def PE_fc(family):
    D = family.BitVector[2]
    B = family.Bit
    Stage = Stage_fc(family)
    A = family.gen_attr_register(B, 0)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.s0 = Stage()
            self.s1 = Stage()
            self.t = A()
        def __call__(self, a: D, c: B) -> (D, D, B):
            t = self.t
            x = self.s0(a, c)
            y = self.s1(x, ~c | t)
            self.t = c
            return x, y, t
    return PE
''', [('a', 2), ('c', 0)], None),
    'counter': ('''
@family_closure
def PE_fc(family):
    D = family.BitVector[2]
    B = family.Bit
    Reg = family.gen_register(D, 2)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.r = Reg()
            self.w = Reg()
        def __call__(self, a: D, c: B) -> (D, D):
            v = self.r.prev()
            if c:
                n = v + a
            else:
                n = v - 1
            self.r(n, c | (a == 0))
            o = self.w(v, ~c)
            return v, o
    return PE
''', [('a', 2), ('c', 0)], None),
}


# more than ten arguments, results, parts: k10 and O10 come before k2 and O2 by name
W_ARGS = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
_perm = [(5 * i + 2) % 12 for i in range(12)]
WIRING['wide'] = (f"""
@family_closure
def Inner_fc(family):
    D = family.BitVector[1]
    B = family.Bit
    @family.assemble(locals(), globals())
    class Inner(Peak):
        def __call__(self, {', '.join(f'{k}: {"DB"[i % 2]}' for i, k in enumerate(W_ARGS))}) -> ({', '.join('DB'[_perm[i] % 2] for i in range(12))}):
            return {', '.join(W_ARGS[_perm[i]] for i in range(12))}
    return Inner
@family_closure
def PE_fc(family):
    D = family.BitVector[1]
    B = family.Bit
    Inner = Inner_fc(family)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
            self.x = Inner()
            self.y = Inner()
        def __call__(self, {', '.join(f'{k}: {"DB"[i % 2]}' for i, k in enumerate(W_ARGS))}) -> ({', '.join('DB'[i % 2] for i in range(12))}):
            {', '.join(f'u{i}' for i in range(12))} = self.x({', '.join(W_ARGS)})
            if k10:
{chr(10).join(f'                w{i} = u{i}' for i in range(12))}
            else:
{chr(10).join(f'                w{i} = ~{W_ARGS[_perm[i]]}' for i in range(12))}
            {', '.join(f'v{i}' for i in range(12))} = self.y({', '.join(f'{W_ARGS[_perm[i]]}=w{i}' for i in reversed(range(12)))})
            return {', '.join(f'v{_perm.index(i)}' for i in range(12))}
    return PE
""", [(k, 1 - i % 2) for i, k in enumerate(W_ARGS)], lambda *a: a if a[3] else tuple(1 - x for x in a))
WIRING['many'] = (f"""
@family_closure
def PE_fc(family):
    B = family.Bit
    R0 = family.gen_register(B, 0)
    R1 = family.gen_register(B, 1)
    A0 = family.gen_attr_register(B, 0)
    A1 = family.gen_attr_register(B, 1)
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __init__(self):
{chr(10).join(f'            self.r{i} = {"AR"[i % 2]}{int(i % 3 == 0)}()' for i in range(12))}
        def __call__(self, a: B, c: B) -> ({', '.join('B' * 12)}):
{chr(10).join(f'            v{i} = self.r{i}' + ('.prev()' if i % 2 else '') for i in range(12))}
            if c:
{chr(10).join(f'                n{i} = ' + (f'v{i - 1}' if i else 'a') for i in range(12))}
            else:
{chr(10).join(f'                n{i} = v{(i + 5) % 12}' for i in range(12))}
{chr(10).join(f'            self.r{i}(n{i}, a | c)' if i % 2 else f'            self.r{i} = n{i}' for i in range(12))}
            return {', '.join(f'v{i}' for i in range(12))}
    return PE
""", [('a', 0), ('c', 0)], None)


class _Many:
    init = tuple(int(i % 3 == 0) for i in range(12))

    @staticmethod
    def step(s, a, c):
        n = [(s[i - 1] if i else a) if c else s[(i + 5) % 12] for i in range(12)]
        return tuple(n[i] if i % 2 == 0 or a or c else s[i] for i in range(12)), s


def _nested(a, b, c):
    d, lt = (a - b) & 7, a < b
    e, lu = (b - d) & 7, b < d
    if c and lt:
        return e, int(lu)
    if lt:
        return d, int(not lu)
    return e ^ d, int(lu)


def _sg(x, w=3):
    return x - (1 << w) if x >> (w - 1) else x


def _signed(a, b, u, c):
    lt = int(_sg(a) < _sg(b))
    ge = int(a >= u)
    sh = (_sg(a) >> min(b, 7)) & 7 if c else a >> u
    z = -_sg(a) & 7 if lt and not c else a | u
    return lt, ge, sh, z


def _bools(a, b, c, d):
    if a == b and c:
        v = (a + b) & 3
    elif ((a & 1) or d) and not c:
        v = ((a | b << 2) >> 1) & 3
    else:
        v = 3
    if v == 0:
        return 1, c ^ d
    f = int(v > a)
    return (~v & 3 if f else v), f


def _literals(a, c):
    if c:
        o, t = (a + 5) & 7, a == 5
    else:
        o, t = (6 - a) & 7, False
    return (0 if t else o), int(t)


class _Pipeline:
    init = (1, 1, 0)

    @staticmethod
    def step(s, a, c):
        r0, r1, t = s
        x = r0
        n0 = (a + 1) & 3 if c else r0
        y = r1
        n1 = (x + 1) & 3 if (not c) or t else r1
        return (n0, n1, c), (x, y, t)


class _Counter:
    init = (2, 2)

    @staticmethod
    def step(s, a, c):
        r, w = s
        n = (r + a) & 3 if c else (r - 1) & 3
        o = w
        nr = n if c or a == 0 else r
        nw = r if not c else w
        return (nr, nw), (r, o)


SEQ = {'pipeline': _Pipeline, 'counter': _Counter, 'many': _Many}


def wiring(r, case):
    name, L = case
    src, ins, fn = WIRING[name]
    fc = pegen.load(src, {}).PE_fc
    alphabet = list(it.product(*(range(1 << (w or 1)) for _, w in ins)))
    seqs = list(it.product(alphabet, repeat=L))
    n = len(seqs)
    exp = []
    for sq in seqs:
        s = SEQ[name].init if name in SEQ else None
        out = []
        for x in sq:
            if fn is None:
                s, o = SEQ[name].step(s, *x)
            else:
                o = fn(*x)
            out.append(tuple(o))
        exp.append(out)
    call = fc.Py.__call__
    kinds = [t for k, t in call.__annotations__.items() if k != 'return']
    for kind, cls in (('python', fc.Py), ('rewritten-python', fc.PyX)):
        for sq, e in zip(seqs, exp):
            pe = cls()
            for k, x in enumerate(sq):
                r.step()
                got = tuple(map(pegen.val, pe(*(T(v) for T, v in zip(kinds, x)))))
                if not r.check(got == e[k], kind, lambda: f'{name} on {sq[:k+1]}: {kind} {got}, meaning {e[k]}'):
                    return
            r.outcome(e[-1])
    skinds = [t for k, t in fc.SMT.__call__.__annotations__.items() if k != 'return'] or None
    fam = F.SMTFamily()
    pe, env = fc.SMT(), {}
    netlist.fresh_magma()
    net = netlist.compile_pe(fc.Magma, 'pe')
    net.reset(n)
    outs = sorted((x for x in net.io if x.startswith('O')), key=lambda x: (len(x), x))
    for k in range(L):
        args, hw = [], {}
        for i, ((nme, w), T) in enumerate(zip(ins, kinds)):
            col = np.array([sq[k][i] for sq in seqs], dtype=np.int64)
            v = SMTBitVector[w]() if w else SMTBit()
            env[v.value] = col
            hw[nme] = col
            if w and issubclass(T, hw_signed()):
                v = fam.Signed[w](v)
            elif w and issubclass(T, hw_unsigned()):
                v = fam.Unsigned[w](v)
            args.append(v)
        res = pe(*args)
        ho = net.eval(hw)
        net.step()
        for i in range(len(exp[0][k])):
            want = np.array([e[k][i] for e in exp], dtype=np.int64)
            for kind, got in (('symbolic', evalsmt.evaluate(res[i].value, env, n)), ('hardware', ho[outs[i]])):
                r.step(n)
                if (got != want).any():
                    j = int(np.nonzero(got != want)[0][0])
                    r.fail(kind, f'{name} on {seqs[j][:k+1]}: {kind} output {i} = {int(got[j])}, meaning {int(want[j])}')
    r.count('hardware_designs')
    r.state(n)
    r.trace(n)
    r.sample({'pe': name, 'sequences': n})


# ------------------------------------- part 5: operands with compound types

def operand_terms(d, names):
    """[(expression, model function of the environment)] of shape d over the
    operands p, q (of shape d) and c (a bit)"""
    T = pegen.tname(d, names)
    C = T + 'c'
    if d[0] == 'enum':
        ms = [n for n, _ in d[1:]]
        out = [('p', lambda v: v['p']), ('q', lambda v: v['q'])]
        out += [(f'{C}({T}.{n})', lambda v, n=n: n) for n in ms]
        out.append((f'{T}.{ms[0]}', lambda v: ms[0]))
        return out
    fs = S.fields(d)
    sub = d[2]                       # second field: an enumeration
    ET = pegen.tname(sub, names)
    Ec = ET + 'c'
    m = sub[1][0]
    f0, f1 = fs[0][0], fs[1][0]
    ports = [('p', lambda v: v['p']), ('q', lambda v: v['q'])]
    if d[0] == 'prod':
        return ports + [(f'{C}({f0}=p.{f0}, {f1}=q.{f1})', lambda v: (v['p'][0], v['q'][1])),
                        (f'{C}({f0}=c, {f1}={ET}.{m})', lambda v: (v['c'], m)),
                        (f'{C}({f0}=q.{f0}, {f1}={Ec}({ET}.{m}))', lambda v: (v['q'][0], m))]
    if d[0] == 'tuple':
        return ports + [(f'{C}(p[0], q[1])', lambda v: (v['p'][0], v['q'][1])),
                        (f'{C}(c, {ET}.{m})', lambda v: (v['c'], m))]
    # alternatives of equal width only: no don't-care bits are compared
    return ports + [(f'{C}({f0}=c)', lambda v: (0, v['c'])),
                    (f'{C}({f1}={Ec}({ET}.{m}))', lambda v: (1, m))]


def operands(r, case):
    d = case
    nm = f'operands of {S.sname(d)}'
    names = {}
    terms = operand_terms(d, names)
    T = pegen.tname(d, names)
    n = len(terms)
    lines, pool = [], []
    for i, (e, f) in enumerate(terms):
        if e in ('p', 'q') or '(' in e:
            lines.append(f'            t{i} = {e}')
            pool.append((f't{i}', f))
        else:
            pool.append((e, f))
    local = [i for i, (e, _) in enumerate(pool) if e.startswith('t')]
    phi = [(0, 1), (0, local[-1]), (local[-1], 1), (local[2], local[-1])]
    for k, (i, j) in enumerate(phi):
        lines += ['            if c:', f'                f{k} = t{i}', '            else:', f'                f{k} = t{j}']
        pool.append((f'f{k}', lambda v, i=i, j=j: terms[i][1](v) if v['c'] else terms[j][1](v)))
    cmps = []
    for (a, fa), (b, fb) in it.product(pool, repeat=2):
        if a.startswith('T'):
            continue             # a type's member on the left is plain Python
        if a.startswith('f') and b.startswith('T'):
            continue             # see `merged`
        for op in ('==', '!='):
            cmps.append((f'B({a} {op} {b})', lambda v, fa=fa, fb=fb, op=op: int((fa(v) == fb(v)) == (op == '=='))))
    src = '\n'.join(['', '@family_closure', 'def PE_fc(family):', '    B = family.Bit']
                    + [f'    {x}c = family.get_constructor({x})' for f, x in names.items()]
                    + ['    @family.assemble(locals(), globals())', '    class PE(Peak):',
                       f'        def __call__(self, p: {T}, q: {T}, c: B) -> ({", ".join(["B"] * len(cmps))}):']
                    + lines + [f'            return {", ".join(e for e, _ in cmps)}', '    return PE', ''])
    fc = pegen.load(src, {x: S.build(f) for f, x in names.items()}).PE_fc
    vals = S.values(d)
    idx = list(it.product(vals, vals, (0, 1)))
    m = len(idx)
    exp = np.array([[f({'p': p, 'q': q, 'c': c}) for p, q, c in idx] for _, f in cmps], dtype=np.int64)
    RT = S.build(d)
    ty = F.PyXFamily().get_adt_t(RT)

    def report(kind, got):
        for i, (e, _) in enumerate(cmps):
            g = np.asarray(got[i])
            if (g != exp[i]).any():
                j = int(np.nonzero(g != exp[i])[0][0])
                body = '; '.join(x.strip() for x in lines)
                r.fail(kind, f'{nm}: {e} where {body} with p, q, c = {idx[j]}: {kind} {g[j]}, meaning {exp[i][j]}')
                return
    for kind, cls, conv in (('python', fc.Py, lambda v: S.make(d, v)), ('rewritten-python', fc.PyX, lambda v: ty(S.make(d, v)))):
        pe = cls()
        report(kind, np.array([[int(x) for x in pe(conv(p), conv(q), Bit(c))] for p, q, c in idx]).T)
        r.step(m)
    w = S.width(d)
    p, q, c = SMTBitVector[w](), SMTBitVector[w](), SMTBit()
    st = F.SMTFamily().get_adt_t(RT)
    P = np.array([S.encode(d, x[0])[0] for x in idx])
    Q = np.array([S.encode(d, x[1])[0] for x in idx])
    C = np.array([x[2] for x in idx])
    res = fc.SMT()(st(p), st(q), c)
    report('symbolic', [pegen.smt_eval(x, {p.value: P, q.value: Q, c.value: C}, m) for x in res])
    netlist.fresh_magma()
    net = netlist.compile_pe(fc.Magma, 'pe')
    net.reset(m)
    o = net.eval({'p': P, 'q': Q, 'c': C})
    report('hardware', [o[f'O{i}'] for i in range(len(cmps))])
    r.step(2 * m)
    r.count('hardware_designs')
    r.state(m)
    r.trace(m)
    r.outcome(exp.tobytes())
    r.sample({'pe': nm, 'comparisons': len(cmps), 'operands': m})


MERGED = {
    # name: (shape, expression of the merged value z, meaning)
    'enum': (S.ints(1, 2), 'z == T0.m1', lambda z: z == 'm1'),
    'product': (S.prod(S.BIT, S.ints(1, 2)), 'z.y == T1.m1', lambda z: z[1] == 'm1'),
}


def merged(r, case):
    """a compound value chosen by a conditional, then inspected"""
    name = case
    d, expr, fn = MERGED[name]
    names = {}
    pegen.tname(d, names)
    for _, f in S.fields(d):
        if f[0] == 'enum':
            pegen.tname(f, names)
    src = f'''
@family_closure
def PE_fc(family):
    B = family.Bit
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, p: T0, q: T0, c: B) -> B:
            if c:
                z = p
            else:
                z = q
            return B({expr})
    return PE
'''
    fc = pegen.load(src, {x: S.build(f) for f, x in names.items()}).PE_fc
    idx = list(it.product(S.values(d), S.values(d), (0, 1)))
    m = len(idx)
    exp = [int(fn(p if c else q)) for p, q, c in idx]
    RT = S.build(d)
    ty = F.PyXFamily().get_adt_t(RT)
    for kind, cls, conv in (('python', fc.Py, lambda v: S.make(d, v)), ('rewritten-python', fc.PyX, lambda v: ty(S.make(d, v)))):
        for (p, q, c), e in zip(idx, exp):
            r.step()
            got = int(cls()(conv(p), conv(q), Bit(c)))
            r.check(got == e, kind, lambda: f'merged {name} on {p, q, c}: {kind} {got}, meaning {e}')
    w = S.width(d)
    p, q, c = SMTBitVector[w](), SMTBitVector[w](), SMTBit()
    st = F.SMTFamily().get_adt_t(RT)
    P, Q = (np.array([S.encode(d, x[i])[0] for x in idx]) for i in (0, 1))
    C = np.array([x[2] for x in idx])
    got = pegen.smt_eval(fc.SMT()(st(p), st(q), c), {p.value: P, q.value: Q, c.value: C}, m)
    r.check((got == exp).all(), 'symbolic', lambda: f'merged {name}: symbolic {got}, meaning {exp}')
    key = f'merged-{name}-hardware'
    netlist.fresh_magma()
    ok, net = r.guard(key, netlist.compile_pe, fc.Magma, 'pe') if r.guard(key, getattr, fc, 'Magma')[0] else (False, None)
    if ok:
        net.reset(m)
        got = net.eval({'p': P, 'q': Q, 'c': C})['O']
        r.check((got == exp).all(), key, lambda: f'merged {name}: hardware {got}, meaning {exp}')
        r.count('hardware_designs')
    r.step(2 * m)
    r.state(m)
    r.trace(m)


def hw_signed():
    from hwtypes import SIntVector
    return SIntVector


def hw_unsigned():
    from hwtypes import UIntVector
    return UIntVector


def related(d):
    """some union has alternatives related by inheritance: a plain Python
    union then matches more than one of them"""
    if d[0] == 'sum':
        ts = [S.build(f) for f in d[1:]]
        if any(a is not b and issubclass(a, b) for a in ts for b in ts):
            return True
    return any(related(f) for _, f in S.fields(d))


def writes(prog):
    return any(x.startswith('s = ') if isinstance(x, str) else writes(x[1]) or writes(x[2]) for x in prog)


def main(run):
    deep = lib.thorough()
    run.explore('wiring', wiring, [(n, (5 if n == 'many' else 3 if deep else 2) if n in SEQ else 1) for n in WIRING], chunk=1, describe=str)
    u = [d for d in S.universe(deep) if S.nvalues(d) <= (300 if deep else 64) and S.width(d) and not related(d)]
    E2, E5 = S.ints(1, 2), S.ints(0, 2, 3, 5, 6)
    run.explore('operands', operands, [E2, E5, S.AUTO3, S.prod(S.BIT, E2), S.prod(S.BIT, E5), S.tup(S.BIT, E2),
                S.tup(S.BIT, S.AUTO3), S.tu(S.BIT, S.ints(0, 1))], chunk=1, describe=S.sname)
    run.explore('merged', merged, list(MERGED), chunk=1, describe=str)
    if not deep:
        # bits, vectors, signed vectors, enumerations with one or several ranges of codes
        few = {S.BIT, S.sbv(2), S.ints(1, 2), S.ints(0, 2, 3, 5, 6)}

        def keep(d):
            fs = [f for _, f in S.fields(d)]
            if d[0] not in S.KINDS or S.has_zero(d):
                return True
            comp = [f for f in fs if f[0] in S.KINDS]
            if not comp:
                return len(fs) > 3 or len(set(fs)) > 1 and set(fs) <= (few if len(fs) == 2 else few | {S.bv(2)})
            return len(fs) == 2 and len(comp) == 1 and (S.BIT in fs or S.ints(1, 2) in fs)
        u = [d for d in u if keep(d)]

    def depth(d):
        return 1 + max((depth(f) for _, f in S.fields(d)), default=0)
    comp = [d for d in u if d[0] in S.KINDS]
    hw = {d for i, d in enumerate(comp) if deep or depth(d) >= 3 and i % 3 == 0 or i % 9 == 0}
    run.explore('decode', decode, [(d, d in hw or d[0] not in S.KINDS, c) for d in u for c in ((False, True) if deep or d in hw else (False,))],
                chunk=8, describe=lambda c: f'{S.sname(c[0])} {c[1]} {c[2]}')
    rb = [d for d in u if d[0] in list(S.KINDS) + ['enum']]
    run.explore('rebuild', rebuild, [(d, deep or i % 8 == 0) for i, d in enumerate(rb)], chunk=8, describe=lambda c: f'{S.sname(c[0])} {c[1]}')
    ps = programs(deep)
    run.explore('programs', stateful, [(p, writes(p) and (deep or i % 6 == 0), i % 2 == 1, 3) for i, p in enumerate(ps)], chunk=6,
                describe=lambda c: pretty(c[0]))
    run.bounds = {'isa_shapes': len(u), 'rebuilt_shapes': len(rb), 'programs': len(ps), 'sequence_length': 2,
                  'inputs': 'all of each PE'}
    run.assumptions = ['the CoreIR netlist interpreter in mc/netlist.py gives CoreIR primitives their documented meaning']
