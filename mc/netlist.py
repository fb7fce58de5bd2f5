"""A small interpreter for the CoreIR netlists that compiling a PE produces.
Vectorised with numpy: one evaluation covers every input vector."""
import json
import re
import numpy as np


class NetlistError(Exception):
    pass


def _flat(t):
    """number of bits of a CoreIR type"""
    if isinstance(t, str):
        return 1
    if t[0] == 'Array':
        return t[1] * _flat(t[2])
    if t[0] == 'Named':
        return 1
    if t[0] == 'Record':
        return sum(_flat(x) for _, x in t[1])
    raise NetlistError(f'type {t}')


def _sel(t, path):
    """(offset, type) of a select path into a type"""
    off = 0
    for p in path:
        if t[0] == 'Record':
            for name, ft in t[1]:
                if name == p:
                    t = ft
                    break
                off += _flat(ft)
            else:
                raise NetlistError(f'no field {p}')
        elif t[0] == 'Array':
            n = _flat(t[2])
            if ':' in p:
                lo, hi = map(int, p.split(':'))
                off += lo * n
                t = ['Array', hi - lo, t[2]]
            else:
                off += int(p) * n
                t = t[2]
        else:
            raise NetlistError(f'select {p} of {t}')
    return off, t


def _arg(v):
    if isinstance(v, list):
        if v[0] == 'Int':
            return v[1]
        if v[0] == 'Bool':
            return int(v[1])
        if isinstance(v[0], list) and v[0][0] == 'BitVector':
            s = v[1]
            m = re.match(r"(\d+)'([hbd])([0-9a-fA-F]+)$", s)
            return int(m.group(3), {'h': 16, 'b': 2, 'd': 10}[m.group(2)])
    return v


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
CMP = {'eq', 'neq', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'}


def _prim_type(ref, ga):
    ns, op = ref.split('.')
    w = ga.get('width')
    A = lambda n: ['Array', n, 'Bit']
    if ns == 'corebit':
        f = {'not': ['in', 'out'], 'wire': ['in', 'out'], 'const': ['out'], 'term': ['in'], 'mux': ['in0', 'in1', 'sel', 'out'],
             'reg': ['in', 'clk', 'out'], 'reg_arst': ['in', 'clk', 'arst', 'out'], 'undriven': ['out']}.get(op, ['in0', 'in1', 'out'])
        return ['Record', [[n, 'Bit'] for n in f]]
    if ns == 'coreir':
        if op in BIN:
            return ['Record', [['in0', A(w)], ['in1', A(w)], ['out', A(w)]]]
        if op in CMP:
            return ['Record', [['in0', A(w)], ['in1', A(w)], ['out', 'Bit']]]
        if op in ('not', 'neg', 'wire'):
            return ['Record', [['in', A(w)], ['out', A(w)]]]
        if op in ('andr', 'orr', 'xorr'):
            return ['Record', [['in', A(w)], ['out', 'Bit']]]
        if op == 'mux':
            return ['Record', [['in0', A(w)], ['in1', A(w)], ['sel', 'Bit'], ['out', A(w)]]]
        if op in ('const', 'undriven'):
            return ['Record', [['out', A(w)]]]
        if op == 'term':
            return ['Record', [['in', A(w)]]]
        if op == 'slice':
            return ['Record', [['in', A(w)], ['out', A(ga['hi'] - ga['lo'])]]]
        if op == 'concat':
            return ['Record', [['in0', A(ga['width0'])], ['in1', A(ga['width1'])], ['out', A(ga['width0'] + ga['width1'])]]]
        if op in ('zext', 'sext'):
            return ['Record', [['in', A(ga['width_in'])], ['out', A(ga['width_out'])]]]
        if op == 'reg':
            return ['Record', [['in', A(w)], ['clk', 'Bit'], ['out', A(w)]]]
        if op == 'reg_arst':
            return ['Record', [['in', A(w)], ['clk', 'Bit'], ['arst', 'Bit'], ['out', A(w)]]]
        if op == 'wrap':
            return ['Record', [['in', 'Bit'], ['out', 'Bit']]]
    if ref == 'commonlib.muxn':
        n = ga['N']
        return ['Record', [['in', ['Record', [['data', ['Array', n, A(w)]], ['sel', A((n - 1).bit_length())]]]], ['out', A(w)]]]
    raise NetlistError(f'primitive {ref} {ga}')


OUTS = {'out'}


class Netlist:
    def __init__(self, text):
        j = json.loads(text)
        self.mods = {}
        for ns, d in j['namespaces'].items():
            for name, mod in d.get('modules', {}).items():
                self.mods[f'{ns}.{name}'] = mod
        self.parent = {}
        self.prims = []
        top = j['top']
        self.io = {n: t for n, t in self.mods[top]['type'][1]}
        self._elab(top, 'top')
        self._order()

    # union-find over bits
    def _find(self, x):
        p = self.parent
        r = x
        while p.get(r, r) != r:
            r = p[r]
        while p.get(x, x) != x:
            p[x], x = r, p[x]
        return r

    def _elab(self, name, pre):
        mod = self.mods[name]
        types = {'self': ['Record', mod['type'][1]]}
        where = {'self': pre}
        for iname, inst in mod.get('instances', {}).items():
            ga = {k: _arg(v) for k, v in inst.get('genargs', {}).items()}
            ma = {k: _arg(v) for k, v in inst.get('modargs', {}).items()}
            p = f'{pre}/{iname}'
            where[iname] = p
            ref = inst.get('modref') or inst.get('genref')
            if ref in self.mods:
                types[iname] = ['Record', self.mods[ref]['type'][1]]
                self._elab(ref, p)
            else:
                t = _prim_type(ref, ga)
                types[iname] = t
                self.prims.append((ref, ga, ma, p, t))
        for a, b in mod.get('connections', []):
            sa, sb = a.split('.'), b.split('.')
            oa, ta = _sel(types[sa[0]], sa[1:])
            ob, tb = _sel(types[sb[0]], sb[1:])
            na, nb = _flat(ta), _flat(tb)
            if na != nb:
                raise NetlistError(f'connection {a} {b}: {na} {nb}')
            for i in range(na):
                x, y = self._find((where[sa[0]], oa + i)), self._find((where[sb[0]], ob + i))
                if x != y:
                    self.parent[x] = y

    def _bits(self, p, t, path):
        o, ft = _sel(t, path)
        return [self._find((p, o + i)) for i in range(_flat(ft))]

    def _order(self):
        self.regs = []
        self.comb = []
        drivers = {}
        nodes = []
        for ref, ga, ma, p, t in self.prims:
            op = ref.split('.')[1]
            if op == 'term':
                continue
            ins = {}
            for n, ft in t[1]:
                if n in OUTS:
                    continue
                if isinstance(ft, list) and ft[0] == 'Record':
                    for n2, ft2 in ft[1]:
                        if isinstance(ft2, list) and ft2[0] == 'Array' and isinstance(ft2[2], list):
                            ins[n2] = [self._bits(p, t, [n, n2, str(i)]) for i in range(ft2[1])]
                        else:
                            ins[n2] = self._bits(p, t, [n, n2])
                else:
                    ins[n] = self._bits(p, t, [n])
            out = self._bits(p, t, ['out'])
            node = (op, ga, ma, ins, out, p)
            if op in ('reg', 'reg_arst'):
                self.regs.append(node)
            else:
                nodes.append(node)
                for b in out:
                    drivers[b] = node
        done = {}
        order = []
        def need(node):
            r = []
            for v in node[3].values():
                for b in v:
                    r += b if isinstance(b, list) else [b]
            return r
        for root in nodes:
            stack = [(root, 0)]
            while stack:
                node, ph = stack.pop()
                k = id(node)
                if ph:
                    done[k] = 2
                    order.append(node)
                    continue
                if done.get(k) == 2:
                    continue
                if done.get(k) == 1:
                    raise NetlistError('combinational loop')
                done[k] = 1
                stack.append((node, 1))
                for b in need(node):
                    d = drivers.get(b)
                    if d is not None and done.get(id(d)) != 2:
                        if done.get(id(d)) == 1:
                            raise NetlistError('combinational loop')
                        stack.append((d, 0))
        self.comb = order
        self.inputs = {n for n, t in self.io.items() if self._is_in(t)}

    def _is_in(self, t):
        if isinstance(t, str):
            return t == 'BitIn'
        if t[0] == 'Named':
            return t[1].endswith('In')
        if t[0] == 'Array':
            return self._is_in(t[2])
        return False

    def port_bits(self, n):
        o, t = _sel(['Record', list(self.io.items())], [n])
        return [self._find(('top', o + i)) for i in range(_flat(t))]

    def reset(self, n):
        self.n = n
        self.state = {}
        for op, ga, ma, ins, out, p in self.regs:
            init = int(ma.get('init', 0))
            self.state[p] = np.full(n, init, dtype=np.int64)

    def eval(self, inputs):
        """inputs: name -> array; sets self.nets.  An asserted asynchronous
        reset forces the initial value at once."""
        res = self._eval(inputs)
        again = False
        self.held = {}
        for op, ga, ma, ins, out, p in self.regs:
            if op == 'reg_arst':
                r = self._word(ins['arst'])
                if r.any():
                    self.held[p] = r
                    self.state[p] = np.where(r != 0, int(ma.get('init', 0)), self.state[p])
                    again = True
        return self._eval(inputs) if again else res

    def clocked(self):
        """every register is driven by the clock port"""
        clk = self.port_bits('CLK')[0] if 'CLK' in self.io else None
        return all(ins['clk'][0] == clk for op, ga, ma, ins, out, p in self.regs)

    def _eval(self, inputs):
        n = self.n
        nets = {}
        Z = np.zeros(n, dtype=np.int64)
        for name in self.inputs:
            v = inputs.get(name)
            for i, b in enumerate(self.port_bits(name)):
                nets[b] = Z if v is None else (np.asarray(v) >> i) & 1
        for op, ga, ma, ins, out, p in self.regs:
            for i, b in enumerate(out):
                nets[b] = self.state[p] >> i & 1

        def word(bits):
            r = Z
            for i, b in enumerate(bits):
                r = r | nets[b] << i
            return r
        for op, ga, ma, ins, out, p in self.comb:
            w = len(out)
            if op == 'undriven':
                raise NetlistError('undriven net')
            if op == 'const':
                v = np.full(n, int(ma['value']), dtype=np.int64)
            elif op == 'muxn':
                sel = word(ins['sel'])
                v = Z
                for i, d in enumerate(ins['data']):
                    v = np.where(sel == i, word(d), v)
            elif op == 'mux':
                v = np.where(word(ins['sel']) != 0, word(ins['in1']), word(ins['in0']))
            elif op in ('wire', 'zext', 'wrap'):
                v = word(ins['in'])
            elif op == 'sext':
                wi = len(ins['in'])
                x = word(ins['in'])
                v = np.where(x >> (wi - 1) & 1, x - (1 << wi), x)
            elif op == 'slice':
                v = word(ins['in'][ga['lo']:ga['hi']])
            elif op == 'concat':
                v = word(ins['in0']) | word(ins['in1']) << len(ins['in0'])
            elif op == 'not':
                v = ~word(ins['in'])
            elif op == 'neg':
                v = -word(ins['in'])
            elif op == 'andr':
                v = (word(ins['in']) == (1 << len(ins['in'])) - 1).astype(np.int64)
            elif op == 'orr':
                v = (word(ins['in']) != 0).astype(np.int64)
            elif op == 'xorr':
                v = Z
                for b in ins['in']:
                    v = v ^ nets[b]
            else:
                wi = len(ins['in0'])
                a, b = word(ins['in0']), word(ins['in1'])
                s = lambda x: np.where(x >> (wi - 1) & 1, x - (1 << wi), x)
                if op == 'add': v = a + b
                elif op == 'sub': v = a - b
                elif op == 'mul': v = a * b
                elif op == 'and': v = a & b
                elif op == 'or': v = a | b
                elif op == 'xor': v = a ^ b
                elif op == 'eq': v = (a == b).astype(np.int64)
                elif op == 'neq': v = (a != b).astype(np.int64)
                elif op == 'ult': v = (a < b).astype(np.int64)
                elif op == 'ule': v = (a <= b).astype(np.int64)
                elif op == 'ugt': v = (a > b).astype(np.int64)
                elif op == 'uge': v = (a >= b).astype(np.int64)
                elif op == 'slt': v = (s(a) < s(b)).astype(np.int64)
                elif op == 'sle': v = (s(a) <= s(b)).astype(np.int64)
                elif op == 'sgt': v = (s(a) > s(b)).astype(np.int64)
                elif op == 'sge': v = (s(a) >= s(b)).astype(np.int64)
                elif op == 'shl': v = np.where(b < wi, a << np.minimum(b, wi), 0)
                elif op == 'lshr': v = np.where(b < wi, a >> np.minimum(b, wi), 0)
                elif op == 'ashr': v = s(a) >> np.minimum(b, wi)
                elif op == 'udiv': v = np.where(b == 0, (1 << wi) - 1, a // np.maximum(b, 1))
                elif op == 'urem': v = np.where(b == 0, a, a % np.maximum(b, 1))
                else:
                    raise NetlistError(f'primitive {op}')
            for i, b in enumerate(out):
                nets[b] = v >> i & 1
        self.nets = nets
        self._word = word
        res = {}
        for name in self.io:
            if name not in self.inputs:
                bits = self.port_bits(name)
                for b in bits:
                    if b not in nets:
                        raise NetlistError(f'output {name} is not driven')
                res[name] = word(bits)
        return res

    def step(self):
        nxt = {}
        for op, ga, ma, ins, out, p in self.regs:
            nxt[p] = self._word(ins['in'])
            if p in self.held:
                nxt[p] = np.where(self.held[p] != 0, int(ma.get('init', 0)), nxt[p])
        self.state = nxt


def compile_pe(circuit, fname):
    """compile with magma and read the netlist back"""
    import magma as m
    m.compile(fname, circuit, output='coreir')
    with open(fname + '.json') as f:
        return Netlist(f.read())


def fresh_magma():
    import magma
    magma.clear_cachedFunctions()
    magma.frontend.coreir_.ResetCoreIR()
    magma.generator.reset_generator_cache()
