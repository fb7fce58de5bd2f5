"""Writing PE source files, and running one PE in every interpretation."""
import importlib.util
import itertools as it
import os
import sys
import numpy as np
import hwtypes
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector, SIntVector, UIntVector
from mc import shapes as S
from mc import evalsmt, netlist

_n = [0]
HEAD = '''from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from peak import Peak, family_closure, name_outputs, Const
'''


def load(src, ns):
    """import `src` as a module with `ns` in its globals (ast_tools needs a
    real file behind every class)"""
    _n[0] += 1
    name = f'gen_{os.getpid()}_{_n[0]}'
    path = os.path.abspath(name + '.py')
    with open(path, 'w') as f:
        f.write(HEAD + src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.__dict__.update(ns)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


# ------------------------------------------------ observing an instruction

def tname(d, names):
    """name in the generated module of the type of shape d"""
    if d not in names:
        names[d] = f'T{len(names)}'
    return names[d]


def observe(d, e, ind, names, fresh):
    """statements folding everything that can be observed of `e` (an
    expression of shape d) into the local `o`"""
    p = ' ' * ind
    k = d[0]
    if k == 'bit':
        return [f'{p}if {e}:', f'{p}    o = (o << 1) ^ 1', f'{p}else:', f'{p}    o = (o << 1) ^ 0']
    if k in ('bv', 'u', 's'):
        ext = 'sext' if k == 's' else 'zext'
        return [f'{p}o = (o << {d[1]}) ^ Data({e}.{ext}({8 - d[1]}))']
    if k == 'enum':
        out = []
        T = tname(d, names)
        ms = [n for n, _ in d[1:]]
        if len(ms) == 1:
            return [f'{p}o = (o << 2) ^ 1']
        for i, n in enumerate(ms):
            if i < len(ms) - 1:
                out.append(f'{p}{"el" if i else ""}if {e} == {T}.{n}:')
            else:
                out.append(f'{p}else:')
            out.append(f'{p}    o = (o << 2) ^ {i + 1}')
        return out
    if k in ('tuple', 'prod'):
        out = []
        for key, f in S.fields(d):
            sub = f'{e}[{key}]' if k == 'tuple' else f'{e}.{key}'
            out += observe(f, sub, ind, names, fresh)
        return out
    out = []
    fs = S.fields(d)
    for i, (key, f) in enumerate(fs):
        m = f'{e}[{tname(f, names)}]' if k == 'sum' else f'{e}.{key}'
        if len(fs) == 1:
            q = ind
        else:
            q = ind + 4
            out.append(f'{p}{"el" if i else ""}if {m}.match:' if i < len(fs) - 1 else f'{p}else:')
        out.append(' ' * q + f'o = o + {i + 3}')
        out += observe(f, f'{m}.value', q, names, fresh)
    return out


def observe_model(d, v, o):
    k = d[0]
    M = 255
    if k == 'bit':
        return ((o << 1) ^ v) & M
    if k in ('bv', 'u', 's'):
        n = d[1]
        x = v
        if k == 's' and v >> (n - 1) & 1:
            x = v - (1 << n)
        return ((o << n) ^ x) & M
    if k == 'enum':
        ms = [n for n, _ in d[1:]]
        if len(ms) == 1:
            return ((o << 2) ^ 1) & M
        return ((o << 2) ^ (ms.index(v) + 1)) & M
    if k in ('tuple', 'prod'):
        for f, x in zip(d[1:], v):
            o = observe_model(f, x, o)
        return o
    i, x = v
    return observe_model(d[1 + i], x, (o + i + 3) & M)


def observer(d, const):
    names = {}
    body = observe(d, 'inst', 12, names, None)
    T = tname(d, names)
    ty = f'Const({T})' if const else T
    src = f'''
@family_closure
def PE_fc(family):
    Data = family.BitVector[8]
    @family.assemble(locals(), globals())
    class PE(Peak):
        def __call__(self, inst: {ty}, a: Data) -> Data:
            o = a
''' + '\n'.join(body) + '''
            return o
    return PE
'''
    return load(src, {n: S.build(f) for f, n in names.items()})


def val(x):
    """int of a concrete result (leaf or assembled)"""
    if isinstance(x, (Bit, bool)):
        return int(x)
    if isinstance(x, BitVector):
        return x.as_uint()
    if hasattr(x, '_to_bitvector_'):
        return x._to_bitvector_().as_uint()
    raise TypeError(type(x))


def smt_eval(x, env, n):
    """array of values of a symbolic result (bit, vector or assembled)"""
    if hasattr(x, '_to_bitvector_'):
        x = x._to_bitvector_()
    return evalsmt.evaluate(x.value, env, n)
