"""C17: searching for a sequence of instructions finds one exactly when one exists."""
import contextlib
import functools
import io
import itertools as it
import re
import numpy as np
from mc import lib, mapgen as G, shapes as S
from mc import c15
from mc.c11 import ARCHS, IRS, BOX_ARCHS, BOX_IRS
from peak.mapper.multi import Multi
from peak.mapper.index_var import OneHot, Binary

A = {p.name: p for p in ARCHS + BOX_ARCHS}
I = {p.name: p for p in IRS + BOX_IRS}


# one constant that is not a record
for _p in (G.PE('StepK', [('a', G.D, False), ('k', G.B, True)], [G.D], 'r = a + 1\nif k:\n    r = a ^ 1\nreturn r', lambda f, a, k: a ^ 1 if k else a + 1),
           G.PE('AddK', [('k', G.D, True), ('a', G.D, False)], [G.D], 'return a + k', lambda f, k, a: a + k),
           G.PE('MulK', [('a', G.D, False), ('c', G.B, True), ('b', G.D, False)], [G.D, G.B], 'r = a ^ b\nif c:\n    r = a << 1\nreturn r, c', lambda f, a, c, b: (a << 1 if c else a ^ b, c))):
    A[_p.name] = _p.tabulate()


def data_leaves(form):
    return [j for j, l in enumerate(form.leaves) if not l.const]


def instructions(arch):
    """[(form, words of its constant leaves)]"""
    out = []
    for f in arch.forms:
        const = [l for l in f.leaves if l.const]
        out += [(f, ws) for ws in it.product(*(l.valid for l in const))]
    return out


def table(arch, g):
    """tab[output][instruction, data...] (g: what the black boxes compute)"""
    out = []
    for f, ws in instructions(arch):
        ix = []
        ws = list(ws)
        for l in f.leaves:
            ix.append(ws.pop(0) if l.const else slice(None))
        out.append((f.tables[g] if arch.box else f.table)[(slice(None),) + tuple(ix)])
    return np.stack(out, axis=1)


def sources(arch, ir, n):
    """for every data input of every instruction: what it can be given.
    ('ir', i) | ('out', instruction, output) | None"""
    data = data_leaves(arch.forms[0])
    lv = arch.forms[0].leaves
    out = []
    for k in range(n):
        for j in data:
            ss = [None] + [('ir', i) for i, l in enumerate(ir.forms[0].leaves) if l.shape == lv[j].shape]
            ss += [('out', m, o) for m in range(k) for o, l in enumerate(arch.out_leaves) if l.shape == lv[j].shape]
            out.append(ss)
    return out


def bindings(arch, ir, n):
    need = list(range(len(ir.forms[0].leaves)))
    for b in it.product(*sources(arch, ir, n)):
        if sorted(s[1] for s in b if s and s[0] == 'ir') == need:
            yield b


def outmaps(arch, ir):
    """every output of the program from some output of the last instruction"""
    return list(it.product(*([o for o, l in enumerate(arch.out_leaves) if l.shape == m.shape] for m in ir.out_leaves)))


def programs(arch, ir, n):
    """{(binding, outmap): array of the instructions that work}"""
    out = {}
    for g in range(len(G.BOXES[arch.box or ir.box]) if arch.box or ir.box else 1):
        for b, om, ok in programs_with(arch, ir, n, g):
            out[b, om] = out[b, om] & ok if (b, om) in out else ok
    return out


def programs_with(arch, ir, n, g):
    f = arch.forms[0]
    data = data_leaves(f)
    ws = instructions(arch)
    tab = table(arch, g)
    irtable = ir.forms[0].tables[g] if ir.box else ir.forms[0].table
    irl = ir.forms[0].leaves
    oms = outmaps(arch, ir)
    for b in bindings(arch, ir, n):
        free = [k for k, s in enumerate(b) if s is None]
        dims = [len(ws)] * n + [l.n for l in irl] + [f.leaves[data[k % len(data)]].n for k in free]
        # an open input of the last instruction that matters is a failure, of
        # any other one too: all are quantified
        ax = np.ogrid[tuple(slice(0, d) for d in dims)]
        outs = []
        for k in range(n):
            args = []
            for q in range(len(data)):
                s = b[k * len(data) + q]
                if s is None:
                    args.append(ax[n + len(irl) + free.index(k * len(data) + q)])
                elif s[0] == 'ir':
                    args.append(ax[n + s[1]])
                else:
                    args.append(outs[s[1]][s[2]])
            outs.append([tab[o][(ax[k],) + tuple(args)] for o in range(len(arch.out_leaves))])
        for om in oms:
            ok = True
            for i, o in enumerate(om):
                w = irtable[i][tuple(ax[n + k] for k in range(len(irl)))]
                ok = ok & (outs[-1][o] == w)
            ok = np.broadcast_to(ok, dims).all(axis=tuple(range(n, len(dims))))
            yield b, om, ok


def case(r, c):
    an, iname, n, IV, real = c
    arch, ir = A[an], I[iname]
    what = f'{iname} with {n} x {an} ({IV}, {"direct" if real else "named"} results)'
    some = False
    any_binding = False
    good = {}
    if outmaps(arch, ir):
        for (b, om), ok in programs(arch, ir, n).items():
            any_binding = True
            r.step(ok.size)
            if ok.any():
                some = True
                good.setdefault(b, []).append((om, ok))
    try:
        found = Multi(arch.fc, ir.fc, n, IVar={'OneHot': OneHot, 'Binary': Binary}[IV], use_real=real)(maxloops=None)
    except ValueError as e:
        r.state()
        r.check(not any_binding, 'refused', lambda: f'{what}: {e}')
        r.count('no_binding')
        return
    r.state()
    r.trace()
    r.outcome((c, found is not None))
    r.count('found' if found is not None else 'none')
    if found is None:
        r.check(not some, 'missed', lambda: f'{what}: nothing found, but {next(iter(good))} works')
        return
    if not r.check(some, 'invented', lambda: f'{what}: something is found, but no {n} instructions compute it'):
        return
    # the program is only ever printed
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        found()
    prog = read(out.getvalue(), arch, ir, n)
    if prog is None:
        r.count('not_readable')
        return
    b, insts = prog
    r.count('programs_read')
    if not r.check(b in good, 'wrong-program', lambda: f'{what}: inputs {b} cannot work'):
        return
    r.check(any(ok[x] for x in it.product(*insts) for om, ok in good[b]), 'wrong-program', lambda: f'{what}: instructions {insts} with inputs {b} do not compute it')


@functools.lru_cache(None)
def all_words(d):
    return [(v, *S.encode(d, v)) for v in S.values(d)]


def read(text, arch, ir, n):
    """(binding, instruction indices) from the printed program, or None"""
    data = data_leaves(arch.forms[0])
    names = [arch.forms[0].leaves[j].path[0] for j in data]
    irn = [l.path[0] for l in ir.forms[0].leaves]
    ons = [l.path[0] for l in arch.out_leaves]
    b = {}
    for src, k, name in re.findall(r'^\s*(\S+) <=> Arch_in\.(\d+)\.(\w+)\s*$', text, re.M):
        p = src.split('.')
        if src == 'Unbound':
            s = None
        elif p[0] == 'IR_in' and p[1] in irn:
            s = ('ir', irn.index(p[1]))
        elif p[0] == 'Arch_out':
            o = [i for i, x in enumerate(ons) if str(x) == p[2]]
            if not o:
                return None
            s = ('out', int(p[1]), o[0])
        else:
            return None
        if name not in names:
            return None
        b[int(k), names.index(name)] = s
    vals = re.findall(r'^\[(?:BitVector\[\d+\]|Bit)?\(?(\d+|True|False)\)?\]\s*$', text, re.M)
    if len(vals) != n or len(b) != n * len(data):
        return None
    binding = tuple(b[k, q] for k in range(n) for q in range(len(data)))
    # the word of the constant input, split by the declared layout
    d = next(dd for _, dd, c in arch.inputs if c)
    words = all_words(d)
    lv = [(f.index, ws) for f, ws in instructions(arch)]
    forms = {f.index: [l.path[1:] for l in f.leaves if l.const] for f in arch.forms}
    insts = []
    for x in vals:
        x = {'True': 1, 'False': 0}[x] if x in ('True', 'False') else int(x)
        hit = set()
        for v, w, sig in words:
            if x & sig == w & sig:
                _, parts = c15.parts(d, v)
                hit |= {k for k, (fi, ws) in enumerate(lv) if parts == dict(zip(forms[fi], ws))}
        if not hit:
            return None
        insts.append(hit)
    return binding, insts


def main(run):
    deep = lib.thorough()
    for p in list(A.values()) + list(I.values()):
        p.fc.Py
        p.fc.SMT
    one = ['Alu', 'Imm', 'Two', 'Hole', 'Mac', 'Sum', 'Tagged', 'AddK', 'MulK', 'StepK']
    cs = []
    for an in one:
        for n in (1, 2) + ((3,) if deep or an in ('AddK', 'StepK') else ()):
            for iname, ir in I.items():
                if ir.box or len(ir.forms[0].leaves) > 3 or any(l.const or l.shape not in (G.D, G.B) or len(l.path) > 1 for l in ir.forms[0].leaves) or any(len(l.path) > 1 for l in ir.out_leaves):
                    continue
                if n >= 2 and an == 'Mac' and not deep:
                    continue
                if n >= 2 and an == 'Imm' and iname[1] in 'BQRT' and not deep and iname[2] not in '067':
                    continue
                for IV in ('Binary', 'OneHot'):
                    for real in (True, False):
                        if n > 1 and not deep and (IV == 'OneHot') == real:
                            continue
                        cs.append((an, iname, n, IV, real))
    run.explore('sequences', case, cs, chunk=1, timeout=850)
    bs = []
    for an in ('BxOne', 'BxTwo', 'BxG', 'BxPair', 'BxKinds', 'Alu'):
        for iname, ir in I.items():
            if ir.box and (A[an].box in (ir.box, None)) or iname in ('IU0', 'IB0') and A[an].box:
                for n in (1, 2):
                    if n == 2 and not deep and iname in ('R1', 'J6', 'K3'):
                        continue
                    bs += [(an, iname, n, IV, real) for IV, real in (('Binary', True), ('Binary', False), ('OneHot', True))][:3 if n == 1 or deep else 2]
    run.explore('black_boxes', case, bs, chunk=1, timeout=850)
    run.bounds = {'elements': one, 'instructions': 3 if deep else 2, 'width': G.W}
