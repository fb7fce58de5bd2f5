"""C11: every rewrite rule the mapper returns is correct."""
import itertools as it
import numpy as np
from hwtypes import BitVector
from mc import lib, linear, mapgen as G, shapes as S
from peak import family as F
from peak.mapper import ArchMapper
from peak.mapper.index_var import OneHot, Binary

ARCHS = [p.tabulate() for p in G.archs()]
IRS = [p.tabulate() for p in G.irs()]
BOX_ARCHS = [p.tabulate() for p in G.box_archs()]
BOX_IRS = [p.tabulate() for p in G.box_irs()]
PLAIN = [p for p in IRS if p.name in ('IU0', 'IU1', 'IB0', 'IB1', 'IQ0', 'IZ2')]
BOXED = G.box_pairs(BOX_ARCHS, BOX_IRS, PLAIN) + [(a, i) for a in ARCHS if a.name in ('Alu', 'Imm', 'Plain') for i in BOX_IRS]
BOXED = [(a, i) for a, i in BOXED if G.candidates(a, i)]
BOX_CONFIGS = [(True, OneHot, -1), (True, Binary, -1), (True, OneHot, 0), (True, Binary, 1)]
# (simple formula, index variables, initial vectors of the loop)
CONFIGS = [(True, OneHot, -1), (False, OneHot, -1), (True, Binary, -1), (False, Binary, -1), (True, OneHot, 0), (False, Binary, 1)]


def cname(c):
    return f'simple={c[0]} {c[1].__name__} init={c[2]}'


def mapper(arch, config, constraints):
    pc = {p: tuple(G.member(l.shape, v) for v in vs) for p, vs in (constraints or {}).items() for l in [leaf_at(arch, p)]}
    return ArchMapper(arch.fc, path_constraints=pc, IVar=config[1])


def leaf_at(arch, path):
    return next(l for f in arch.forms for l in f.leaves if l.path == path)


def solve(arch, ir, config, constraints=None, am=None):
    am = am or mapper(arch, config, constraints)
    im = am.process_ir_instruction(ir.fc, simple_formula=config[0])
    return im.solve('z3', external_loop=True, itr_limit=None, num_init=config[2])


def judge(r, what, rr, arch, ir, constraints=None, limit=64, bb=None):
    """is the returned rule correct?"""
    errs = []
    rule = G.parse(rr, arch, ir, lambda m: errs.append(m))
    if errs:
        r.fail('malformed', f'{what}: {errs[0]}')
        return None
    form, imap, omap, given = rule
    for j, v in given.items():
        vs = (constraints or {}).get(form.leaves[j].path)
        if vs is not None:
            r.check(v in vs, 'constraint', lambda: f'{what}: {form.leaves[j]} is {v}, allowed are {vs}')
    for j in imap:
        r.check(form.leaves[j].path not in (constraints or {}), 'constraint', lambda: f'{what}: {form.leaves[j]} is bound to an input')
    desc = lambda: f'form {form.index}, inputs { {str(form.leaves[j]): i for j, i in imap.items()} }, outputs {omap}, constants { {str(form.leaves[j]): v for j, v in given.items()} }'
    r.check(G.correct(arch, ir, rule), 'wrong-rule', lambda: f'{what}: {desc()} does not compute the program')
    r.state(int(np.prod([l.n for l in ir.forms[0].leaves])))
    want = {a: i for a, i in omap.items()}
    for fam in (F.PyXFamily(),):
        for ws, io, ao in G.execute(rr, arch, ir, rule, fam, limit):
            r.trace()
            if not r.check(all(ao[a] == io[i] for a, i in want.items()), 'wrong-run', lambda: f'{what}: {desc()}: inputs {ws} give {ao}, the program {io}'):
                break
            row = G.table_row(ir, ws)
            r.check(row == io, 'model', lambda: f'{what}: program on {ws} gives {io}, is {row}')
    ce = rr.verify()
    r.check(ce is None, 'verify', lambda: f'{what}: {desc()}: verify() gives {ce}')
    r.outcome(desc())
    return rule


def pair(r, case):
    a, i, c, constraints = case
    arch, ir, config = ARCHS[a], IRS[i], CONFIGS[c]
    what = f'{ir.name} on {arch.name} ({cname(config)}{", " + str(constraints) if constraints else ""})'
    rr = solve(arch, ir, config, dict(constraints))
    r.step(G.candidates(arch, ir))
    if rr is None:
        r.count('no_rule')
        return
    r.count('rules')
    judge(r, what, rr, arch, ir, dict(constraints))


def boxed(r, case):
    """elements and programs that use black boxes"""
    n, c = case
    arch, ir = BOXED[n]
    config = BOX_CONFIGS[c]
    what = f'{ir.name} on {arch.name} ({cname(config)})'
    rr = solve(arch, ir, config)
    r.step(G.candidates(arch, ir))
    if rr is None:
        r.count('no_rule')
        return
    r.count('rules')
    judge(r, what, rr, arch, ir)


LINEAR = [(w, n) for w in (8, 16, 33, 64) for n in range(len(list(linear.programs(w))))]


def linear_solve(case, external=True):
    """(description, mapper's answer) for a program on the linear element"""
    (w, n), c = case
    args, expr, coef, const = list(linear.programs(w))[n]
    simple, IV, init = CONFIGS[c]
    mod = linear.load(w, args, expr)
    im = ArchMapper(mod.PE_fc, IVar=IV).process_ir_instruction(mod.IR_fc, simple_formula=simple)
    rr = im.solve('z3', external_loop=True, itr_limit=None, num_init=init)
    return f'{expr} of {w} bits ({cname(CONFIGS[c])})', rr, (w, args, coef, const), mod


def linear_rule(r, case):
    what, rr, (w, args, coef, const), mod = linear_solve(case)
    r.step()
    if rr is None:
        r.count('no_rule')
        return
    r.count('rules')
    rule = linear.parse(w, rr, args)
    if isinstance(rule, str):
        r.fail('malformed', f'{what}: {rule}')
        return
    r.check(linear.right(w, *rule, args, coef, const), 'wrong-rule', lambda: f'{what}: operation {rule[0]}, operand {rule[1]}, a={rule[2]}, b={rule[3]}')
    ce = rr.verify()
    r.check(ce is None, 'verify', lambda: f'{what}: {rule}: verify() gives {ce}')
    ips, aps = rr.get_input_paths()
    M = (1 << w) - 1
    for k in (0, 1, M, 0x5a5a5a5a5a5a5a5a5a5 & M, 1 << (w - 1)):
        D = BitVector[w]
        iv, av = rr.build_inputs({p: D(k + 3 * (p == ('y',))) for p in ips}, {p: D(k ^ 77 & M) for p in aps}, F.PyXFamily())
        iv, av = dict(iv), dict(av)
        out = mod.PE_fc.PyX()(**av)
        want = (sum(c * (k + 3 * (x == 'y')) for x, c in zip(args.split(), coef)) + const) & M
        r.trace()
        r.check(int(out[0]) == want and int(mod.IR_fc.PyX()(**iv)) == want, 'wrong-run', lambda: f'{what}: {rule} gives {out[0]} for {k}, the program {want}')
    r.outcome((what, rule))


def constraint_sets(a):
    """constraints on one or two leaves of an element"""
    arch = ARCHS[a]
    out = []
    leaves = {}
    for f in arch.forms:
        for l in f.leaves:
            leaves[l.path] = l
    for p, l in leaves.items():
        v = l.valid
        out.append(((p, (v[0],)),))
        out.append(((p, (v[-1],)),))
        if len(v) > 2:
            out.append(((p, (v[1], v[2])),))
        if not l.const:
            out.append(((p, tuple(v)),))
    return out


def constraint_pairs(a):
    """constraints on two leaves"""
    leaves = {l.path: l for f in ARCHS[a].forms for l in f.leaves}
    out = []
    for (p, l), (q, m) in it.combinations(leaves.items(), 2):
        for v, w in ((l.valid[:1], m.valid[-1:]), (l.valid[-2:], m.valid[:1]), (l.valid[:1], m.valid[:2])):
            out.append(((p, tuple(v)), (q, tuple(w))))
    return out


def cases(deep):
    out = []
    for a, arch in enumerate(ARCHS):
        for i, ir in enumerate(IRS):
            if G.candidates(arch, ir):
                for c in range(len(CONFIGS)):
                    out.append((a, i, c, ()))
    return out


def constrained(deep):
    out = []
    for a, arch in enumerate(ARCHS):
        few = 3 if len(arch.forms) > 3 and not deep else 1
        for cs in constraint_sets(a)[::few]:
            for i, ir in enumerate(IRS):
                if G.candidates(arch, ir) and (deep or ir.name in ('IU0', 'IU3', 'IB0', 'IB1', 'IN1', 'IK0', 'IQ0', 'IS0', 'IE9', 'IT0', 'IX1', 'IC0', 'IR1')):
                    for c in range(4 if deep else 2):
                        out.append((a, i, c, cs))
        few = 9 if len(arch.forms) > 3 and not deep else 1
        for cs in constraint_pairs(a)[::few]:
            for i, ir in enumerate(IRS):
                if G.candidates(arch, ir) and (deep or ir.name in ('IU3', 'IB0', 'IK0', 'IN1', 'IX1')):
                    for c in range(4 if deep else 2):
                        out.append((a, i, c, cs))
    return out


def preload(pyx=True):
    """what the parent builds, the forked cases share"""
    for p in ARCHS + IRS + BOX_ARCHS + BOX_IRS:
        p.fc.Py
        p.fc.SMT
        if pyx:
            p.fc.PyX


def main(run):
    deep = lib.thorough()
    preload()
    run.explore('rules', pair, cases(deep), chunk=16, timeout=300)
    run.explore('constrained', pair, constrained(deep), chunk=16, timeout=300)
    run.explore('black_boxes', boxed, [(n, c) for n in range(len(BOXED)) for c in range(len(BOX_CONFIGS))], chunk=16, timeout=300)
    run.explore('linear', linear_rule, [(x, c) for x in LINEAR for c in range(len(CONFIGS)) if deep or c < 2 or (x[1] + c) % 4 == 0], chunk=4, timeout=300)
    run.bounds = {'widths of linear elements': [8, 16, 33, 64], 'elements': len(ARCHS), 'programs': len(IRS), 'width': G.W, 'configurations': [cname(c) for c in CONFIGS]}
