"""C13: checking a rewrite rule is exact: verify() accepts exactly the correct
rules, and what it gives otherwise is a real counterexample."""
import itertools as it
import numpy as np
from mc import lib, linear, mapgen as G, shapes as S
from mc import c11
from mc.c11 import ARCHS, IRS
from peak import family as F
from peak.mapper import RewriteRule
from peak.mapper.utils import Unbound


def binding(arch, ir, form, imap, omap, given, style):
    """the rule as a user would write it"""
    irl = ir.forms[0].leaves
    ib = []
    for j, l in enumerate(form.leaves):
        if j in imap:
            ib.append((irl[imap[j]].path, l.path))
        elif j in given:
            v = given[j]
            ib.append((G.member(l.shape, v) if style else G.leafval(l.shape, v), l.path))
        else:
            ib.append((Unbound, l.path))
    ob = [(ir.out_leaves[omap[a]].path if a in omap else Unbound, l.path) for a, l in enumerate(arch.out_leaves)]
    if style:
        ib, ob = ib[::-1], ob[::-1]
    return ib, ob


def genuine(r, what, arch, ir, rule, ce):
    """is the counterexample one?"""
    form, imap, omap, given = rule
    if not r.check(isinstance(ce, tuple) and len(ce) == 2, 'counterexample', lambda: f'{what}: {ce!r}'):
        return
    irl = ir.forms[0].leaves
    iv, av = ce
    free = [j for j in range(len(form.leaves)) if j not in imap and j not in given]
    if not r.check(set(iv) == {l.path for l in irl} and set(av) == {form.leaves[j].path for j in free}, 'counterexample',
                   lambda: f'{what}: counterexample names {set(iv)} and {set(av)}'):
        return
    ws = [G.word(iv[l.path]) for l in irl]
    aw = [given[j] if j in given else ws[imap[j]] if j in imap else G.word(av[form.leaves[j].path]) for j in range(len(form.leaves))]
    io = ir.forms[0].table[(slice(None),) + tuple(ws)]
    ao = form.table[(slice(None),) + tuple(aw)]
    if arch.box or ir.box:
        return      # for some function the boxes may compute
    r.check(any(io[i] != ao[a] for a, i in omap.items()), 'counterexample', lambda: f'{what}: inputs {ws} {aw} give the same outputs')


def verify(r, case):
    a, i, cap = case
    arch, ir = (ARCHS[a], IRS[i]) if i is not None else c11.BOXED[a]
    n = 0
    for form in arch.forms:
        for imap in G.injections(ir.forms[0].leaves, form.leaves):
            for omap in G.injections(ir.out_leaves, arch.out_leaves):
                fixed, ok = G.holds(arch, form, ir, imap, omap)
                _, okv = G.holds(arch, form, ir, imap, omap, domain='valid')
                combos = [ws for ws in it.product(*(form.leaves[j].valid for j in fixed))]
                if len(combos) > cap:
                    # correct ones first, then evenly spread ones
                    good = [ws for ws in combos if ok[ws]][:cap // 2]
                    rest = [ws for ws in combos if not ok[ws]]
                    combos = good + rest[::max(1, len(rest) // (cap - len(good)))]
                    r.count('capped_bindings')
                for ws in combos:
                    n += 1
                    given = dict(zip(fixed, ws))
                    ib, ob = binding(arch, ir, form, imap, omap, given, n % 2)
                    what = f'{ir.name} on {arch.name}: {ib} {ob}'
                    rr = RewriteRule(ib, ob, ir.fc, arch.fc)
                    ce = rr.verify()
                    r.state()
                    r.step(int(np.prod([l.n for l in ir.forms[0].leaves])))
                    r.outcome((what, ce is None))
                    if ok[ws]:
                        r.count('correct')
                        r.check(ce is None, 'rejected', lambda: f'{what}: correct, but verify() gives {ce}')
                    elif not okv[ws]:
                        r.count('incorrect')
                        r.check(ce is not None, 'accepted', lambda: f'{what}: incorrect, but verify() accepts it')
                    if ce is not None:
                        genuine(r, what, arch, ir, (form, imap, omap, given), ce)
                    r.trace()


def data_constants(r, case):
    """rules that also give constants to data inputs"""
    a, i, cap = case
    arch, ir = ARCHS[a], IRS[i]
    for form in arch.forms:
        for imap in G.injections(ir.forms[0].leaves, form.leaves):
            rest = [j for j, l in enumerate(form.leaves) if j not in imap and not l.const]
            if not rest:
                continue
            for omap in G.injections(ir.out_leaves, arch.out_leaves):
                for k in range(1, len(rest) + 1):
                    for given_data in it.combinations(rest, k):
                        fixed, ok = G.holds(arch, form, ir, imap, omap, given=given_data)
                        good = [tuple(int(x) for x in ws) for ws in np.argwhere(ok)]
                        bad = [ws for ws in it.product(*(form.leaves[j].valid for j in fixed)) if not ok[ws]]
                        for ws in good[:cap // 2] + bad[::max(1, len(bad) // (cap // 2))]:
                            given = dict(zip(fixed, ws))
                            if any(v not in form.leaves[j].valid for j, v in given.items()):
                                continue
                            ib, ob = binding(arch, ir, form, imap, omap, given, 0)
                            what = f'{ir.name} on {arch.name}: {ib} {ob}'
                            ce = RewriteRule(ib, ob, ir.fc, arch.fc).verify()
                            r.state()
                            r.trace()
                            r.step(int(np.prod([l.n for l in ir.forms[0].leaves])))
                            r.outcome((what, ce is None))
                            r.check((ce is None) == bool(ok[ws]), 'accepted' if ce is None else 'rejected', lambda: f'{what}: verify() gives {ce}')
                            if ce is not None:
                                genuine(r, what, arch, ir, (form, imap, omap, given), ce)


def refuse(r, a):
    """rules that cannot be: constants left open, words that encode nothing"""
    arch = ARCHS[a]
    for i, ir in enumerate(IRS):
        for form in arch.forms:
            for imap in it.islice(G.injections(ir.forms[0].leaves, form.leaves), 1):
                for omap in it.islice(G.injections(ir.out_leaves, arch.out_leaves), 1):
                    base = {j: l.valid[0] for j, l in enumerate(form.leaves) if j not in imap and l.const}
                    for j in base:
                        l = form.leaves[j]
                        for v in [None] + list(range(l.n)):
                            given = dict(base)
                            if v is None:
                                del given[j]
                            else:
                                given[j] = v
                            ib, ob = binding(arch, ir, form, imap, omap, given, 0)
                            try:
                                RewriteRule(ib, ob, ir.fc, arch.fc)
                                ok = True
                            except ValueError:
                                ok = False
                            r.check(ok == (v in l.valid), 'well-formed', lambda: f'{ir.name} on {arch.name}: {ib} is {"accepted" if ok else "refused"}')
                            r.state()
                            r.step()
    r.trace()
    r.outcome(arch.name)


MANY = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
WIDE = """
@family_closure
def IR_fc(family):
    D = family.BitVector[{w}]
    @family.assemble(locals(), globals())
    class IRPE(Peak):
        def __call__(self, {args}) -> (D, D, D):
            return {ires}
    return IRPE
@family_closure
def PE_fc(family):
    D = family.BitVector[{w}]
    @family.assemble(locals(), globals())
    class PE(Peak):
        @name_outputs({outs})
        def __call__(self, {args}):
            return {res}
    return PE
"""


def wide(r, case):
    """twelve inputs and outputs: output i is the difference of inputs i and
    i+1; two inputs exchanged in every way"""
    w, picks = case
    diff = [f'{a} - {b}' for a, b in zip(MANY, MANY[1:] + MANY[:1])]
    src = WIDE.format(w=w, args=', '.join(f'{k}: D' for k in MANY), ires=', '.join(diff[i] for i in picks),
                      outs=', '.join(f'{k}=D' for k in reversed(MANY)), res=', '.join(reversed(diff)))
    mod = G.pegen.load(src, {})
    ob = [((picks.index(i),) if i in picks else Unbound, (k,)) for i, k in enumerate(MANY)]
    for s, t in [(0, 0)] + list(it.combinations(range(12), 2)):
        pi = list(range(12))
        pi[s], pi[t] = pi[t], pi[s]
        ib = [((MANY[pi[i]],), (MANY[i],)) for i in range(12)]
        ce = RewriteRule(ib, ob, mod.IR_fc, mod.PE_fc).verify()
        right = all(pi[i] == i and pi[(i + 1) % 12] == (i + 1) % 12 for i in picks)
        what = f'12 inputs of {w} bits, {MANY[s]} and {MANY[t]} exchanged'
        r.state()
        r.step()
        r.check((ce is None) == right, 'accepted' if ce is None else 'rejected', lambda: f'{what}: verify() gives {ce}')
        if ce is not None and not right:
            iv = [G.word(ce[0][k,]) for k in MANY]
            r.check(any((iv[i] - iv[(i + 1) % 12] - iv[pi[i]] + iv[pi[(i + 1) % 12]]) % (1 << w) for i in picks), 'counterexample', lambda: f'{what}: {ce}')
        r.outcome((w, picks, s, t, ce is None))
    r.trace()


def linear_rules(r, case):
    """every binding of a wide linear program to a wide linear element, with the
    right constants and every constant that differs from it in one bit"""
    w, n = case
    args, expr, coef, const = list(linear.programs(w))[n]
    mod = linear.load(w, args, expr)
    names = args.split()
    M = (1 << w) - 1
    for op, (s, t) in linear.OPS.items():
        k = t * const & M
        step = 1 if w < 9 else w // 8
        imms = [k] + [k ^ 1 << b for b in range(0, w, step)] + [k ^ 1 << (w - 1), ~k & M, k >> 1]
        for rhs in [('imm', x) for x in imms] + [('bit', 0), ('bit', 1)]:
            for a, b in it.permutations(names + [None] * (2 - len(names)), 2):
                ib, ob = linear.binding(w, op, rhs, a, b)
                ce = RewriteRule(ib, ob, mod.IR_fc, mod.PE_fc).verify()
                ok = linear.right(w, op, rhs, a, b, args, coef, const)
                what = f'{expr} of {w} bits: operation {op}, operand {rhs}, a={a}, b={b}'
                r.state()
                r.step()
                r.check((ce is None) == ok, 'accepted' if ce is None else 'rejected', lambda: f'{what}: verify() gives {ce}')
                if ce is not None and not ok:
                    ca, cb, c = linear.element(op, rhs)
                    v = lambda src, q: G.word(ce[1][q,]) if src is None else G.word(ce[0][src,])
                    got = (ca * v(a, 'a') + (cb * v(b, 'b') if cb else 0) + c) & M
                    want = (sum(x * G.word(ce[0][y,]) for x, y in zip(coef, names)) + const) & M
                    r.check(got != want, 'counterexample', lambda: f'{what}: {ce}')
                    r.trace()
    r.outcome((w, expr))


def main(run):
    deep = lib.thorough()
    c11.preload(pyx=False)
    cs = [(a, i, 10**9 if deep else 40) for a in range(len(ARCHS)) for i in range(len(IRS)) if G.candidates(ARCHS[a], IRS[i])]
    run.explore('verify', verify, cs, chunk=4, timeout=800)
    run.explore('black_boxes', verify, [(n, None, 10**9 if deep else 40) for n in range(len(c11.BOXED))], chunk=4, timeout=800)
    run.explore('data_constants', data_constants, [(a, i, 12 if deep else 4) for a, i, _ in cs], chunk=4, timeout=800)
    run.explore('wide', wide, [(w, p) for w in (2, 16, 33) for p in ((0, 5, 10), (11, 2, 3))])
    run.explore('linear', linear_rules, c11.LINEAR, chunk=1, timeout=600)
    run.explore('refuse', refuse, list(range(len(ARCHS))), timeout=300)
    run.bounds = {'elements': len(ARCHS), 'programs': len(IRS), 'width': G.W, 'constants_per_binding': 'all' if deep else 40}
