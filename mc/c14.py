"""C14: a rewrite rule survives being written out and read back."""
import copy
import hashlib
import itertools as it
import json
import os
import subprocess
import sys
from mc import lib, mapgen as G, shapes as S
from mc import c11, c13
from mc.c11 import ARCHS, IRS
from peak import family as F
from peak.mapper import RewriteRule, read_serialized_bindings
from peak.mapper.utils import Unbound


def plain(x):
    """is this made of what JSON can hold (a union of types by alternative is
    not: its paths contain types)"""
    return not isinstance(x, type)


def jsonable(rr):
    return all(plain(k) for b in (rr.ibinding, rr.obinding) for p, q in b for path in (p, q) if isinstance(path, tuple) for k in path)


def same(a, b):
    """the same bindings, with constants of the same type and value"""
    def key(x):
        if isinstance(x, tuple):
            return ('path', x)
        if x is Unbound:
            return ('unbound',)
        return ('const', type(x), G.word(x))
    return [(key(p), q) for p, q in a.ibinding] == [(key(p), q) for p, q in b.ibinding] and \
        [(key(p), q) for p, q in a.obinding] == [(key(p), q) for p, q in b.obinding]


def all_rules(arch, ir, cap, datacap=4):
    """rules between two elements, correct or not: [(rule, bindings)]"""
    n = 0
    for form in arch.forms:
        for imap in G.injections(ir.forms[0].leaves, form.leaves):
            data = [j for j, l in enumerate(form.leaves) if j not in imap and not l.const]
            for omap in G.injections(ir.out_leaves, arch.out_leaves):
                for k in range(len(data) + 1):
                    for gd in it.combinations(data, k):
                        fixed = [j for j, l in enumerate(form.leaves) if j not in imap and (l.const or j in gd)]
                        combos = list(it.product(*(form.leaves[j].valid for j in fixed)))
                        c = cap if not gd else datacap
                        combos = combos[::max(1, len(combos) // c)]
                        for ws in combos:
                            n += 1
                            given = dict(zip(fixed, ws))
                            yield (form, imap, omap, given), c13.binding(arch, ir, form, imap, omap, given, n % 2)


def roundtrip(r, case):
    a, i, cap = case
    arch, ir = ARCHS[a], IRS[i]
    seen = {}
    for n, (rule, (ib, ob)) in enumerate(all_rules(arch, ir, cap)):
        what = f'{ir.name} on {arch.name}: {ib} {ob}'
        rr = RewriteRule(ib, ob, ir.fc, arch.fc)
        before = copy.copy(rr.ibinding), copy.copy(rr.obinding)
        ser = rr.serialize_bindings()
        r.state()
        texts = [ser]
        if jsonable(rr):
            text = json.dumps(ser)
            texts.append(json.loads(text))
            r.count('through_json')
            # different rules are written differently
            k = (str(rr.ibinding), str(rr.obinding))
            r.check(seen.setdefault(text, k) == k, 'ambiguous', lambda: f'{what} is written like {seen[text]}')
        for s in texts:
            new = read_serialized_bindings(s, ir.fc, arch.fc)
            r.step()
            r.check(same(rr, new), 'different', lambda: f'{what}: read back as {new.ibinding} {new.obinding}')
            r.check(new.ir_fc is ir.fc and new.arch_fc is arch.fc, 'different', lambda: f'{what}: for other elements')
            again = new.serialize_bindings()
            r.check(json.dumps(again, default=str) == json.dumps(ser, default=str), 'unstable', lambda: f'{what}: written {ser}, then {again}')
            if n % 4 == 0:
                one = list(G.execute(rr, arch, ir, rule, F.PyXFamily(), 4))
                two = list(G.execute(new, arch, ir, rule, F.PyXFamily(), 4))
                r.check(one == two, 'behaviour', lambda: f'{what}: computes {one}, after reading back {two}')
                r.trace(len(one))
        r.check((rr.ibinding, rr.obinding) == before, 'changed', lambda: f'{what}: writing it changed it')
    r.outcome((a, i))


def solved(r, case):
    """rules as the mapper returns them"""
    a, i, c = case
    arch, ir = ARCHS[a], IRS[i]
    rr = c11.solve(arch, ir, c11.CONFIGS[c])
    r.step()
    r.state()
    if rr is None:
        return
    ser = rr.serialize_bindings()
    if jsonable(rr):
        ser = json.loads(json.dumps(ser))
    new = read_serialized_bindings(ser, ir.fc, arch.fc)
    what = f'{ir.name} on {arch.name}'
    r.check(same(rr, new), 'different', lambda: f'{what}: {rr.ibinding} {rr.obinding} read back as {new.ibinding} {new.obinding}')
    r.check(new.verify() is None, 'behaviour', lambda: f'{what}: {rr.ibinding} is refuted after reading it back')
    r.trace()
    r.outcome((a, i, str(new.ibinding)))


def digest(arch, ir, rr, rule):
    out = [o for o in G.execute(rr, arch, ir, rule, F.PyXFamily(), 6)]
    return hashlib.blake2b(repr(out).encode(), digest_size=6).hexdigest()


def other_process(r, case):
    """written here, read in another process with another hash seed"""
    a, seed, cap = case
    arch = ARCHS[a]
    todo, want = [], []
    for i, ir in enumerate(IRS):
        if not G.candidates(arch, ir):
            continue
        for n, (rule, (ib, ob)) in enumerate(it.islice(all_rules(arch, ir, 2, 1), cap)):
            rr = RewriteRule(ib, ob, ir.fc, arch.fc)
            if not jsonable(rr):
                continue
            todo.append((i, n, rr.serialize_bindings()))
            want.append(digest(arch, ir, rr, rule))
    if not todo:
        return
    with open('rules.json', 'w') as f:
        json.dump([a, cap, todo], f)
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-m', 'mc.c14', os.path.abspath('rules.json')], env=env, capture_output=True, text=True, timeout=500)
    if p.returncode:
        r.fail('other-process', f'{arch.name}: reading the rules in another process fails: {p.stderr[-800:]}')
        return
    got = json.loads(p.stdout.strip().split('\n')[-1])
    for (i, n, s), w, g in zip(todo, want, got):
        r.state()
        r.step()
        r.trace()
        r.check(w == g, 'other-process', lambda: f'{IRS[i].name} on {arch.name}: {s} computes something else in another process')
    r.outcome((a, seed))


def child(path):
    a, cap, todo = json.load(open(path))
    arch = ARCHS[a]
    out = []
    rules = {}
    for i, n, s in todo:
        ir = IRS[i]
        if i not in rules:
            rules[i] = [x[0] for x in it.islice(all_rules(arch, ir, 2, 1), cap)]
        rr = read_serialized_bindings(s, ir.fc, arch.fc)
        out.append(digest(arch, ir, rr, rules[i][n]))
    print(json.dumps(out))


WIDE = """
@family_closure
def IR_fc(family):
    @family.assemble(locals(), globals())
    class IRPE(Peak):
        def __call__(self, {iargs}) -> family.BitVector[16]:
            return k3
    return IRPE
@family_closure
def PE_fc(family):
    @family.assemble(locals(), globals())
    class PE(Peak):
        @name_outputs({outs})
        def __call__(self, inst: Inst, {args}):
            return {res}
    return PE
"""
MANY = [f'k{i}' for i in (3, 11, 0, 10, 2, 1, 9, 4, 8, 5, 7, 6)]
INST = S.prod(S.ints(0, 1, 2, 300), S.bv(40), S.sbv(20), S.BIT, S.prod(S.ubv(16), S.bv(70)))


def wide(r, case):
    """wide constants and more than ten inputs and outputs: all values of one
    constant (small ones, single bits, their complements), the others first,
    last or unbound; inputs bound in several orders"""
    vary, = case
    from hwtypes import Bit, BitVector
    decl = ', '.join(f'{k}: family.BitVector[16]' for k in MANY)
    src = WIDE.format(iargs=decl, args=decl, outs=', '.join(f'{k}=family.BitVector[16]' for k in MANY), res=', '.join(MANY))
    mod = c11.G.pegen.load(src, {'Inst': S.build(INST)})
    ir, arch = mod.IR_fc, mod.PE_fc
    leaves = [('inst',) + path for path, d in S_leaves(INST)]
    shapes = [d for _, d in S_leaves(INST)]
    vals = [S.values(d) if d[0] != 'enum' else sorted(S.enum_codes(d).values()) for d in shapes]
    seen = {}
    for base, order in it.product((0, -1, None), (0, 1, 2)):
        perm = [MANY[(i * [1, 5, 11][order] + order) % 12] for i in range(12)]
        for x in vals[vary]:
            for style in (0, 1):
                ib = []
                for i, (p, d, vs) in enumerate(zip(leaves, shapes, vals)):
                    v = x if i == vary else None if base is None else vs[base]
                    ib.append((Unbound if v is None else G.member(d, v) if style else G.leafval(d, v), p))
                ib += [((q,), (k,)) for q, k in zip(perm, MANY)]
                ob = [((0,) if i == order else Unbound, (k,)) for i, k in enumerate(MANY)]
                rr = RewriteRule(ib, ob, ir, arch)
                ser = rr.serialize_bindings()
                text = json.dumps(ser)
                k = (base, order, x)
                r.check(seen.setdefault(text, k) == k, 'ambiguous', lambda: f'{ib} is written like {seen[text]}')
                for s in (ser, json.loads(text)):
                    new = read_serialized_bindings(s, ir, arch)
                    r.step()
                    r.check(same(rr, new), 'different', lambda: f'{ib} {ob}: read back as {new.ibinding} {new.obinding}')
                    got = {q: G.word(u) for u, q in new.ibinding if q[0] == 'inst' and u is not Unbound}
                    want = {p: (x if i == vary else vals[i][base]) for i, p in enumerate(leaves) if i == vary or base is not None}
                    r.check(got == want, 'different', lambda: f'{ib}: constants {got} after reading back')
                    r.check(json.dumps(new.serialize_bindings()) == text, 'unstable', lambda: f'{ib}: written {text}, then {new.serialize_bindings()}')
                r.state()
                r.trace()
    r.outcome((vary, len(seen)))


def S_leaves(d, path=()):
    for k, f in S.fields(d):
        if f[0] in S.KINDS:
            yield from S_leaves(f, path + (k,))
        else:
            yield path + (k,), f


def main(run):
    deep = lib.thorough()
    c11.preload()
    ps = [(a, i) for a in range(len(ARCHS)) for i in range(len(IRS)) if G.candidates(ARCHS[a], IRS[i])]
    run.explore('roundtrip', roundtrip, [(a, i, 400 if deep else 24) for a, i in ps], chunk=4, timeout=600)
    run.explore('wide', wide, [(i,) for i in range(len(list(S_leaves(INST))))])
    run.explore('solved', solved, [(a, i, c) for a, i in ps for c in ((0, 1, 2, 3) if deep else (0, 3))], chunk=8, timeout=600)
    run.explore('other_process', other_process, [(a, s, 12 if deep else 6) for a in range(len(ARCHS)) for s in ((1, 2, 3) if deep else (1,))], timeout=800)
    run.bounds = {'elements': len(ARCHS), 'programs': len(IRS), 'constants_per_binding': 400 if deep else 24}


if __name__ == '__main__':
    child(sys.argv[1])
