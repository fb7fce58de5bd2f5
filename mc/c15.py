"""C15: the search space of the mapper.  Every instruction of a type belongs to
exactly one form, whose leaves carry exactly its parts; bindings are exactly
the type-respecting pairings, each once; index variables encode choices
one-to-one; simplifying a binding never changes what it stands for."""
import itertools as it
import numpy as np
from mc import lib, shapes as S, evalsmt
from hwtypes.adt import Product
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector, SIntVector
from peak.assembler import Assembler, AssembledADT, _TAG
from peak.mapper.utils import SMTForms, SimplifyBinding, Match, Unbound, create_bindings
from peak.mapper import multi
from peak import family as F
from peak.mapper.index_var import OneHot, Binary

LEAF = ('bit', 'bv', 's', 'u', 'enum')


def forms_of(d, path=()):
    """[(choices, leaves)]: choices {path: alternative index}, leaves [(path, shape)]"""
    if d[0] in LEAF:
        return [({}, [(path, d)])]
    if d[0] in ('tuple', 'prod'):
        out = []
        for combo in it.product(*(forms_of(f, path + (k,)) for k, f in S.fields(d))):
            ch, lv = {}, []
            for c, l in combo:
                ch.update(c)
                lv += l
            out.append((ch, lv))
        return out
    out = []
    for i, (k, f) in enumerate(S.fields(d)):
        for c, l in forms_of(f, path + (k,)):
            out.append(({path: i, **c}, l))
    return out


def parts(d, v, path=()):
    """({path: alternative}, {leaf path: bits}) of an instruction"""
    if d[0] in LEAF:
        return {}, {path: S.encode(d, v)[0]}
    if d[0] in ('tuple', 'prod'):
        ch, lv = {}, {}
        for (k, f), x in zip(S.fields(d), v):
            c, l = parts(f, x, path + (k,))
            ch.update(c)
            lv.update(l)
        return ch, lv
    i, x = v
    k, f = S.fields(d)[i]
    c, l = parts(f, x, path + (k,))
    return {path: i, **c}, l


def unions(d, path=()):
    """{path of a union: shape}"""
    if d[0] in LEAF:
        return {}
    out = {path: d} if d[0] in ('sum', 'tu') else {}
    for k, f in S.fields(d):
        out.update(unions(f, path + (k,)))
    return out


def all_leaves(d, path=()):
    if d[0] in LEAF:
        return {path: d}
    out = {}
    for k, f in S.fields(d):
        out.update(all_leaves(f, path + (k,)))
    return out


def raw(x):
    return x._value_.value if hasattr(x, '_value_') and not isinstance(x, (SMTBit, SMTBitVector)) else x.value


def key_of(d, path):
    """alternative index -> the key the path uses"""
    return [k for k, _ in S.fields(d)]


def forms(r, d):
    T = S.build(d)
    nm = S.sname(d)
    AT = AssembledADT[T, Assembler, SMTBitVector]
    want = forms_of(d)
    un, leaves = unions(d), all_leaves(d)
    vals = S.values(d)
    n = len(vals)
    P = [parts(d, v) for v in vals]
    words = np.array([S.encode(d, v)[0] for v in vals])
    sig = np.array([S.encode(d, v)[1] for v in vals])
    for given in (False, True):
        what = f'{nm} ({"of a value" if given else "free"})'
        if given:
            w = SMTBitVector[S.width(d)]() if d[0] != 'bit' else SMTBit()
            value = AT(w)
            fs, varmap, total = SMTForms()(AT, value=value)
            # whatever the meaningless bits are
            env = {w.value: np.where(True, words | ~sig & ((1 << S.width(d)) - 1), 0)}
        else:
            fs, varmap, total = SMTForms()(AT)
            env = {}
            for p in leaves:
                env[varmap[p].value] = np.array([l.get(p, 0) for _, l in P])
            for p, u in un.items():
                tg = S.tags(u)
                env[varmap[p + (_TAG,)].value] = np.array([tg[c[p]] if p in c else 0 for c, _ in P])
        r.step(n)
        # the whole map: leaves, tags and matches, nothing else
        exp = set(leaves) | {p + (x,) for p in un for x in (_TAG, Match)}
        r.check(set(varmap) == exp, 'varmap', lambda: f'{what}: paths {sorted(map(str, set(varmap) ^ exp))}')
        # exactly one form per combination of choices
        got = [tuple(sorted(((p, key_of(un[p], p).index(k)) for p, k in f.path_dict.items()), key=str)) for f in fs]
        exp = [tuple(sorted(c.items(), key=str)) for c, _ in want]
        r.check(sorted(got, key=str) == sorted(exp, key=str), 'forms', lambda: f'{what}: {len(got)} forms, expected {len(exp)}')
        byform = {tuple(sorted(c.items(), key=str)): [p for p, _ in l] for c, l in want}
        ev = lambda x: evalsmt.evaluate(raw(x), env, n)
        # the matches tell the alternatives apart
        for p, u in un.items():
            here = np.array([p in c for c, _ in P])
            for i, k in enumerate(key_of(u, p)):
                m = ev(varmap[p + (Match,)][k])
                w = np.array([c.get(p) == i for c, _ in P])
                r.check((m == w)[here].all(), 'match', lambda: f'{what}: {p} matches {k} for the wrong instructions')
            t = ev(varmap[p + (_TAG,)])
            tg = S.tags(u)
            r.check(all(t[j] == tg[c[p]] for j, (c, _) in enumerate(P) if p in c), 'tag', lambda: f'{what}: tag at {p}')
            r.step(n)
        for p in leaves:
            x = ev(varmap[p])
            bad = [vals[j] for j, (c, l) in enumerate(P) if p in l and x[j] != l[p]]
            r.check(not bad, 'leaf', lambda: f'{what}: leaf {p} of {bad[0]}')
        for f, k in zip(fs, got):
            if k not in byform:
                continue
            r.check(set(f.varmap) == set(byform[k]) | {p for p in f.varmap if p and p[-1] in (_TAG, Match)}, 'form-leaves', lambda: f'{what}: form {k} has {set(f.varmap)}')
            mine = np.array([tuple(sorted(c.items(), key=str)) == k for c, _ in P])
            x = ev(f.value)
            r.check(((x & sig) == words)[mine].all(), 'form-value', lambda: f'{what}: the value of form {k} is not the instruction it stands for')
            for p in byform[k]:
                y = evalsmt.evaluate(raw(f.varmap[p]), env, n)
                r.check(all(y[j] == P[j][1][p] for j in range(n) if mine[j]), 'form-leaf', lambda: f'{what}: form {k} leaf {p}')
                r.step(int(mine.sum()))
        x = ev(total)
        r.check(((x & sig) == words).all(), 'value', lambda: f'{what}: the value built from the leaves is not the instruction')
        r.trace(n)
        r.state(n)
    r.outcome((nm, len(want)))


def simplify(r, d):
    T = S.build(d)
    nm = S.sname(d)
    AT = AssembledADT[T, Assembler, BitVector]
    leaves = all_leaves(d)
    for v in S.values(d):
        _, lv = parts(d, v)
        bind = [(leafval(leaves[p], b), p) for p, b in lv.items()]
        word, sig = S.encode(d, v)
        for order in (bind, bind[::-1]):
            out = SimplifyBinding()(AT, list(order))
            r.step()
            if not r.check(len(out) == 1 and out[0][1] == (), 'constant', lambda: f'{nm} {v}: constants simplify to {out}'):
                continue
            got = out[0][0]
            got = getattr(got, '_value_', got)
            r.check(int(got) & sig & ((1 << S.width(d)) - 1) == word if d[0] != 'bit' else int(got) == word, 'constant', lambda: f'{nm} {v}: simplifies to {got}')
        r.state()
        if len(lv) > 4:
            continue
        # leave some leaves to the program, or open: expanding gives the same pairs
        for kind in it.product((0, 1, 2), repeat=len(bind)):
            if not any(kind):
                continue
            b2 = [((('in', i),) if k == 1 else Unbound if k == 2 else val, p) for i, ((val, p), k) in enumerate(zip(bind, kind))]
            b2 = [((f'in{i}', p[0]) if isinstance(p, tuple) and len(p) == 1 and isinstance(p[0], tuple) else p, q) for i, (p, q) in enumerate(b2)]
            out = SimplifyBinding()(AT, list(b2))
            r.step()
            want = {q: p for p, q in b2 if isinstance(p, tuple) or p is Unbound}
            cover = {}
            ok = True
            for p, q in out:
                if isinstance(p, tuple) or p is Unbound:
                    ok &= q in want and want[q] == p and q not in cover
                    cover[q] = p
            ok &= set(cover) == set(want)
            # every constant leaf below exactly one constant of the result
            for (val, p), k in zip(bind, kind):
                if k:
                    continue
                above = [(x, q) for x, q in out if p[:len(q)] == q and not isinstance(x, tuple) and x is not Unbound]
                if len(above) != 1:
                    ok = False
                    continue
                x, q = above[0]
                for key in p[len(q):]:
                    x = x[key] if not isinstance(key, str) else getattr(x, key)
                    x = getattr(x, 'value', x) if hasattr(x, 'match') else x
                ok &= int(getattr(x, '_value_', x)) & 0xff == int(getattr(val, '_value_', val)) & 0xff
            r.check(ok, 'partial', lambda: f'{nm} {v}: binding {b2} simplifies to {out}')
        r.trace()
    r.outcome(nm)


def leafval(d, bits):
    if d[0] == 'bit':
        return Bit(bits)
    if d[0] == 's':
        return SIntVector[d[1]](bits)
    if d[0] == 'enum':
        return AssembledADT[S.build(d), Assembler, BitVector](BitVector[S.width(d)](bits))
    return S.build(d)(bits)


TY = [Bit, BitVector[2], SIntVector[2]]
# the last two are different types of one name
TY += [Product.from_fields('T', {'a': Bit}, cache=False), Product.from_fields('T', {'a': Bit, 'b': Bit}, cache=False)]


def bindings(r, case):
    na, ni = case
    arch = {('a', i): TY[t] for i, t in enumerate(na)}
    ir = {('i', i): TY[t] for i, t in enumerate(ni)}
    got = create_bindings(dict(arch), dict(ir))
    g = [frozenset((p, q) for p, q in b) for b in got]
    want = set()
    for pick in it.permutations(list(arch), len(ir)) if len(ir) <= len(arch) else ():
        if all(arch[q] == ir[p] for p, q in zip(ir, pick)):
            m = dict(zip(pick, ir))
            want.add(frozenset((m.get(q, Unbound), q) for q in arch))
    if not ir and not arch:
        want = {frozenset()}
    r.check(len(g) == len(set(g)) and set(g) == want and all(len(b) == len(arch) for b in got), 'bindings',
            lambda: f'arch {na}, program {ni}: {len(got)} bindings, {len(want)} pairings')
    r.step(len(want) + 1)
    # several instructions: every target gets any source of its type (or none)
    for unb in (True, False):
        srcs = {q: [p for p in ir if ir[p] == arch[q]] + ([Unbound] if unb else []) for q in arch}
        try:
            got = multi.create_bindings(dict(ir), dict(arch), use_unbound=unb)
        except ValueError:
            r.check(not unb and any(not s for s in srcs.values()), 'multi-bindings', lambda: f'{case}: rejected')
            continue
        want = {frozenset(zip(l, srcs)) for l in it.product(*srcs.values())}
        g = [frozenset((p, q) for p, q in b) for b in got]
        r.check(len(g) == len(set(g)) and set(g) == want, 'multi-bindings', lambda: f'arch {na}, program {ni}, unbound {unb}: {len(got)} bindings, expected {len(want)}')
        r.step(len(want))
    r.state()
    r.trace()
    r.outcome((len(g), na, ni))


def index(r, n):
    for IV in (OneHot, Binary):
        if IV is OneHot and n > 12:
            continue
        v = IV(n, 'x')
        w = v.var.size
        vals = np.arange(1 << w)
        env = {v.var.value: vals}
        hits = np.zeros(len(vals), dtype=int)
        seen = {}
        for i in range(n):
            m = evalsmt.evaluate(v.match_index(i).value, env, len(vals))
            r.check(m.sum() == 1, 'index', lambda: f'{IV.__name__} of {n}: {m.sum()} values mean {i}')
            hits += m
            for x in np.nonzero(m)[0]:
                seen[int(x)] = i
        r.check(hits.max() == 1, 'index', lambda: f'{IV.__name__} of {n}: a value means two choices')
        ok = evalsmt.evaluate(v.is_valid().value, env, len(vals))
        r.check((ok == hits).all(), 'index-valid', lambda: f'{IV.__name__} of {n}: validity is not "means some choice"')
        for x in range(1 << w):
            try:
                d = v.decode(x)
            except ValueError:
                d = None
            r.check(d == seen.get(x), 'index-decode', lambda: f'{IV.__name__} of {n}: {x} decodes to {d}, means {seen.get(x)}')
            r.step()
        for i in (-1, n):
            try:
                v.match_index(i)
                r.fail('index', f'{IV.__name__} of {n}: accepts choice {i}')
            except ValueError:
                pass
        r.state(1 << w)
        r.trace()
        r.outcome((IV.__name__, n))


# ---- formulas

VARS = 3
ROWS = np.array(list(it.product((0, 1), repeat=VARS)))


def trees1():
    """descriptions of formulas: a variable, or (operator, parts)"""
    out = list(range(VARS))
    for n in (1, 2, 3):
        out += [(o, l) for o in ('And', 'Or') for l in it.product(range(VARS), repeat=n)]
    return out + [('Implies', l) for l in it.product(range(VARS), repeat=2)]


def truth(t):
    if isinstance(t, int):
        return ROWS[:, t]
    vs = [truth(x) for x in t[1]]
    if t[0] == 'And':
        return np.min(vs, axis=0)
    if t[0] == 'Or':
        return np.max(vs, axis=0)
    return np.maximum(1 - vs[0], vs[1])


def formulas(r, case):
    from peak.mapper import formula_constructor as fcons
    vs = [SMTBit() for _ in range(VARS)]
    env = {v.value: ROWS[:, i] for i, v in enumerate(vs)}

    def mk(t):
        if isinstance(t, int):
            return vs[t]
        parts = [mk(x) for x in t[1]]
        return fcons.Implies(*parts) if t[0] == 'Implies' else getattr(fcons, t[0])(iter(parts) if len(parts) % 2 else parts)
    for t in case:
        r.state()
        r.step()
        f = mk(t)
        want = truth(t)
        r.outcome(tuple(want))
        for rnd in (1, 2):
            got = f.to_hwtypes()
            if not r.check(isinstance(got, SMTBit), 'formula', lambda: f'{t}: {got!r}'):
                break
            g = evalsmt.evaluate(got.value, env, len(ROWS))
            r.check((g == want).all(), 'formula', lambda: f'{t}: truth table {list(g)}, not {list(want)}')
    r.trace()


# ---- constants of a rule in another family

def rebind(r, case):
    from peak.mapper.utils import rebind_value, rebind_binding
    w, src, dst = case
    fams = {n: getattr(F, n + 'Family')() for n in ('Py', 'PyX', 'SMT')}
    fs, fd = fams[src], fams[dst]
    T = lambda f: f.BitVector[w] if w else f.Bit
    for v in range(1 << (w or 1)):
        r.state()
        r.step()
        got = rebind_value(T(fs)(v), fd)
        x = got.value.constant_value() if dst == 'SMT' else int(got)
        r.outcome((w, v))
        r.check(type(got) is T(fd) and x == v, 'rebind', lambda: f'{v} of {src} is {got!r} in {dst}')
        path = ('inst', 'x', T(fs))
        b = rebind_binding([(('a', T(fs)), path), (T(fs)(v), path), (Unbound, path)], fd)
        new = ('inst', 'x', T(fd))
        r.check([p for _, p in b] == [new] * 3 and b[0][0] == ('a', T(fs)) and b[2][0] is Unbound and type(b[1][0]) is T(fd)
                and (b[1][0].value.constant_value() if dst == 'SMT' else int(b[1][0])) == v, 'rebind', lambda: f'binding in {dst}: {b}')
    if src == 'SMT':
        try:
            rebind_value(T(fs)(), fd)
            r.fail('rebind', 'a symbolic value that is no constant has no constant')
        except ValueError:
            pass
    r.trace()


def main(run):
    deep = lib.thorough()
    t1 = trees1()
    t2 = [t for t in t1 if not isinstance(t, int)] + [(o, l) for o in ('And', 'Or', 'Implies') for l in it.product(t1, repeat=2)]
    if deep:
        t2 += [(o, l) for o in ('And', 'Or') for l in it.product(t1[::3], repeat=3)]
    run.explore('formulas', formulas, [t2[i:i + 500] for i in range(0, len(t2), 500)], chunk=4, describe=lambda c: str(c[0]))
    run.explore('rebind', rebind, [(w, s, d) for w in (0, 1, 2, 5) for s in ('Py', 'PyX', 'SMT') for d in ('Py', 'PyX', 'SMT')], chunk=4)
    ds = [d for d in S.universe(deep) if not S.has_zero(d)]
    ds = [d for d in ds if len(forms_of(d)) <= (64 if deep else 16)]
    run.explore('forms', forms, ds, chunk=8, describe=S.sname)
    ds = [d for d in S.universe(deep) if d[0] not in LEAF and S.nvalues(d) <= (200 if deep else 60)]
    big = [d for d in S.large(500 if deep else 60) if not S.has_zero(d) and S.width(d) <= 60]
    run.explore('large-forms', forms, big, describe=S.sname)
    run.explore('large-simplify', simplify, [d for d in big if d[0] not in LEAF], describe=S.sname)
    run.explore('simplify', simplify, ds, chunk=8, describe=S.sname)
    L = 5 if deep else 4
    cs = {}
    for k, l in ((3, L), (len(TY), L - 1)):
        ts = [t for n in range(1, l + 1) for t in it.combinations_with_replacement(range(k), n)]
        # order of declaration matters to the enumeration: all orders of the target
        orders = sorted({p for t in ts for p in it.permutations(t)})
        cs.update({(a, i): 1 for a in orders for i in ts})
    run.explore('bindings', bindings, list(cs), chunk=200)
    run.explore('index', index, list(range(1, 13)) + ([16, 17, 31, 32, 33, 255, 256, 257] if deep else [16, 17, 33]))
    run.bounds = {'shapes': len(ds), 'large_shapes': len(big), 'leaves_per_binding': L}
