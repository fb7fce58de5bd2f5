"""C03: fields of an encoded instruction live in their own bit ranges.

For every composite type of the universe, every instruction, every (nested)
path: the advertised bit range holds exactly the field's own encoding, ranges
of different fields are disjoint and inside the word, and putting encoded
fields together gives the encoding of the instruction."""
from mc import shapes as S
from mc import lib
from mc.asmcommon import *


def get(d, v, i):
    return v[i] if d[0] in ('tuple', 'prod') else None


def paths(d, v):
    """(path keys, sub shape, sub value) for every live part of a value"""
    yield (), d, v
    if d[0] in ('tuple', 'prod'):
        for (k, f), x in zip(S.fields(d), v):
            for p, sd, sv in paths(f, x):
                yield (k,) + p, sd, sv
    elif d[0] in ('sum', 'tu'):
        i, x = v
        k, f = S.fields(d)[i]
        for p, sd, sv in paths(f, x):
            yield (k,) + p, sd, sv


def v1(r, d):
    nm = f'v1 {S.sname(d)}'
    a = Asm1(S.build(d))
    w = a.width
    # ranges
    def ranges(asm, d, base):
        lay = asm.layout
        spans = []
        for k, f in S.fields(d):
            r.step()
            if not r.check(k in lay, 'layout-missing', lambda: f'{nm}: no range for {k}'):
                continue
            lo, hi = lay[k]
            r.check(0 <= lo <= hi <= asm.width, 'layout-bounds', lambda: f'{nm}: {k} at {(lo, hi)} of {asm.width}')
            r.check(hi - lo == Asm1(S.build(f)).width, 'layout-width', lambda: f'{nm}: {k} at {(lo, hi)}')
            spans.append((lo, hi, k))
        if d[0] in ('tuple', 'prod'):
            for (a0, b0, k0), (a1, b1, k1) in it.combinations(spans, 2):
                r.check(b0 <= a1 or b1 <= a0, 'layout-overlap', lambda: f'{nm}: {k0} and {k1}')
            r.check(set(lay) == {k for k, _ in S.fields(d)}, 'layout-extra', lambda: f'{nm}: {dict(lay)}')
            covered = sum(b - a_ for a_, b, _ in spans)
            r.check(covered == asm.width, 'layout-gap', lambda: f'{nm}: {spans} of {asm.width}')
        elif d[0] in ('sum', 'tu'):
            tl = asm.tag_layout
            r.check(tl[1] - tl[0] == asm.tag_width, 'tag-layout', lambda: f'{nm}: {tl}')
            for lo, hi, k in spans:
                r.check(hi <= tl[0] or tl[1] <= lo or lo == hi, 'tag-overlap', lambda: f'{nm}: {k}')
    for path, sd in subshapes(d):
        ranges(Asm1(S.build(sd)), sd, 0)
    for v in S.values(d):
        inst = S.make(d, v)
        op = a.assemble(inst)
        r.state()
        for path, sd, sv in paths(d, v):
            r.step()
            want = Asm1(S.build(sd)).assemble(S.make(sd, sv))
            node = a.sub[path]
            got = op[node.idx]
            r.check(node.asm is Asm1(S.build(sd)) or node.asm.width == want.size, 'sub-assembler', lambda: f'{nm} {path}')
            r.check(got.size == want.size and int(got) == int(want), 'field-range',
                    lambda: f'{nm} {v}: bits {node.idx} hold {got!r}, field {path} encodes as {want!r}')
            # the same node through chained access
            n2 = a.sub
            for k in path:
                n2 = getattr(n2, k) if isinstance(k, str) else n2[k]
            r.check(n2.idx == node.idx, 'sub-access', lambda: f'{nm} {path}: {n2.idx} vs {node.idx}')
            if sd[0] in ('sum', 'tu'):
                k = S.fields(sd)[sv[0]][0]
                t = op[node.tag_idx]
                tt = Asm1(S.build(sd)).assemble_tag(k, BitVector)
                r.check(t.size == tt.size and int(t) == int(tt), 'tag-range', lambda: f'{nm} {v} {path}: tag bits {t!r}, tag {tt!r}')
        r.trace()
        r.outcome((w, int(op)))
    # a wrong path is refused
    for bad in ('no_such_field', 17):
        r.step()
        try:
            a.sub[bad]
            r.fail('bad-path', f'{nm}: {bad} accepted')
        except KeyError:
            pass
    # iteration over the parts
    r.check(list(a.sub) == [k for k, _ in S.fields(d)] or d[0] == 'sum' and set(a.sub) == {k for k, _ in S.fields(d)},
            'sub-iter', lambda: f'{nm}: {list(a.sub)}')
    r.sample({'type': nm, 'width': w})


def v2(r, d):
    nm = f'v2 {S.sname(d)}'
    a = Asm2(S.build(d))
    w = a.width
    for v in S.values(d):
        inst = S.make(d, v)
        op = a.assemble(inst)
        r.state()
        # walk down
        for path, sd, sv in paths(d, v):
            r.step()
            want = Asm2(S.build(sd)).assemble(S.make(sd, sv))
            cur, cd = op, d
            for k in path:
                cur = Asm2(S.build(cd)).extract(cur, k)
                cd = dict(S.fields(cd))[k]
            r.check(cur.size == want.size and int(cur) == int(want), 'field-range',
                    lambda: f'{nm} {v}: field {path} reads {cur!r}, encodes as {want!r}')
            asm = Asm2(S.build(sd))
            if sd[0] in ('sum', 'tu'):
                for j, (k, f) in enumerate(S.fields(sd)):
                    m = truth(asm.match(want, k))
                    r.check(m == (j == sv[0]), 'match', lambda: f'{nm} {v} {path}: {k} matches: {m}')
                if sd[0] == 'tu':
                    # asking by type: any alternative of that type
                    for j, f in enumerate(sd[1:]):
                        m = truth(asm.match(want, S.build(f)))
                        r.check(m == (sd[1 + sv[0]] == f), 'match-type', lambda: f'{nm} {v}: {S.sname(f)} matches: {m}')
            elif sd[0] == 'prod':
                for j, (k, f) in enumerate(S.fields(sd)):
                    x, y = asm.extract(want, k), asm.extract(want, j)
                    r.check(x.size == y.size and int(x) == int(y), 'positional-field', lambda: f'{nm} {v}: {k} / {j}')
            elif sd[0] == 'enum':
                for n, _ in sd[1:]:
                    m = truth(asm.match(want, getattr(S.build(sd), n)))
                    r.check(m == (n == sv), 'match-member', lambda: f'{nm} {v}: {n} matches: {m}')
        # composing
        parts = None
        if d[0] in ('tuple', 'prod'):
            parts = [Asm2(S.build(f)).assemble(S.make(f, x)) for f, x in zip(d[1:], v)]
            calls = [('positional', tuple(parts), {})]
            if d[0] == 'prod':
                names = [k for k, _ in S.fields(d)]
                calls.append(('keywords', (), dict(zip(names, parts))))
                calls.append(('keywords reversed', (), dict(reversed(list(zip(names, parts))))))
                if len(parts) > 1:
                    calls.append(('mixed', tuple(parts[:1]), dict(zip(names[1:], parts[1:]))))
        else:
            k, f = S.fields(d)[v[0]]
            p = Asm2(S.build(f)).assemble(S.make(f, v[1]))
            calls = [('tagged', (), {k: p})] if d[0] == 'tu' else [('typed', (k, p), {})]
        for how, args, kw in calls:
            if w == 0:
                continue
            r.step()
            ok, c = r.guard('from-fields', lambda: a.from_fields(*args, **kw))
            if ok:
                r.check(c.size == w and int(c) == int(op), 'from-fields-value', lambda: f'{nm} {v} ({how}): {c!r}, assembled {op!r}')
        r.trace()
        r.outcome((w, int(op)))
    r.sample({'type': nm, 'width': w})


def one(r, case):
    gen, d = case
    (v1 if gen == 'v1' else v2)(r, d)


def main(run):
    deep = lib.thorough()
    u = [d for d in S.universe(deep) if S.nvalues(d) <= 4096 and d[0] in S.KINDS]
    run.bounds = {'composite_types': len(u), 'values': 'all', 'paths': 'all'}
    run.explore('homonyms', homonymous(lambda r, g, d: one(r, (g, d))), [p for p in homonym_pairs() if p[0][0] in S.KINDS and p[1][0] in S.KINDS], chunk=10, describe=hname)
    run.explore('large', one, [(g, d) for d in S.large(2000 if deep else 150) if d[0] in S.KINDS for g in ASMS], describe=lambda c: f'{c[0]} {S.sname(c[1])}')
    run.explore('layout', one, [(g, d) for d in u for g in ASMS], chunk=30, describe=lambda c: f'{c[0]} {S.sname(c[1])}')
