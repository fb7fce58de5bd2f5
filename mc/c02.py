"""C02: the validity check accepts exactly the encodings of instructions,
whatever was assembled earlier in the process.

Part `types`: every opcode (all bit patterns of the width) of every type of the
universe.  Part `enums`: every set of enumeration codes up to a bound.  Part
`unions`: every assignment of payload types to the alternatives of a tagged
union.  Part `histories`: every ordered sequence of types up to a length, each
in its own fresh process state, the last type checked completely."""
from mc import shapes as S
from mc import lib
from mc.asmcommon import *


def near(d):
    """words of a large type: every encoding, each of them with one bit
    flipped, each tag and member code of each part in place of another"""
    w = S.width(d)
    out = {0: 1, (1 << w) - 1: 1}
    vs = S.values(d)
    for j, v in enumerate(vs):
        e, _ = S.encode(d, v)
        out[e] = 1
        if j % max(1, len(vs) * w // 6000) == 0:
            for i in range(w):
                out[e ^ 1 << i] = 1

    def spots(d, base):
        if d[0] == 'enum' and S.width(d) <= 8:
            yield base, S.width(d)
        elif d[0] in ('tuple', 'prod'):
            for f in d[1:]:
                yield from spots(f, base)
                base += S.width(f)
        elif d[0] in ('sum', 'tu'):
            tw = S.tagwidth(d)
            yield base, tw
            for f in set(d[1:]):
                yield from spots(f, base + tw)
    es = [S.encode(d, v)[0] for v in (vs[0], vs[-1], vs[len(vs) // 2])]
    for lo, n in spots(d, 0):
        for e in es:
            for x in range(1 << n):
                out[e & ~((1 << n) - 1 << lo) | x << lo] = 1
    return list(out)


def check_type(r, gen, d, prefix='', smt=True, dis=True, words=None):
    nm = f'{prefix}{gen} {S.sname(d)}'
    T = S.build(d)
    a = ASMS[gen](T)
    w = a.width
    if not r.check(w == S.width(d), 'width', lambda: f'{nm}: width {w}'):
        return
    smt = smt and not S.has_zero(d) and w <= 6 or words and not S.has_zero(d)
    nth = len(words) // 100 + 1 if words else 1
    acc = rej = 0
    for j, o in enumerate(words or range(1 << w)):
        r.state()
        want = S.decode(d, o)
        op = BitVector[w](o)
        r.step()
        got = truth(a.is_valid(op))
        if want is None:
            rej += 1
            r.check(not got, 'accepts-invalid', lambda: f'{nm}: {o:#0{w+2}b} encodes nothing but is reported valid')
        else:
            acc += 1
            r.check(got, 'rejects-valid', lambda: f'{nm}: {o:#0{w+2}b} encodes {want} but is reported invalid')
        if smt and j % nth == 0:
            r.step()
            sv = a.is_valid(SMTBitVector[w](o)).value.simplify().constant_value()
            r.check(bool(sv) == (want is not None), 'symbolic-validity', lambda: f'{nm}: {o:#b} symbolic validity {sv}')
        if not dis:
            continue
        r.step()
        try:
            back = a.disassemble(op)
        except Exception as e:
            r.check(want is None, 'disassemble-rejects-valid', lambda: f'{nm}: {o:#b} ({want}): {type(e).__name__} {e}')
            if gen == 'v1':
                r.check(type(e) is ValueError, 'rejection-kind', lambda: f'{nm}: {o:#b} rejected with {type(e).__name__} {e}')
        else:
            if r.check(want is not None, 'disassemble-accepts-invalid', lambda: f'{nm}: {o:#b} disassembled to {back!r}'):
                try:
                    b = unmake(d, back)
                except lib.Violated as e:
                    r.fail(e.key, f'{nm} {o:#b}: {e.msg}')
                else:
                    r.check(b == want, 'wrong-instruction', lambda: f'{nm}: {o:#b} disassembles to {b}, encodes {want}')
    if gen == 'v1' and d[0] in ('sum', 'tu'):
        tw = a.tag_width
        tags = S.tags(d)
        inv = {t: i for i, t in tags.items()}
        for t in range(1 << tw):
            r.step()
            tb = BitVector[tw](t)
            r.check(truth(a.is_valid_tag(tb)) == (t in inv), 'tag-validity', lambda: f'{nm}: tag {t}')
            try:
                k = a.disassemble_tag(tb)
            except Exception as e:
                r.check(t not in inv, 'tag-rejects-valid', lambda: f'{nm}: tag {t}: {type(e).__name__} {e}')
                r.check(type(e) is ValueError, 'rejection-kind', lambda: f'{nm}: tag {t} rejected with {type(e).__name__} {e}')
            else:
                r.check(t in inv and k == S.fields(d)[inv[t]][0], 'tag-wrong', lambda: f'{nm}: tag {t} -> {k}')
    r.trace()
    r.outcome((w, acc, rej))
    r.sample({'type': nm, 'opcodes': 1 << w, 'valid': acc, 'invalid': rej})


def one_type(r, case):
    gen, d = case
    check_type(r, gen, d, dis=d[0] != "enum" or S.width(d) <= 5)


def one_large(r, case):
    gen, d = case
    check_type(r, gen, d, words=near(d))


def one_history(r, hist):
    """assemblers for the types of the history are created in this order in a
    process that has created none; then all of them are checked"""
    names = ' > '.join(f'{g} {S.sname(d)}' for g, d in hist)
    for g, d in hist[:-1]:
        ASMS[g](S.build(d))
    # the last one sees everything the earlier ones left behind; the earlier
    # ones are checked too, since construction of a later one may disturb them
    for g, d in reversed(hist):
        check_type(r, g, d, prefix=f'[{names}] ', smt=False, dis=False)


def hist_alphabet(deep):
    I = S.ints
    al = [I(0), I(0, 1), I(0, 1, 2), I(0, 1, 2, 3), I(1, 2), I(2, 3), I(0, 1, 4), I(0, 1, 2, 4), I(1, 2, 4),
          I(0, 1, 2, 3, 5, 6), I(0, 1, 2, 3, 5, 8), I(0, 1, 3, 4, 5, 7), I(0, 1, 2, 3, 8, 9, 10, 11), I(0, 1, 2, 3, 8, 9),
          I(4, 5, 6, 7), I(1, 2, 4, 5, 6, 7, 8), I(0, 1, 4, 5, 6, 7), I(0, 2, 4, 5, 6, 7, 9), I(0, 1, 2, 3, 4, 5, 6, 7),
          S.tu(S.BIT, S.BIT), S.tu(S.BIT, S.BIT, I(1, 2)), S.tu(S.BIT, S.BIT, I(1, 2), I(1, 2)),
          S.tu(S.BIT, S.BIT, I(1, 2), I(1, 2), I(1, 2)), S.tu(I(1, 2), S.BIT, I(1, 2)),
          S.tu(I(1, 2), I(1, 2), S.BIT, S.BIT), S.tu(S.BIT, S.BIT, S.BIT, S.BIT, I(0, 2, 3)),
          S.tu(I(1, 2), S.BIT, S.BIT), S.tu(I(1, 2), I(1, 2), I(1, 2), I(1, 2), S.BIT, S.BIT),
          S.prod(I(0, 1, 2), I(0, 1, 4)), S.tup(I(0, 1, 2, 3, 8, 9, 10), S.BIT)]
    if deep:
        al += [I(0, 1, 2, 3, 4), I(0, 1, 3), I(3, 4, 5), I(1, 2, 3), I(0, 4, 5, 6, 7, 8), I(1, 2, 4, 8), I(0, 1, 2, 4, 8),
               S.tu(*[S.BIT] * 4 + [I(1, 2)] * 4), S.tu(*[I(1, 2)] + [S.BIT] * 7), S.tu(*[S.BIT] * 3 + [I(1, 2)] * 3),
               S.sum_(*sorted([S.BIT, I(1, 2), S.bv(2)], key=repr)), S.tu(I(0, 2), S.BIT)]
    return al


def enum_codes_space(n, maxsize):
    """all nonempty sets of codes below n"""
    out = []
    for k in range(1, min(n, maxsize) + 1):
        out += [S.ints(*c) for c in it.combinations(range(n), k)]
    return out


def structured(deep):
    """wider enumerations with the structure validators like to exploit: runs
    of consecutive codes, and one-hot codes"""
    out = []
    hots = [0] + [1 << i for i in range(8)]
    for k in range(1, len(hots) + 1):
        out += [c for c in it.combinations(hots, k)]
    top = 31
    ends = range(0, top + 1, 1 if deep else 3)
    for a, b in it.combinations_with_replacement(range(top + 1), 2):
        out.append(tuple(range(a, b + 1)))
    for a, b, c, d in it.combinations(ends, 4):
        out.append(tuple(range(a, b + 1)) + tuple(range(c, d + 1)))
        if b == a + ends.step:
            out.append(tuple(range(a, b + 1)) + (c,) + (d,))
    return [S.ints(*c) for c in dict.fromkeys(out)]


def unions(deep):
    """every tagged union over two payload types (one with invalid payloads)"""
    out = []
    pay = [S.ints(1, 2), S.bv(2)]
    for k in range(1, 8 if deep else 7):
        for fs in it.product(pay, repeat=k):
            out.append(S.tu(*fs))
    if deep:
        pay = [S.ints(1, 2), S.BIT, S.ints(0, 2, 3)]
        for k in range(1, 6):
            for fs in it.product(pay, repeat=k):
                out.append(S.tu(*fs))
    return list(dict.fromkeys(out))


def main(run):
    deep = lib.thorough()
    u = [d for d in S.universe(deep) if S.width(d) <= 12]
    d2 = lambda c: f'{c[0]} {S.sname(c[1])}'
    run.explore('types', one_type, [(g, d) for d in u for g in ASMS], chunk=40, describe=d2)
    run.explore('large', one_large, [(g, d) for d in S.large(2000 if deep else 150) for g in ASMS], describe=d2)
    es = enum_codes_space(8, 8)
    if deep:
        es += [e for e in enum_codes_space(16, 16)]
        # every set needs its own state of the shared machinery, in one process
        # the order is by size; smaller sets are what larger ones are built of
    else:
        es += [e for e in enum_codes_space(12, 5)]
    es = list(dict.fromkeys(es + structured(deep)))
    run.explore('enums', one_type, [(g, e) for g in ASMS for e in es], chunk=250 if not deep else 1200, describe=d2)
    run.explore('homonyms', homonymous(lambda r, g, d: one_type(r, (g, d))), homonym_pairs(), chunk=10, describe=hname)
    us = unions(deep)
    run.explore('unions', one_type, [(g, e) for e in us for g in ASMS], chunk=20, describe=d2)
    al = hist_alphabet(deep)
    hs = []
    for g in ASMS:
        hs += [((g, a), (g, b)) for a, b in it.permutations(al, 2)]
    # the two generations next to each other
    short = al[::3] if not deep else al
    hs += [((g, a), (h, b)) for a, b in it.permutations(short, 2) for g, h in (('v1', 'v2'), ('v2', 'v1'))]
    if deep:
        tri = al[:27:2]
        for g in ASMS:
            hs += [tuple((g, x) for x in t) for t in it.permutations(tri, 3)]
    run.explore('histories', one_history, hs, chunk=1,
                describe=lambda h: ' > '.join(f'{g} {S.sname(d)}' for g, d in h))
    run.bounds = {'types': len(u), 'enumeration_code_sets': len(es), 'unions': len(us),
                  'history_alphabet': len(al), 'history_length': 3 if deep else 2, 'histories': len(hs)}
