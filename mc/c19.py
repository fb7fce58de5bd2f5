"""C19: the field encoder of peak.bitfield.  The word of an instruction is the
packing of its parts in either direction, inside the width the encoder reports,
at the declared position, different for different instructions and the same in
every process."""
import itertools as it
import json
import os
import subprocess
import sys

from mc import lib, shapes as S
from peak.bitfield import encode, size, sumsize, tag, bitfield
from hwtypes import Bit, BitVector


def clog2(n):
    return (n - 1).bit_length()


def norm(d):
    """shapes the encoder knows: no tuples, tagged unions, automatic codes"""
    if d[0] in ('tuple', 'tu'):
        return False
    if d[0] == 'enum':
        return all(v is not None for _, v in d[1:])
    return all(norm(f) for _, f in S.fields(d))


def order(d):
    """alternatives by name"""
    return sorted(range(len(d) - 1), key=lambda i: (S.build(d[1 + i]).__name__, S.build(d[1 + i]).__module__))


def tagof(d, i, tags):
    return tags[d][i] if d in tags else order(d).index(i)


def tagw(d, tags):
    return clog2(max(tags[d]) + 1) if d in tags else clog2(len(d) - 1)


def wid(d, tags):
    k = d[0]
    if k == 'bit':
        return 1
    if k in ('bv', 's', 'u'):
        return d[1]
    if k == 'enum':
        return clog2(max(len(d) - 2, *(v for _, v in d[1:])) + 1)
    ws = [wid(f, tags) for _, f in S.fields(d)]
    return sum(ws) if k == 'prod' else max(ws) + tagw(d, tags)


def enc(d, v, tags, rev):
    k = d[0]
    if k in ('bit', 'bv', 's', 'u'):
        return v
    if k == 'enum':
        return dict(d[1:])[v]
    w = wid(d, tags)
    if k == 'prod':
        out, pos = 0, 0
        for (_, f), x in zip(S.fields(d), v):
            n = wid(f, tags)
            out += enc(f, x, tags, rev) << (w - pos - n if rev else pos)
            pos += n
        return out
    i, x = v
    f = d[1 + i]
    t = tagw(d, tags)
    if rev:
        return (tagof(d, i, tags) << (w - t)) + enc(f, x, tags, rev)
    return tagof(d, i, tags) + (enc(f, x, tags, rev) << t)


def sums(d):
    out = [d] if d[0] == 'sum' else []
    for _, f in S.fields(d):
        out += [x for x in sums(f) if x not in out]
    return out


def related(d):
    if d[0] == 'sum':
        ts = [S.build(f) for f in d[1:]]
        if len(set(t.__name__ for t in ts)) < len(ts):
            return True
    return any(related(f) for _, f in S.fields(d))


def words(r, case):
    d, taglist, pos = case
    T = S.build(d)
    tags = {}
    for s, ts in taglist:
        tag({S.build(f): t for f, t in zip(s[1:], ts)})(S.build(s))
        tags[s] = ts
    nm = f'{S.sname(d)} tags {[t for _, t in taglist]} position {pos}'
    if pos is not None:
        bitfield(pos)(T)
    w = wid(d, tags)
    r.check(size(T) == w, 'size', lambda: f'{nm}: size {size(T)}, the words need {w} bits')
    if d[0] == 'sum':
        r.check(sumsize(T) == tagw(d, tags), 'size', lambda: f'{nm}: tag size {sumsize(T)}, not {tagw(d, tags)}')
    for rev in (False, True):
        seen = {}
        for v in S.values(d):
            r.state()
            o = S.make(d, v)
            want = enc(d, v, tags, rev) << (pos or 0)
            got = encode(o, rev) if rev else encode(o)
            r.step()
            r.outcome(got)
            if not r.check(isinstance(got, int) and got == want, 'word', lambda: f'{nm} reverse={rev}: {o} is encoded as {got}, its parts give {want}'):
                continue
            r.check(0 <= got < 1 << (w + (pos or 0)), 'word', lambda: f'{nm}: {got} does not fit')
            # codes of one enumeration may coincide only for aliases
            if got in seen and seen[got] != S.make(d, v):
                r.fail('collision', f'{nm} reverse={rev}: {o} and {seen[got]} are both {got}')
            seen[got] = o
            r.check(encode(o, rev) == got, 'word', lambda: f'{nm}: another word the second time')
    r.trace()
    r.sample(nm)


def bad_tags(r, case):
    """tags that do not name every alternative exactly once are refused"""
    d = case
    T = S.build(d)
    fs = [S.build(f) for f in d[1:]]
    n = len(fs)
    for sub in it.chain.from_iterable(it.combinations(range(n), k) for k in range(n + 1)):
        for extra in (False, True):
            for bad in (False, True):
                m = {fs[i]: (i if not bad else str(i)) for i in sub}
                if extra:
                    m[BitVector[7]] = 9
                r.state()
                r.step()
                ok = len(sub) == n and not extra and not (bad and n)
                try:
                    got = tag(m)(T) is T
                except (TypeError, ValueError):
                    got = False
                r.outcome(got)
                r.check(got == ok, 'tags', lambda: f'{S.sname(d)}: tags {m} {"accepted" if got else "refused"}')
    try:
        tag({})(Bit)
        r.fail('tags', 'tags accepted for a Bit')
    except TypeError:
        pass


CHILD = '''
import sys, json
sys.path[:0] = [sys.argv[1], sys.argv[2]]
from mc import c19
print(json.dumps(c19.table()))
'''


def table():
    import mc.shapes as S
    out = []
    for d in UNTAGGED:
        out.append([encode(S.make(d, v)) for v in S.values(d)])
    return out


B, E2, E3 = S.BIT, S.ints(0, 1), S.ints(0, 1, 4)
UNTAGGED = [S.sum_(*fs) for n in (1, 2, 3, 4) for fs in it.permutations([B, E2, S.bv(2), S.prod(B, E2)], n)] + [
    S.prod(B, S.sum_(E2, S.sum_(B, S.bv(2)))), S.sum_(S.prod(B, B), S.prod(E2, B), S.sum_(B, E3))]


def processes(r, case):
    seed = case
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=lib.REPO)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, lib.REPO, lib.HOME], env=env, capture_output=True, text=True)
    if p.returncode:
        raise lib.Violated('process', p.stderr[-600:])
    got = json.loads(p.stdout.splitlines()[-1])
    for d, ws in zip(UNTAGGED, got):
        r.state()
        r.step()
        want = [enc(d, v, {}, False) for v in S.values(d)]
        r.outcome(ws)
        r.check(ws == want, 'process', lambda: f'{S.sname(d)}: in a process with hash seed {seed}: {ws}, otherwise {want}')


def main(run):
    deep = lib.thorough()
    leaves = [B, S.bv(2), S.sbv(2), S.ubv(1), E2, E3, S.ints(3), S.ints(1, 2)]
    u = list(leaves)
    u += [S.prod(*fs) for n in (1, 2) for fs in it.product(leaves, repeat=n)]
    u += [S.prod(a, b, c) for a, b, c in it.product([B, S.sbv(2), E3], repeat=3)]
    u += [S.sum_(*fs) for n in (1, 2, 3) for fs in it.permutations(leaves, n) if n < 3 or deep or B in fs and E3 in fs]
    inner = [S.prod(S.sbv(2), E3), S.sum_(B, E3), S.sum_(S.sbv(2), S.prod(B, E3), E2), S.prod(S.sum_(B, S.bv(2)), B)]
    for x in inner:
        for y in [B, S.sbv(2), E3] + [z for z in inner if z != x]:
            u += [S.prod(x, y), S.prod(y, x), S.sum_(x, y), S.sum_(y, x)]
            if deep:
                u += [S.prod(y, x, B), S.sum_(y, x, S.bv(3)), S.prod(S.sum_(x, y), E3)]
    u = list(dict.fromkeys(d for d in u if norm(d) and not related(d)))
    cases = []
    for d in u:
        ss = sums(d)
        opts = [()]
        for s in ss:
            n = len(s) - 1
            alts = list(it.permutations(range(n))) + [tuple(range(1, n + 1)), tuple(i * 2 for i in range(n)), tuple(4 - i for i in range(n)) if n < 5 else tuple(range(n))]
            if not deep:
                alts = alts[-5:]
            opts += [((s, t),) for t in dict.fromkeys(alts)]
        if len(ss) == 2:
            opts.append(tuple((s, tuple(reversed(range(len(s) - 1)))) for s in ss))
        for o in opts:
            cases.append((d, o, None))
        for pos in (0, 1, 3):
            cases.append((d, opts[-1], pos))
    def plainly(d):
        if d[0] == 'enum':
            return all(v is not None for _, v in d[1:])
        return d[0] in ('bit', 'bv', 's', 'u', 'prod', 'sum') and all(plainly(f) for _, f in S.fields(d))
    big = [d for d in S.large(1000 if deep else 100) if plainly(d) and norm(d) and not related(d)]
    for d in big:
        ss = sums(d)
        for o in [()] + [((s, tuple((5 * i + 2) % 36 for i in range(len(s) - 1))),) for s in ss]:
            cases += [(d, o, None), (d, o, 5)]
    run.explore('words', words, cases, chunk=1 if deep else 1, describe=lambda c: f'{S.sname(c[0])} {[t for _, t in c[1]]} {c[2]}')
    run.explore('bad_tags', bad_tags, [S.sum_(*fs) for n in (1, 2, 3) for fs in it.combinations([B, E2, S.bv(2)], n)], describe=S.sname)
    run.explore('processes', processes, range(12 if deep else 6))
    run.bounds = {'shapes': len(u), 'cases': len(cases), 'large_types': len(big)}
    run.assumptions = ['positions are declared for whole instructions (positions of nested parts are not claimed)', 'alternatives of a union have distinct names']
