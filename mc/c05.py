"""C05: the encoding is a fixed function of the ISA type.

Configurations: hash seed of the interpreter x object addresses (allocation
noise) x order in which the types of an ISA are created x order in which the
alternatives of an unordered union are listed x assembler generation.  In every
configuration all encodings of the corpus are compared with a plain-integer
model of the documented layout (fields from bit 0 in declaration order;
explicit codes as given, the others the smallest unused ones in order; tag in
the low bits, alternatives numbered in name order), and so with each other."""
import os
import subprocess
import sys
from mc import shapes as S
from mc import lib
from mc.asmcommon import *


def corpus(deep):
    I = S.ints
    c = [S.sum_(S.BIT, S.bv(2)), S.sum_(S.BIT, S.bv(2), I(1, 2)), S.sum_(I(0, 1), I(0, 1, 2), I(1, 2)),
         S.sum_(S.bv(1), S.bv(2), S.bv(3), S.bv(4)), S.tu(S.bv(2), S.BIT, I(1, 2)), S.tu(I(1, 2), I(1, 2), S.BIT),
         S.sum_(S.prod(S.BIT, S.bv(2)), S.prod(S.bv(2), S.BIT), S.tup(S.BIT, S.BIT)),
         S.sum_(S.tup(S.BIT, I(1, 2)), S.tu(S.BIT, S.bv(2)), I(0, 1, 2)),
         S.prod(S.sum_(S.BIT, S.bv(2), S.bv(3)), I(0, 2), S.sum_(I(1, 2), I(0, 1, 2))),
         S.tup(S.AUTO3, S.AUTO4, S.AUTO5), S.tu(S.sum_(S.bv(1), S.bv(2), S.bv(3)), S.AUTO5)]
    if deep:
        c += [S.sum_(S.bv(1), S.bv(2), S.bv(3), S.bv(4), I(0, 1)), S.sum_(S.sum_(S.BIT, S.bv(2)), S.sum_(S.BIT, S.bv(3)), I(1, 2)),
              S.sum_(S.AUTO3, S.AUTO4, S.AUTO5, S.BIT)]
    return c


def parts(d):
    """distinct components, smallest first"""
    seen = {}
    def go(d):
        for _, f in S.fields(d):
            go(f)
        seen.setdefault(d)
    for f in [f for f in d[1:] if isinstance(f, tuple) and f and isinstance(f[0], str)] if d[0] in S.KINDS else []:
        go(f)
    return [x for x in seen if x != d]


def encodings(d):
    out = []
    for g in sorted(ASMS):
        a = ASMS[g](S.build(d))
        out.append((g, a.width, [int(a.assemble(S.make(d, v))) for v in S.values(d)]))
    return out


def wanted(d):
    return S.width(d), [S.encode(d, v)[0] for v in S.values(d)]


def check(r, d, where):
    nm = S.sname(d)
    w, enc = wanted(d)
    r.state()
    ok, got = r.guard('encodings', encodings, d)
    if not ok:
        return
    for g, gw, ge in got:
        r.step(len(ge))
        r.check(gw == w, 'width', lambda: f'{g} {nm} {where}: width {gw}, layout rule {w}')
        r.check(ge == enc, 'encoding', lambda: f'{g} {nm} {where}: {ge[:12]}, layout rule {enc[:12]}')
        r.outcome((nm, g, ge))
    r.trace()


def creation(r, case):
    """one type, its components created in the given order, the alternatives of
    the top-level union listed in the given order, with allocation noise"""
    d, order, listing, noise = case
    junk = [type(f'J{i}', (), {}) for i in range(noise)]
    ps = parts(d)
    for i in order:
        # an assembler for a component may exist before the whole is created
        S.build(ps[i])
        if noise % 2:
            for A in ASMS.values():
                A(S.build(ps[i]))
    d2 = d
    if d[0] == 'sum':
        d2 = ('sum',) + tuple(d[1:][i] for i in listing)
    check(r, d2, f'creation order {order}, listed {listing}, noise {noise}')
    r.sample({'type': S.sname(d), 'creation_order': order, 'listing': listing})


def creation_cases(deep):
    out = []
    for d in corpus(deep):
        n = len(parts(d))
        orders = list(it.permutations(range(n))) if n <= 4 else \
            [tuple(range(n)), tuple(reversed(range(n)))] + [tuple((i + s) % n for i in range(n)) for s in range(1, n)]
        k = len(d) - 1
        listings = list(it.permutations(range(k))) if d[0] == 'sum' and k <= 4 else [tuple(range(k))]
        for o in orders:
            for l in (listings if deep else listings[:6]):
                for noise in ((0, 1, 2, 5, 64) if deep else (0, 1, 2)):
                    out.append((d, o, l, noise))
    return out


SUB = """
import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, {home!r}); sys.path.insert(0, {repo!r})
junk = [type('J%d' % i, (), {{}}) for i in range({noise})]
from mc import c05, lib, shapes as S
import json
c = c05.corpus({deep})
if {rev}: c = c[::-1]
print('ENC ' + json.dumps([[S.sname(d), c05.encodings(d)] for d in c]))
"""


def process(r, case):
    """a fresh interpreter with its own hash seed"""
    seed, noise, rev, deep = case
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-c', SUB.format(home=lib.HOME, repo=lib.REPO, noise=noise, deep=deep, rev=rev)],
                       env=env, capture_output=True, text=True, timeout=500)
    lines = [l for l in p.stdout.splitlines() if l.startswith('ENC ')]
    if p.returncode or not lines:
        if lib.REPO in p.stderr:
            r.fail('encodings', f'hash seed {seed}: {p.stderr[-800:]}')
            return
        raise lib.HarnessError(p.stderr[-1500:])
    import json
    got = dict(json.loads(lines[0][4:]))
    for d in corpus(deep):
        w, enc = wanted(d)
        r.state()
        for g, gw, ge in got[S.sname(d)]:
            r.step(len(ge))
            r.check((gw, ge) == (w, enc), 'encoding-across-processes',
                    lambda: f'{g} {S.sname(d)} with hash seed {seed}: {ge[:12]}, layout rule {enc[:12]}')
            r.outcome((S.sname(d), g, ge))
    r.trace()


def whole(r, d):
    check(r, d, 'universe')


def main(run):
    deep = lib.thorough()
    u = [d for d in S.universe(deep) if S.nvalues(d) <= 4096]
    run.explore('universe', whole, u, chunk=60, describe=S.sname)
    run.explore('large', whole, S.large(2000 if deep else 150), chunk=2, describe=S.sname)
    run.explore('homonyms', homonymous(lambda r, g, d: whole(r, d)), homonym_pairs(), chunk=10, describe=hname)
    cs = creation_cases(deep)
    run.explore('creation', creation, cs, chunk=1, describe=lambda c: f'{S.sname(c[0])} {c[1:]}')
    ps = [(s, n, rev, deep) for s in range(1, 33 if deep else 9) for n in ((0, 37) if deep else (s % 3 * 7,)) for rev in (False, True)]
    run.explore('processes', process, ps, describe=str)
    run.bounds = {'types': len(u), 'corpus': len(corpus(deep)), 'creation_configurations': len(cs), 'processes': len(ps)}
    run.assumptions = ['alternatives of an unordered union have distinct printed names '
                       '(the numbering of alternatives with identical names is not defined)']
