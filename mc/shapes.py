"""ISA type shapes: a small description language, the construction of the real
hwtypes types from it, exhaustive value enumeration, and a plain-integer model
of the encoding (boring on purpose: no bit-vector library, no caching)."""
import itertools as it
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion, new_instruction

BIT = ('bit',)
def bv(n): return ('bv', n)
def sbv(n): return ('s', n)
def ubv(n): return ('u', n)
def enum(*members): return ('enum',) + members       # (name, int | None)
def ints(*vals): return ('enum',) + tuple((f'm{v}', v) for v in vals)
def tup(*fs): return ('tuple',) + fs
def prod(*fs): return ('prod',) + fs
def sum_(*fs): return ('sum',) + fs
def tu(*fs): return ('tu',) + fs

_cnt = [0]
_cache = {}


def sname(d):
    k = d[0]
    if k == 'bit':
        return 'Bit'
    if k in ('bv', 's', 'u'):
        return f'{k}{d[1]}'
    if k == 'enum':
        return 'E{' + ','.join(f'{n}' if v is None else f'{v}' for n, v in d[1:]) + '}'
    return k + '(' + ','.join(map(sname, d[1:])) + ')'


def fieldname(d, i):
    # declaration order deliberately differs from alphabetical order
    return 'zyxwvuts'[i] if i < 8 else f'k{i}'


def build(d):
    """the real type of a shape"""
    try:
        return _cache[d]
    except KeyError:
        pass
    k = d[0]
    if k == 'bit':
        t = Bit
    elif k == 'bv':
        t = BitVector[d[1]]
    elif k == 's':
        t = SIntVector[d[1]]
    elif k == 'u':
        t = UIntVector[d[1]]
    elif k == 'enum':
        fields = {n: (new_instruction() if v is None else v) for n, v in d[1:]}
        _cnt[0] += 1
        t = Enum.from_fields(tname(d), fields, cache=False)
    elif k == 'tuple':
        t = Tuple[tuple(build(f) for f in d[1:])]
    elif k == 'prod':
        t = Product.from_fields(tname(d), {fieldname(d, i): build(f) for i, f in enumerate(d[1:])})
    elif k == 'sum':
        t = Sum[tuple(build(f) for f in d[1:])]
    elif k == 'tu':
        t = TaggedUnion.from_fields(tname(d), {fieldname(d, i): build(f) for i, f in enumerate(d[1:])})
    else:
        raise ValueError(d)
    _cache[d] = t
    return t


_homonyms = [False]


def homonyms(on):
    """from now on all types are called the same (and are new ones)"""
    _homonyms[0] = on
    _cache.clear()


def tname(d):
    """a class name that identifies the shape, so that sorting alternatives by
    name is well defined"""
    if _homonyms[0]:
        return 'T'
    s = sname(d)
    for a, b in (('(', '_L'), (')', 'R_'), ('{', '_l'), ('}', 'r_'), (',', '_')):
        s = s.replace(a, b)
    return s


def enum_codes(d):
    """explicit values as given; the others get, in declaration order, the
    smallest unused value"""
    codes = {n: v for n, v in d[1:] if v is not None}
    used = set(codes.values())
    c = 0
    for n, v in d[1:]:
        if v is None:
            while c in used:
                c += 1
            used.add(c)
            codes[n] = c
    return codes


def corners(w):
    """values of a wide vector: small ones, single bits, their complements"""
    m = (1 << w) - 1
    out = {0: 1, 1: 1, 2: 1, 3: 1, 255: 1, 256: 1, m // 3: 1, m ^ m // 3: 1}
    for i in range(w):
        out.update({1 << i: 1, m ^ 1 << i: 1})
    return sorted(set(out) | {m})


_few = {}           # large type: how many values to take


def few(d, n):
    """about n values of a type that cannot be enumerated: every part takes
    several values, between first, last and middle values of the others"""
    k = d[0]
    if k in ('tuple', 'prod'):
        vs = [few(f, max(2, n // 2 // (len(d) - 1))) for f in d[1:]]
        out = {}
        for pick in (lambda v: v[0], lambda v: v[-1], lambda v: v[len(v) // 2]):
            base = [pick(v) for v in vs]
            for i, v in enumerate(vs):
                for x in v:
                    out.setdefault(tuple(base[:i] + [x] + base[i + 1:]))
        return list(out)
    if k in ('sum', 'tu'):
        return [(i, v) for i, f in enumerate(d[1:]) for v in few(f, max(3, n // (len(d) - 1)))]
    vs = values(d)
    return [vs[i * (len(vs) - 1) // (n - 1)] for i in range(n)] if len(vs) > n else vs


def values(d):
    k = d[0]
    if d in _few:
        return few(d, _few[d])
    if k == 'bit':
        return [0, 1]
    if k in ('bv', 's', 'u'):
        return corners(d[1]) if d[1] > 12 else list(range(1 << d[1]))
    if k == 'enum':
        return [n for n, _ in d[1:]]
    if k in ('tuple', 'prod'):
        return list(it.product(*(values(f) for f in d[1:])))
    return [(i, v) for i, f in enumerate(d[1:]) for v in values(f)]


def nvalues(d):
    k = d[0]
    if k == 'bit':
        return 2
    if k in ('bv', 's', 'u'):
        return 1 << d[1]
    if k == 'enum':
        return len(d) - 1
    ns = [nvalues(f) for f in d[1:]]
    if k in ('tuple', 'prod'):
        r = 1
        for n in ns:
            r *= n
        return r
    return sum(ns)


def make(d, v):
    """the real instruction object for a model value"""
    k = d[0]
    T = build(d)
    if k in ('bit', 'bv', 's', 'u'):
        return T(v)
    if k == 'enum':
        return getattr(T, v)
    if k == 'tuple':
        return T(*(make(f, x) for f, x in zip(d[1:], v)))
    if k == 'prod':
        return T(**{fieldname(d, i): make(f, x) for i, (f, x) in enumerate(zip(d[1:], v))})
    i, x = v
    if k == 'sum':
        return T(make(d[1 + i], x))
    return T(**{fieldname(d, i): make(d[1 + i], x)})


def tags(d):
    """alternative index -> tag: alternatives in name order"""
    if d[0] == 'sum':
        order = sorted(range(len(d) - 1), key=lambda i: repr((build(d[1 + i]), build(d[1 + i]))))
    else:
        order = sorted(range(len(d) - 1), key=lambda i: repr((fieldname(d, i), build(d[1 + i]))))
    return {i: t for t, i in enumerate(order)}


def width(d):
    k = d[0]
    if k == 'bit':
        return 1
    if k in ('bv', 's', 'u'):
        return d[1]
    if k == 'enum':
        return max(enum_codes(d).values()).bit_length()
    if k in ('tuple', 'prod'):
        return sum(width(f) for f in d[1:])
    return tagwidth(d) + max(width(f) for f in d[1:])


def has_zero(d):
    """some part has width 0 (there are no 0-bit SMT or hardware vectors)"""
    if width(d) == 0:
        return True
    if d[0] in ('sum', 'tu') and tagwidth(d) == 0:
        return True
    return d[0] in ('tuple', 'prod', 'sum', 'tu') and any(has_zero(f) for f in d[1:])


def tagwidth(d):
    return (len(d) - 2).bit_length()


def encode(d, v):
    """(bits, significant): the encoding and the mask of bits that matter"""
    k = d[0]
    if k in ('bit', 'bv', 's', 'u'):
        return v, (1 << width(d)) - 1
    if k == 'enum':
        return enum_codes(d)[v], (1 << width(d)) - 1
    if k in ('tuple', 'prod'):
        o = s = base = 0
        for f, x in zip(d[1:], v):
            a, m = encode(f, x)
            o |= a << base
            s |= m << base
            base += width(f)
        return o, s
    i, x = v
    tw = tagwidth(d)
    a, m = encode(d[1 + i], x)
    return tags(d)[i] | a << tw, ((1 << tw) - 1) | m << tw


def decode(d, o):
    """model value of an opcode, or None when it encodes no instruction"""
    k = d[0]
    if k in ('bit', 'bv', 's', 'u'):
        return o & ((1 << width(d)) - 1)
    if k == 'enum':
        for n, c in enum_codes(d).items():
            if c == o:
                return n
        return None
    if k in ('tuple', 'prod'):
        r = []
        for f in d[1:]:
            w = width(f)
            x = decode(f, o & ((1 << w) - 1))
            if x is None:
                return None
            r.append(x)
            o >>= w
        return tuple(r)
    tw = tagwidth(d)
    t = o & ((1 << tw) - 1)
    for i, tg in tags(d).items():
        if tg == t:
            f = d[1 + i]
            x = decode(f, (o >> tw) & ((1 << width(f)) - 1))
            return None if x is None else (i, x)
    return None


def fields(d):
    """(key for indexing, sub shape) of a composite"""
    k = d[0]
    if k == 'tuple':
        return [(i, f) for i, f in enumerate(d[1:])]
    if k in ('prod', 'tu'):
        return [(fieldname(d, i), f) for i, f in enumerate(d[1:])]
    if k == 'sum':
        return [(build(f), f) for f in d[1:]]
    return []


# ---------------------------------------------------------------- universes

AUTO3 = enum(('p', 2), ('q', None), ('r', None))        # q=0, r=1
AUTO4 = enum(('p', None), ('q', 1), ('r', None), ('s', None))   # 0 1 2 3
AUTO5 = enum(('p', None), ('q', 6), ('r', None), ('s', 0))      # p=1 q=6 r=2 s=0

LEAVES = [BIT, bv(1), bv(2), sbv(2), ubv(3), ints(0, 1), ints(0, 1, 2), ints(1, 2), ints(0, 2, 3, 5, 6), AUTO3]
LEAVES_T = LEAVES + [bv(3), sbv(3), ints(0), ints(3), ints(0, 1, 2, 3), ints(1, 2, 4), ints(0, 1, 2, 4, 8), ints(2, 3, 5, 6, 7, 9), AUTO4, AUTO5]
SMALL = [BIT, bv(2), ints(0, 1, 2), ints(1, 2)]

KINDS = {'tuple': tup, 'prod': prod, 'sum': sum_, 'tu': tu}


def _comp(kind, fs):
    if kind == 'sum' and len(set(fs)) != len(fs):
        return None
    if kind == 'sum' and len({repr(build(f)) for f in fs}) != len(fs):
        return None
    if kind == 'sum':
        fs = tuple(sorted(fs, key=repr))
    return KINDS[kind](*fs)


def universe(deep=False):
    """a deduplicated list of shapes, simplest first"""
    leaves = LEAVES_T if deep else LEAVES
    seen = {}
    def add(d):
        if d is not None:
            seen.setdefault(d)
    for l in LEAVES_T:
        add(l)
    for k in KINDS:
        for a in leaves:
            add(_comp(k, (a,)))
        for a, b in it.product(leaves, repeat=2):
            add(_comp(k, (a, b)))
        for fs in it.product(SMALL, repeat=3):
            add(_comp(k, fs))
    # zero-width parts
    for k in KINDS:
        add(_comp(k, (ints(0), bv(2))))
        add(_comp(k, (bv(2), ints(0), BIT)))
    # tagged unions that reuse one type under several names
    add(tu(bv(2), bv(2), bv(2), ints(1, 2), bv(2)))
    add(tu(ints(1, 2), BIT, ints(1, 2), ints(0, 1, 2), ints(1, 2)))
    add(tu(ints(0, 2, 3, 5, 6), ints(0, 2, 3, 5, 6), bv(1)))
    add(tu(*([ints(1, 2)] * 3 + [ints(0, 1, 2)] * 3 + [BIT] * 2)))
    add(tu(ints(1, 2), ints(1, 2), ints(0, 1, 2), ints(0, 1, 2)))
    add(sum_(*sorted([BIT, bv(2), bv(3), ints(1, 2), ints(0, 2, 3, 5, 6)], key=repr)))
    # two levels
    mids = [prod(BIT, ints(1, 2)), tup(bv(2), BIT), tu(BIT, bv(2)), tu(ints(1, 2), ints(1, 2), BIT), prod(ints(0, 1, 2)),
            sum_(*sorted([bv(1), ints(0, 1, 2)], key=repr)), sum_(*sorted([bv(2), BIT, ints(1, 2)], key=repr))]
    small = [BIT, ints(1, 2), bv(2)]
    for k in KINDS:
        for m in mids:
            add(_comp(k, (m,)))
            for s in (LEAVES if deep else small):
                add(_comp(k, (m, s)))
                add(_comp(k, (s, m)))
                if deep:
                    for s2 in small:
                        add(_comp(k, (s, m, s2)))
        for a, b in it.product(mids, repeat=2):
            add(_comp(k, (a, b)))
    # three levels
    l3 = [tu(prod(BIT, tu(BIT, bv(2))), ints(1, 2)), prod(ints(1, 2), tu(ints(0, 1, 2), tup(BIT, ints(1, 2))), BIT),
          tup(sum_(*sorted([BIT, tup(ints(1, 2), BIT)], key=repr)), bv(2))]
    for d in l3:
        add(d)
        for k in KINDS:
            add(_comp(k, (d, BIT)))
            add(_comp(k, (ints(1, 2), d)))
    return list(seen)


def large(n=200):
    """types far wider than what can be enumerated: their instructions are
    about n each, see `few`"""
    E17 = ints(*range(17))
    E40 = ints(*range(1, 12), *range(20, 31), 33, 36, 64, 65, 66, 127, 128, 200, 255, *range(100, 109))
    HOT = ints(*(1 << i for i in range(12)))
    FAR = ints(0, 1, 65535)
    MANY = enum(*((f'p{i}', (2 * i if i % 3 == 0 else None)) for i in range(20)))
    ri = prod(bv(7), bv(5), bv(3), bv(5), E17)
    ii = prod(bv(5), bv(3), bv(5), sbv(12))
    mix = [BIT, bv(3), ints(1, 2), sbv(4), ints(0, 1, 2), ubv(5), E17]
    twelve = [mix[i % len(mix)] for i in range(12)]
    sums = sorted([bv(i) for i in range(1, 13)], key=repr)
    deep = BIT
    for i in range(6):
        deep = [prod, tup, tu][i % 3](*([ints(1, 2)] * (i % 2)), deep, bv(i + 1))
    ds = [E17, E40, HOT, FAR, MANY, ints(3, 1 << 20),
            prod(bv(16), BIT, bv(32)), prod(sbv(32), ubv(33), bv(64)), tup(bv(40), E40, sbv(17)), prod(bv(128), BIT),
            prod(*twelve), tup(*twelve), tu(*twelve), prod(*[BIT] * 20), tup(*[bv(2)] * 11), prod(*[ints(0, 1, 2)] * 10),
            tu(*[BIT] * 17), tu(*[bv(i % 5 + 1) for i in range(33)]), tu(*[ints(1, 2)] * 16), tu(*[ints(0, 1, 2)] * 12, bv(3)),
            sum_(*sums), sum_(*sorted([ri, ii, bv(32)], key=repr)), tu(ri, ii, bv(32), bv(25), ri), tu(bv(32), prod(bv(16), ints(1, 2)), BIT),
            prod(tu(bv(32), bv(16)), E40, tu(BIT, sbv(20))), deep, prod(deep, deep), tup(deep, E40, deep), tu(deep, E40, BIT),
            prod(HOT, FAR, MANY), tu(HOT, FAR, MANY), sum_(*sorted([HOT, FAR, E40], key=repr)), prod(prod(*[BIT] * 9), prod(*[bv(2)] * 9)),
            tup(tup(*[bv(9)] * 9), BIT)]
    _few.update({d: n for d in ds if d[0] in KINDS})
    return ds
