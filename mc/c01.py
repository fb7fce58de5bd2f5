"""C01: assembling is lossless.

States: (assembler generation, ISA type, instruction).  Every instruction of
every type of the universe is assembled and disassembled by the real code."""
from mc import shapes as S
from mc import lib
from mc.asmcommon import *


def one_type(r, case):
    gen, d = case
    A = ASMS[gen]
    nm = f'{gen} {S.sname(d)}'
    T = S.build(d)
    try:
        a = A(T)
    except Exception as e:
        r.fail('assembler-construction', f'{nm}: {type(e).__name__} {e}')
        return
    w = a.width
    r.check(isinstance(w, int) and w >= 0, 'width', lambda: f'{nm}: width {w!r}')
    seen = {}
    for v in S.values(d):
        inst = S.make(d, v)
        r.state()
        for again in (0, 1):
            r.step()
            ok, op = r.guard('assemble', a.assemble, inst) if not again else r.guard('assemble', a.assemble, inst, BitVector)
            if not ok:
                break
            if not r.check(type(op) is BitVector[w], 'opcode-type', lambda: f'{nm} {v}: {type(op)} for width {w}'):
                break
            if not r.check(truth(a.is_valid(op)), 'own-encoding-invalid', lambda: f'{nm}: encoding {op!r} of {v} reported invalid'):
                break
            try:
                back = a.disassemble(op)
                bv = unmake(d, back)
            except lib.Violated as e:
                r.fail(e.key, f'{nm} {v}: {e.msg}')
                break
            except Exception as e:
                r.fail('disassemble', f'{nm} {v} -> {op!r}: {type(e).__name__} {e}')
                break
            r.check(bv == v, 'round-trip', lambda: f'{nm}: {v} assembled to {int(op):#b} disassembles to {bv}')
            r.check(truth(back == inst), 'round-trip-eq', lambda: f'{nm}: {v} != its decoding')
            if not again:
                o = int(op)
                if o in seen:
                    r.fail('collision', f'{nm}: {v} and {seen[o]} both assemble to {o:#b}')
                seen[o] = v
                r.outcome((gen, o, w))
            r.trace()
        # symbolic bit-vector kinds carry the same constant
        if S.has_zero(d):
            continue
        r.step()
        try:
            s = a.assemble(inst, SMTBitVector)
            cv = s.value.simplify().constant_value()
            r.check(type(s) is SMTBitVector[w] and cv == int(a.assemble(inst)), 'smt-constant',
                    lambda: f'{nm} {v}: SMT constant {cv} vs {a.assemble(inst)!r}')
        except Exception as e:
            r.fail('assemble-smt', f'{nm} {v}: {type(e).__name__} {e}')
    if gen == 'v1' and d[0] in ('sum', 'tu'):
        tw = a.tag_width
        tagset = {}
        for i, (k, f) in enumerate(S.fields(d)):
            r.step()
            ok, t = r.guard('assemble-tag', a.assemble_tag, k, BitVector)
            if not ok:
                continue
            if not r.check(type(t) is BitVector[tw], 'tag-type', lambda: f'{nm}: tag {t!r}'):
                continue
            r.check(truth(a.is_valid_tag(t)), 'own-tag-invalid', lambda: f'{nm}: tag {t!r} of {k}')
            r.check(int(t) not in tagset, 'tag-collision', lambda: f'{nm}: {k} and {tagset[int(t)]}')
            tagset[int(t)] = k
            ok, kk = r.guard('disassemble-tag', a.disassemble_tag, t)
            if ok:
                r.check(kk == k, 'tag-round-trip', lambda: f'{nm}: {k} -> {t!r} -> {kk}')
            for x in S.values(f) if S.nvalues(f) <= 4096 else S.few(f, 64):
                op = a.assemble(S.make(d, (i, x)))
                lo, hi = a.tag_layout
                r.check(int(op[lo:hi]) == int(t), 'tag-in-opcode', lambda: f'{nm}: {(i, x)} carries tag {int(op[lo:hi])}, not {int(t)}')
                r.step()
    r.sample({'type': nm, 'width': w, 'instructions': len(seen)})


def enum_case(r, case):
    """all enumerations with explicit values from a set and automatically
    numbered members in every interleaving"""
    gen, codes = case
    d = S.enum(*[(f'm{i}', c) for i, c in enumerate(codes)])
    one_type(r, (gen, d))


def enum_space(maxval, maxlen):
    """sequences of distinct explicit values / None of length <= maxlen"""
    out = []
    alphabet = list(range(maxval + 1)) + [None]
    for n in range(1, maxlen + 1):
        for seq in it.product(alphabet, repeat=n):
            ex = [c for c in seq if c is not None]
            if len(set(ex)) == len(ex):
                out.append(seq)
    return out


def main(run):
    deep = lib.thorough()
    u = [d for d in S.universe(deep) if S.nvalues(d) <= 4096]
    # the alternatives of this sum are related by inheritance
    amb = [S.sum_(S.bv(2), S.ubv(2)), S.sum_(S.sbv(2), S.bv(2), S.ubv(2))]
    run.bounds = {'type_shapes': len(u) + len(amb), 'max_nesting': 4, 'max_fields': 3 if not deep else 3,
                  'values': 'all instructions of each type (<= 4096)'}
    run.explore('types', one_type, [(g, d) for d in u + amb for g in ASMS], chunk=40 if not deep else 60,
                describe=lambda c: f'{c[0]} {S.sname(c[1])}')
    run.explore('homonyms', homonymous(lambda r, g, d: one_type(r, (g, d))), homonym_pairs(), chunk=10, describe=hname)
    run.explore('large', one_type, [(g, d) for d in S.large(2000 if deep else 150) for g in ASMS], describe=lambda c: f'{c[0]} {S.sname(c[1])}')
    es = enum_space(5, 3) if not deep else enum_space(6, 4)
    run.bounds['enumerations'] = len(es)
    run.explore('enums', enum_case, [(g, e) for e in es for g in ASMS], chunk=150,
                describe=lambda c: f'{c[0]} {c[1]}')
