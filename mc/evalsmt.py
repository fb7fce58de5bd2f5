"""Evaluation of pysmt terms over many assignments at once (numpy), written
independently of any solver.  Values are int64 arrays, bits are 0/1."""
import numpy as np
import pysmt.operators as op


class Unsupported(Exception):
    pass


def _mask(w):
    return (1 << w) - 1


def _signed(x, w):
    return np.where(x >> (w - 1) & 1, x - (1 << w), x)


def evaluate(term, env, n):
    """env: {pysmt symbol -> int64 array of length n}; returns array"""
    memo = {}
    stack = [term]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        todo = [a for a in t.args() if a not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[t] = _node(t, [memo[a] for a in t.args()], env, n)
    return memo[term]


def _node(t, a, env, n):
    k = t.node_type()
    if k == op.SYMBOL:
        return env[t]
    if k == op.BOOL_CONSTANT:
        return np.full(n, int(t.constant_value()), dtype=np.int64)
    if k == op.BV_CONSTANT:
        return np.full(n, t.constant_value(), dtype=np.int64)
    if k == op.AND:
        r = np.ones(n, dtype=np.int64)
        for x in a:
            r = r & x
        return r
    if k == op.OR:
        r = np.zeros(n, dtype=np.int64)
        for x in a:
            r = r | x
        return r
    if k == op.NOT:
        return 1 - a[0]
    if k == op.IMPLIES:
        return (1 - a[0]) | a[1]
    if k == op.IFF:
        return (a[0] == a[1]).astype(np.int64)
    if k == op.ITE:
        return np.where(a[0] != 0, a[1], a[2])
    if k == op.EQUALS:
        return (a[0] == a[1]).astype(np.int64)
    w = t.arg(0).bv_width() if t.args() and t.arg(0).get_type().is_bv_type() else None
    m = _mask(w) if w else 0
    if k == op.BV_NOT:
        return ~a[0] & m
    if k == op.BV_AND:
        return a[0] & a[1]
    if k == op.BV_OR:
        return a[0] | a[1]
    if k == op.BV_XOR:
        return a[0] ^ a[1]
    if k == op.BV_CONCAT:
        return a[0] << t.arg(1).bv_width() | a[1]
    if k == op.BV_EXTRACT:
        lo, hi = t.bv_extract_start(), t.bv_extract_end()
        return a[0] >> lo & _mask(hi - lo + 1)
    if k == op.BV_ULT:
        return (a[0] < a[1]).astype(np.int64)
    if k == op.BV_ULE:
        return (a[0] <= a[1]).astype(np.int64)
    if k == op.BV_SLT:
        return (_signed(a[0], w) < _signed(a[1], w)).astype(np.int64)
    if k == op.BV_SLE:
        return (_signed(a[0], w) <= _signed(a[1], w)).astype(np.int64)
    if k == op.BV_NEG:
        return -a[0] & m
    if k == op.BV_ADD:
        return (a[0] + a[1]) & m
    if k == op.BV_SUB:
        return (a[0] - a[1]) & m
    if k == op.BV_MUL:
        return np.array([int(x) * int(y) & m for x, y in zip(a[0], a[1])], dtype=np.int64)
    if k == op.BV_UDIV:
        return np.where(a[1] == 0, m, a[0] // np.maximum(a[1], 1))
    if k == op.BV_UREM:
        return np.where(a[1] == 0, a[0], a[0] % np.maximum(a[1], 1))
    if k == op.BV_LSHL:
        return np.array([(int(x) << int(y)) & m if y < w else 0 for x, y in zip(a[0], a[1])], dtype=np.int64)
    if k == op.BV_LSHR:
        return np.array([int(x) >> int(y) if y < w else 0 for x, y in zip(a[0], a[1])], dtype=np.int64)
    if k == op.BV_ASHR:
        s = _signed(a[0], w)
        return np.array([int(x) >> min(int(y), w) & m for x, y in zip(s, a[1])], dtype=np.int64)
    if k == op.BV_COMP:
        return (a[0] == a[1]).astype(np.int64)
    if k == op.BV_ZEXT:
        return a[0]
    if k == op.BV_SEXT:
        return _signed(a[0], w) & _mask(t.bv_width())
    if k == op.BV_SDIV or k == op.BV_SREM:
        x, y = _signed(a[0], w), _signed(a[1], w)
        out = []
        for p, q in zip(x.tolist(), y.tolist()):
            if q == 0:
                out.append((p if k == op.BV_SREM else (1 if p < 0 else -1)) & m)
            else:
                d = abs(p) // abs(q)
                if (p < 0) != (q < 0):
                    d = -d
                out.append((d if k == op.BV_SDIV else p - q * d) & m)
        return np.array(out, dtype=np.int64)
    raise Unsupported(op.op_to_str(k))
