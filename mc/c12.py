"""C12: the mapper finds a rewrite rule exactly when one exists."""
import os
import pickle
import select
import signal
from mc import lib, linear, mapgen as G
from mc import c11
from mc.c11 import ARCHS, IRS, CONFIGS, cname, mapper, constraint_sets
from peak.mapper.index_var import OneHot, Binary

BUDGET = 60.0 if lib.thorough() else 6.0


def expected(arch, ir, constraints):
    """True / False / None (depends on what operations outside the type mean)"""
    some = bool(G.rules(arch, ir, constraints, 'all', stop=True))
    if some:
        return True
    return None if G.rules(arch, ir, constraints, 'valid', stop=True) else False


def compare(r, what, exp, found):
    r.state()
    r.trace()
    r.outcome((what, found))
    r.count('found' if found else 'none')
    if exp is None:
        return
    if found and not exp:
        r.fail('invented', f'{what}: a rule is returned, but none is correct')
    elif exp and not found:
        r.fail('missed', f'{what}: no rule, but one exists')


def pair(r, case):
    a, i, c, constraints = case
    arch, ir, config = ARCHS[a], IRS[i], CONFIGS[c]
    constraints = dict(constraints)
    what = f'{ir.name} on {arch.name} ({cname(config)}{", " + str(constraints) if constraints else ""})'
    rr = c11.solve(arch, ir, config, constraints)
    n = G.candidates(arch, ir)
    r.step(n * 4 + 1)
    compare(r, what, expected(arch, ir, constraints), rr is not None)


def boxed(r, case):
    """with black boxes, which may compute anything; only the simple formula
    can say that"""
    n, c = case
    arch, ir = c11.BOXED[n]
    config = c11.BOX_CONFIGS[c]
    what = f'{ir.name} on {arch.name} ({cname(config)})'
    r.step(G.candidates(arch, ir) + 1)
    compare(r, what, expected(arch, ir, {}), c11.solve(arch, ir, config) is not None)
    try:
        mapper(arch, config, {}).process_ir_instruction(ir.fc, simple_formula=False)
        r.fail('refuse', f'{what}: the other formula is not refused')
    except ValueError:
        pass


def linear_pair(r, case):
    what, rr, (w, args, coef, const), mod = c11.linear_solve(case)
    r.step(24)
    compare(r, what, linear.exists(w, args, coef, const), rr is not None)


def bounded(fn, seconds):
    """fn() in a forked child; None when it takes too long (how long a solver
    takes on a quantified formula is not part of the property)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                out = ('ok', fn())
            except Exception as e:
                out = ('exc', f'{type(e).__name__}: {e}')
            os.write(wfd, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(wfd)
    ready, _, _ = select.select([rfd], [], [], seconds)
    data = os.read(rfd, 65536) if ready else b''
    os.close(rfd)
    if not ready:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def direct(r, case):
    """the quantified formula given to the solver as a whole"""
    a, i, simple, IV = case
    arch, ir = ARCHS[a], IRS[i]
    config = (simple, (OneHot, Binary)[IV], -1)
    what = f'{ir.name} on {arch.name} ({cname(config)}, one query)'

    def go():
        im = mapper(arch, config, {}).process_ir_instruction(ir.fc, simple_formula=simple)
        rr = im.solve('z3', external_loop=False)
        if rr is None:
            return None
        res = lib.Result()
        c11.judge(res, what, rr, arch, ir, limit=16)
        return res.violations
    out = bounded(go, BUDGET)
    r.step(G.candidates(arch, ir) + 1)
    if out is None:
        r.count('undecided_by_solver')
        return
    if out[0] == 'exc':
        r.fail('exception', f'{what}: {out[1]}')
        return
    compare(r, what, expected(arch, ir, {}), out[1] is not None)
    for k, m, _ in out[1] or ():
        r.fail(k, m)


def main(run):
    deep = lib.thorough()
    c11.preload(pyx=False)
    allp = [(a, i, c, ()) for a in range(len(ARCHS)) for i in range(len(IRS)) for c in range(len(CONFIGS))
            if G.candidates(ARCHS[a], IRS[i]) or c < 2]
    run.explore('pairs', pair, allp, chunk=16, timeout=300)
    run.explore('constrained', pair, c11.constrained(deep), chunk=16, timeout=300)
    run.explore('black_boxes', boxed, [(n, c) for n in range(len(c11.BOXED)) for c in range(len(c11.BOX_CONFIGS))], chunk=16, timeout=300)
    dp = [(a, i, s, v) for a in range(len(ARCHS)) for i in range(len(IRS)) for s in ((True,) if not deep else (True, False)) for v in (0, 1)
          if G.candidates(ARCHS[a], IRS[i]) and (deep or (len(ARCHS[a].forms) == 1 and G.candidates(ARCHS[a], IRS[i]) <= 2))]
    run.explore('one_query', direct, dp, chunk=4, timeout=600)
    run.explore('linear', linear_pair, [(x, c) for x in c11.LINEAR for c in range(len(CONFIGS)) if deep or c < 2 or (x[1] + c) % 4 == 1], chunk=4, timeout=300)
    run.bounds = {'widths of linear elements': [8, 16, 33, 64], 'elements': len(ARCHS), 'programs': len(IRS), 'width': G.W}
