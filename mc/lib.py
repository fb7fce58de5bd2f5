"""Shared machinery of the explorers: parallel execution of cases in forked
children (so that every case starts from the same process state), counting,
known findings, replay files and the evidence file."""
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NPROC = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)


def thorough():
    return TIER == 'thorough'


class Violated(Exception):
    """Raised by an oracle: the property does not hold for this case."""
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    pass


def repo_frames(tb):
    """does the traceback pass through the code under test?"""
    r = os.path.realpath(REPO)
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(r + os.sep):
            return True
        tb = tb.tb_next
    return False


class Result:
    """What one case covered.  `distinct` holds hashes of observed outcomes so
    that a vacuous exploration shows up in the evidence."""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.outcomes = set()
        self.samples = []
        self.violations = []     # (key, msg, case)
        self.errors = []
        self.nviol = 0

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            h = hashlib.blake2b(repr(o).encode(), digest_size=6).hexdigest()
            self.outcomes.add(h)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, key, msg):
        """record a violation and go on"""
        self.nviol += 1
        if len(self.violations) < 8 or not any(v[0] == key for v in self.violations):
            if len(self.violations) < 60:
                self.violations.append((key, msg, None))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def guard(self, key, fn, *args):
        """run fn; an exception of the code under test, where success is
        required, is a violation."""
        try:
            return True, fn(*args)
        except Violated as v:
            self.fail(v.key, v.msg)
        except Exception as e:
            self.fail(key, f'unexpected {type(e).__name__}: {str(e)[:300]}')
        return False, None


def _child(wfd, fn, items):
    # everything the child reports goes through the pipe
    out = []
    for idx, item in items:
        r = Result()
        t0 = time.time()
        try:
            fn(r, item)
        except Violated as v:
            r.fail(v.key, v.msg)
        except Exception as e:
            tb = traceback.format_exc()
            if repo_frames(e.__traceback__):
                r.fail('exception', f'unexpected {type(e).__name__}: {str(e)[:300]}\n{tb[-1500:]}')
            elif isinstance(e, (MemoryError, OSError, HarnessError)):
                r.errors.append(tb)
            else:
                # every case completes on the code the oracle was validated on:
                # the code under test gave something that cannot be used as documented
                r.fail('unusable-result', f'{type(e).__name__}: {str(e)[:300]}\n{tb[-1500:]}')
        if os.environ.get('VERIF_SLOW') and time.time() - t0 > float(os.environ['VERIF_SLOW']):
            print(f'slow {time.time() - t0:.1f} s: {item!r}', file=sys.stderr, flush=True)
        out.append((idx, r))
    data = pickle.dumps(out)
    with os.fdopen(wfd, 'wb') as f:
        f.write(struct.pack('>Q', len(data)))
        f.write(data)


STUCK = [False]


def pmap(fn, items, chunk=1, timeout=600, jobs=None):
    """Run fn(result, item) for all items, `chunk` of them per forked child.
    Results come back in order.  A child over its time limit is a violation
    ('no-termination') of its first unfinished item: limits are set far above
    what any case needs.  The rest is then left out, the verdict being known."""
    jobs = jobs or NPROC
    if not thorough():
        timeout = min(timeout, 300)
    items = list(enumerate(items))
    chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    chunks.reverse()
    live = {}          # rfd -> [pid, chunk, buf, t0]
    results = {}
    sys.stdout.flush()
    sys.stderr.flush()
    while chunks or live:
        while chunks and len(live) < jobs:
            ch = chunks.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    for fd in list(live):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    os.setpgid(0, 0)
                    d = f'w{os.getpid()}'
                    os.mkdir(d)
                    os.chdir(d)
                    _child(wfd, fn, ch)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wfd)
            live[rfd] = [pid, ch, bytearray(), time.time()]
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            ent = live[fd]
            if data:
                ent[2] += data
                continue
            os.close(fd)
            pid, ch, buf, _ = live.pop(fd)
            _, st = os.waitpid(pid, 0)
            ok = False
            if len(buf) >= 8:
                n = struct.unpack('>Q', bytes(buf[:8]))[0]
                if len(buf) == 8 + n:
                    for idx, r in pickle.loads(bytes(buf[8:])):
                        results[idx] = r
                    ok = True
            if not ok:
                r = Result()
                r.errors.append(f'child {pid} died with status {st} on {ch[0][1]!r}')
                results[ch[0][0]] = r
        now = time.time()
        for fd in list(live):
            pid, ch, buf, t0 = live[fd]
            if now - t0 > timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                live.pop(fd)
                r = Result()
                r.fail('no-termination', f'no answer within {timeout} s: {[str(c[1])[:200] for c in ch][:4]}')
                results[ch[0][0]] = r
                STUCK[0] = True
        if STUCK[0]:
            for fd, (pid, *_) in live.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            break
    return [(c, results[i]) for i, c in items if i in results]


def load_known(prop):
    known = {}
    path = os.path.join(HOME, 'known_findings.txt')
    try:
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN:'):
                parts = line[len('KNOWN:'):].strip().split(None, 2)
                p = parts[0].split('=', 1)[1]
                k = parts[1].split('=', 1)[1]
                if p == prop:
                    known[k] = parts[2] if len(parts) > 2 else ''
    except FileNotFoundError:
        pass
    return known


class Run:
    def __init__(self, prop, only=None):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.nviol = 0
        self.only = only
        self.assumptions = []
        self.bounds = {}
        self.exhaustive = True
        self.parts = {}

    def explore(self, name, fn, cases, chunk=1, timeout=600, jobs=None, describe=str):
        """one exploration: every case in `cases`"""
        cases = list(cases)
        if self.only:
            cases = [c for c in cases if f'{name}/{describe(c)}' == self.only or name == self.only]
            if not cases:
                return []
        if STUCK[0]:
            return []
        t = time.time()
        rs = pmap(fn, cases, chunk=chunk, timeout=timeout, jobs=jobs)
        pt = {'cases': len(cases), 'states': 0, 'transitions': 0, 'traces': 0}
        outc = set()
        for c, r in rs:
            self.states += r.states
            self.transitions += r.transitions
            self.traces += r.traces
            pt['states'] += r.states
            pt['transitions'] += r.transitions
            pt['traces'] += r.traces
            outc |= r.outcomes
            for k, v in r.extra.items():
                self.extra[k] = self.extra.get(k, 0) + v
            for s in r.samples:
                if sum(1 for p, _ in self.samples if p == name) < 2:
                    self.samples.append((name, s))
            self.nviol += r.nviol
            for key, msg, _ in r.violations:
                self.violations.append((key, msg, f'{name}/{describe(c)}'))
            for e in r.errors:
                self.errors.append(f'{name}/{describe(c)}: {e}')
        pt['distinct_outcomes'] = len(outc)
        pt['wall_s'] = round(time.time() - t, 2)
        self.outcomes |= outc
        self.parts[name] = pt
        if os.environ.get('VERIF_VERBOSE'):
            print(f'  [{self.prop}] {name}: {pt}', flush=True)
        return rs

    def finish(self):
        known = load_known(self.prop)
        seen_known = {}
        new = []
        for key, msg, case in self.violations:
            if key in known:
                seen_known.setdefault(key, (msg, case))
            else:
                new.append((key, msg, case))
        rdir = os.path.join(HOME, 'evidence', 'replays')
        for key, (msg, case) in sorted(seen_known.items()):
            print(f'KNOWN-FINDING: property={self.prop} {key}: {known[key]}')
        shown = set()
        lines = []
        for i, (key, msg, case) in enumerate(new):
            if key in shown or len(shown) >= 10:
                continue
            shown.add(key)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.prop}-{len(shown)}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'message': msg, 'case': case,
                           'seed': SEED, 'tier': TIER,
                           'replay': f'VERIF_TIER={TIER} /verif/run.sh {self.prop} --only {case!r}'},
                          f, indent=1)
            print(f'  {self.prop} {key}: {msg}'[:1500])
            print(f'VIOLATION property={self.prop} replay={path}')
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'distinct_outcomes': len(self.outcomes),
            'exhaustive': self.exhaustive,
            'samples': [{'part': p, 'case': s} for p, s in self.samples][:12],
            'parts': self.parts,
            'bounds': self.bounds,
        }
        cov.update(self.extra)
        ev = {
            'property': self.prop,
            'tier': TIER,
            'seed': SEED,
            'level': 'model_checking',
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        if not self.only:
            os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
            with open(os.path.join(HOME, 'evidence', f'{self.prop}.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        if new:
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('HARNESS ERROR', e, file=sys.stderr)
            return 2
        if not self.only and (self.states == 0 or self.transitions == 0):
            print('HARNESS ERROR vacuous exploration', file=sys.stderr)
            return 2
        print(f'OK property={self.prop} tier={TIER} states={self.states} transitions={self.transitions} '
              f'traces={self.traces} outcomes={len(self.outcomes)} wall={ev["wall_s"]}s')
        return 0
