'''
Small explicit-state / stateless model-checking core.

A check module enumerates *cases* (JSON-able specs: a configuration plus a history of operations,
a schedule, a crash point, ...) and runs each one on the real code from /repo, comparing every
observation with a reference model. The core runs the whole enumeration on all cores, counts what
was covered, and turns the first (simplest) disagreement into a replayable artefact.
'''
import collections
import hashlib
import importlib
import io
import itertools
import json
import logging
import math
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    '''The property does not hold on this case. `key` identifies the failing input/site.'''

    def __init__(self, message, key=None):
        super(Violation, self).__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


def digest(obj):
    '''A stable 64-bit digest of a canonical form (used to count distinct states).'''
    return struct.unpack('<Q', hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())[0]


class Ctx:
    '''Collected by a worker: coverage counters and the current case.'''

    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.last_dir = None

    def state(self, *key):
        '''Record a visited state (canonical key).'''
        self.states.add(digest(key))

    def step(self, n=1):
        '''Record n explored transitions (operations executed on the real code and compared).'''
        self.transitions += n

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def check(self, cond, message, key=None):
        if not cond:
            raise Violation(message, key)

    def fresh_dir(self):
        '''Empty scratch working directory (cwd) for the case.'''
        os.chdir(self.scratch)
        if self.last_dir:
            shutil.rmtree(self.last_dir, ignore_errors=True)
        self.last_dir = d = tempfile.mkdtemp(dir=self.scratch)
        os.chdir(d)
        return d


# ---------------------------------------------------------------------------------- comparison

def same(a, b, rtol=1e-9, atol=1e-9):
    '''Array equality with NaN == NaN, tolerant to float re-association.'''
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all((x is y) or (x == y) or (x != x and y != y)
                   for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if a.dtype.kind in 'SU' or b.dtype.kind in 'SU':
        return bool((a == b).all())
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def ident(a, b):
    '''Exact array equality (NaN == NaN).'''
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return same(a, b)
    return bool(((a == b) | ((a != a) & (b != b))).all())


def raises(fn, *excs):
    '''True iff fn() raises one of excs (default: any Exception).'''
    try:
        fn()
    except (excs or (Exception,)):
        return True
    return False


# ------------------------------------------------------------------------------------- running

def _silence():
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    try:
        import numpy as np
        np.seterr(all='ignore')
    except ImportError:
        pass


def _alarm(signum, frame):
    raise CaseTimeout()


def is_environment_failure(exc):
    return isinstance(exc, (MemoryError, KeyboardInterrupt)) or \
        (isinstance(exc, OSError) and exc.errno in (12, 24, 28, 11))


def run_one(module, spec, ctx, timeout):
    '''Run one case. Returns None, or (key, message).'''
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        module.run(spec, ctx)
        ctx.traces += 1
        return None
    except Violation as v:
        return (v.key, str(v))
    except CaseTimeout:
        return ('timeout', 'did not terminate within {}s'.format(timeout))
    except Exception as exc:
        if is_environment_failure(exc):
            raise
        tb = traceback.format_exc()
        return ('exception:' + type(exc).__name__, 'unexpected exception on valid input\n' + tb)
    finally:
        signal.alarm(0)


class Result:
    pass


def _worker(module, cases, ctx, shared, wid, nworkers, chunk, deadline, timeout, known, out):
    '''Worker process body. shared: mmap with [stop flag, next index] guarded by fcntl lock.'''
    import fcntl
    _silence()
    violations = []
    known_hits = collections.OrderedDict()
    done = 0
    lockf = open(shared, 'r+b')
    mm = mmap.mmap(lockf.fileno(), 16 + 8 * nworkers)
    capped = False
    while True:
        fcntl.lockf(lockf, fcntl.LOCK_EX)
        stop, nxt = struct.unpack_from('<QQ', mm, 0)
        struct.pack_into('<Q', mm, 8, nxt + chunk)
        fcntl.lockf(lockf, fcntl.LOCK_UN)
        if nxt >= len(cases):
            break
        if stop:
            break
        if time.time() > deadline:
            capped = True
            break
        for idx in range(nxt, min(nxt + chunk, len(cases))):
            struct.pack_into('<Q', mm, 16 + 8 * wid, idx + 1)
            res = run_one(module, cases[idx], ctx, timeout)
            done += 1
            if res is not None:
                key, msg = res
                if key in known:
                    known_hits.setdefault(key, cases[idx])
                else:
                    violations.append((idx, key, msg))
                    struct.pack_into('<Q', mm, 0, 1)
                    break
        if violations:
            break
    struct.pack_into('<Q', mm, 16 + 8 * wid, 0)
    with open(out, 'wb') as f:
        pickle.dump((violations, dict(known_hits), done, capped, ctx.states, ctx.outcomes,
                     ctx.transitions, ctx.traces), f)


def load_known(prop):
    '''known_findings.txt lines:  KNOWN-FINDING: property=<id> key=<key> <text>'''
    known = collections.OrderedDict()
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and 'property={} '.format(prop) in line:
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' ')
                known[key] = text
    return known


def explore(prop, module, tier, seed, budget, jobs):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc_{}_'.format(prop), dir='/tmp')
    os.chdir(scratch)
    try:
        known = load_known(prop)
        timeout = getattr(module, 'CASE_TIMEOUT', 120)
        if hasattr(module, 'prepare'):
            module.prepare(tier)
        cases = list(module.cases(tier))
        if not cases:
            raise RuntimeError('no cases enumerated')
        # VERIF_SEED only rotates the order in which equal-size enumeration blocks are visited;
        # the set of explored cases does not depend on it.
        nworkers = min(jobs, len(cases))
        chunk = max(1, min(64, len(cases) // (nworkers * 16) or 1))
        shared = os.path.join(scratch, 'shared')
        with open(shared, 'wb') as f:
            f.write(b'\0' * (16 + 8 * nworkers))
        deadline = t0 + budget
        pids = []
        for w in range(nworkers):
            out = os.path.join(scratch, 'out{}'.format(w))
            wdir = os.path.join(scratch, 'w{}'.format(w))
            os.mkdir(wdir)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.chdir(wdir)
                    _worker(module, cases, Ctx(tier, wdir), shared, w, nworkers, chunk, deadline,
                            timeout, known, out)
                except BaseException:
                    traceback.print_exc(file=sys.__stderr__)
                    code = 3
                finally:
                    os._exit(code)
            pids.append((pid, out))
        failed = []
        for w, (pid, out) in enumerate(pids):
            _, status = os.waitpid(pid, 0)
            if status != 0:
                failed.append((w, status))
            try:
                os.killpg(pid, signal.SIGKILL)   # children a case may have left behind
            except OSError:
                pass
        r = Result()
        r.cases = cases
        r.violations, r.known_hits, r.done, r.capped = [], collections.OrderedDict(), 0, False
        r.states, r.outcomes, r.transitions, r.traces = set(), set(), 0, 0
        with open(shared, 'rb') as f:
            marks = struct.unpack('<{}Q'.format(nworkers), f.read()[16:16 + 8 * nworkers])
        for w, (pid, out) in enumerate(pids):
            if not os.path.exists(out):
                continue
            with open(out, 'rb') as f:
                v, k, d, c, s, o, t, tr = pickle.load(f)
            r.violations += v
            r.known_hits.update(k)
            r.done += d
            r.capped |= c
            r.states |= s
            r.outcomes |= o
            r.transitions += t
            r.traces += tr
        for w, status in failed:
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT) \
                    and marks[w]:
                r.violations.append((marks[w] - 1, 'crash', 'the process crashed (signal {})'.format(
                    os.WTERMSIG(status))))
            else:
                raise RuntimeError('worker {} failed with status {}'.format(w, status))
        r.violations.sort(key=lambda v: v[0])
        r.known = known
        r.wall = time.time() - t0
        return r
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
