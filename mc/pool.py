'''
Controlled multiprocessing.Pool: stateless exploration of the schedules of pool workers.

The code under test creates its pool through `multiprocessing`; while an exploration is active it gets
a ControlledPool. Its workers are real forked processes (own copy of the module globals, initializer run
once, tasks and results pickled, chunks taken from one queue), but each one stops before every line of
the worker module(s), at the points marked by the task, and where it would wait for a lock, until the
scheduler in the parent lets it run. Which worker runs next and which worker takes the next chunk are
decisions; explore() enumerates all of them depth-first, up to a bound on preemptions (switching away
from a worker that could continue; switches at the end of a chunk or at a busy lock are free).
'''
import collections
import functools
import multiprocessing
import multiprocessing.context
import multiprocessing.synchronize
import os
import pickle
import signal
import struct
import sys
import traceback

ACTIVE = None     # Schedule of the current exploration
WORKER = None     # Worker side of this process
_orig_pool = multiprocessing.Pool
_orig_ctx_pool = multiprocessing.context.BaseContext.Pool


FOREVER = 1 << 30


class Deadlock(Exception):
    pass


class WorkerDied(Exception):
    pass


# ------------------------------------------------------------------------------- the schedule

class Schedule:
    def __init__(self, prefix=(), extra_files=(), chunk=None):
        self.prefix = list(prefix)
        self.made = []          # choices
        self.options = []       # list of costs, one per option
        self.trace = []         # (pool, worker, what)
        self.extra_files = set(extra_files)
        self.chunk = chunk
        self.pools = 0
        self.points = 0

    def choose(self, costs):
        '''costs of the options, the first one is the default (cost 0).'''
        if len(costs) == 1:
            return 0
        i = len(self.made)
        c = self.prefix[i] if i < len(self.prefix) and self.prefix[i] < len(costs) else 0
        self.made.append(c)
        self.options.append(costs)
        return c


def explore(run, bound, shard=0, shards=1, **kwargs):
    '''Calls run(schedule) for every schedule with at most `bound` preemptions; each call is made with
    the controlled pool active. With shards, the alternatives to the default schedule are divided.'''
    global ACTIVE
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        s = Schedule(prefix, **kwargs)
        ACTIVE = s
        try:
            run(s)
        finally:
            ACTIVE = None
        count += 1
        spent, n = 0, 0
        for pos, (c, costs) in enumerate(zip(s.made, s.options)):
            if pos >= len(prefix):
                for alt in range(1, len(costs)):
                    if spent + costs[alt] <= bound:
                        n += 1
                        if not prefix and n % shards != shard:
                            continue
                        stack.append(s.made[:pos] + [alt])
            spent += costs[c]
    return count


# --------------------------------------------------------------------------------- worker side

class Worker:
    def __init__(self, rfd, wfd, files):
        self.rfd, self.wfd, self.files = rfd, wfd, files
        self.released = False
        self.busy = False
        self.limit, self.count, self.stop = 1, 0, False

    def recv(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                os._exit(0)
            out += b
        return out

    def point(self, kind=None):
        if not self.busy:
            return
        self.count += 1
        if kind is None and self.count < self.limit and not (self.stop and self.released):
            return
        os.write(self.wfd, (kind or (b'r' if self.released else b'p')) + struct.pack('<I', self.count))
        self.go()

    def go(self):
        self.released = False
        cmd, self.limit, self.stop = struct.unpack('<cI?', self.recv(6))
        self.count = 0
        if cmd not in b'gt':
            os._exit(0)
        return cmd

    def tracer(self, frame, event, arg):
        if event == 'call':
            return self.tracer if frame.f_code.co_filename in self.files else None
        if event == 'line':
            self.point()
        return self.tracer

    def loop(self, initializer, initargs):
        if initializer is not None:
            initializer(*initargs)
        while True:
            self.go()
            size, = struct.unpack('<I', self.recv(4))
            func, star, chunk = pickle.loads(self.recv(size))
            if hasattr(func, '__code__'):
                self.files.add(func.__code__.co_filename)
            self.busy = True
            sys.settrace(self.tracer)
            try:
                res = (True, [func(*a) if star else func(a) for a in chunk])
            except Exception as exc:
                exc.args = exc.args + (traceback.format_exc(),)
                res = (False, exc)
            finally:
                sys.settrace(None)
            self.busy = False
            try:
                blob = pickle.dumps(res)
            except Exception as exc:
                blob = pickle.dumps((False, RuntimeError('cannot send the result: {!r}'.format(exc))))
            os.write(self.wfd, (b'D' if self.released else b'd') + struct.pack('<II', self.count + 1, len(blob)))
            view = blob
            while view:
                view = view[os.write(self.wfd, view):]


def point():
    '''A scheduling point that a task can mark.'''
    if WORKER is not None:
        WORKER.point()


def _acquire(sem, block=True, timeout=None):
    if WORKER is None or not WORKER.busy or not block or timeout is not None:
        return sem._semlock.acquire(block, timeout)
    WORKER.point()
    while not sem._semlock.acquire(False):
        WORKER.point(b'b')
    return True


def _release(sem):
    sem._semlock.release()
    if WORKER is not None:
        WORKER.released = True


def _enter(sem):
    _acquire(sem)
    return True


def _exit(sem, *args):
    _release(sem)


def _make_methods(sem):
    sem.acquire = functools.partial(_acquire, sem)
    sem.release = functools.partial(_release, sem)


# ----------------------------------------------------------------------------------- parent side

class _Side:
    '''A worker as seen by the parent.'''

    def __init__(self, pool, index, files):
        a, b = os.pipe(), os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            global WORKER, ACTIVE
            code = 0
            try:
                signal.alarm(0)
                os.close(a[1])
                os.close(b[0])
                for other in pool.sides:
                    other.close()
                ACTIVE = None
                WORKER = Worker(a[0], b[1], files)
                WORKER.loop(pool.initializer, pool.initargs)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                code = 1
            finally:
                os._exit(code)
        os.close(a[0])
        os.close(b[1])
        self.wfd, self.rfd = a[1], b[0]
        self.index = index
        self.state = 'fresh'
        self.job = None

    def close(self):
        os.close(self.wfd)
        os.close(self.rfd)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.close()
        os.waitpid(self.pid, 0)

    def send(self, data):
        try:
            while data:
                data = data[os.write(self.wfd, data):]
        except OSError:
            raise WorkerDied('a worker ended')

    def recv(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                raise WorkerDied('a worker ended')
            out += b
        return out


def _each(result, unordered):
    '''The values one by one, in the order of the items or in the order in which they are completed.'''
    def values():
        for pos in range(result.n):
            result.pool.run(lambda: len(result.parts) > pos if unordered else pos in result.parts)
            part = list(result.parts.values())[pos] if unordered else result.parts[pos]
            if part is None:
                raise result.error or RuntimeError('no result')
            for value in part:
                yield value
    return values()


class Result:
    '''AsyncResult / iterator of results.'''

    def __init__(self, pool, parts, single, callback=None, error_callback=None):
        self.pool, self.n, self.single = pool, parts, single
        self.parts = {}
        self.error = None
        self.callback, self.error_callback = callback, error_callback

    def ready(self):
        return len(self.parts) == self.n

    def successful(self):
        return self.error is None

    def wait(self, timeout=None):
        self.pool.run(self.ready)

    def values(self):
        return [v for i in range(self.n) for v in self.parts[i]]

    def get(self, timeout=None):
        self.wait()
        if self.error is not None:
            raise self.error
        return self.values()[0] if self.single else self.values()

    def done(self, i, ok, value):
        if ok:
            self.parts[i] = value
            if len(self.parts) == self.n and self.callback:
                self.callback(self.values()[0] if self.single else self.values())
            return
        self.parts[i] = None
        if self.error is None:
            self.error = value
            if self.error_callback:
                self.error_callback(value)


class ControlledPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.schedule = ACTIVE
        self.n = processes or 2
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.initializer, self.initargs = initializer, tuple(initargs)
        self.index = self.schedule.pools
        self.schedule.pools += 1
        self.queue = collections.deque()
        self.current = None
        self.sides = []
        self.closed = False
        self.owner = os.getpid()
        files = set(self.schedule.extra_files)
        if initializer is not None:
            files.add(initializer.__code__.co_filename)
        self.files = files
        for i in range(self.n):
            self.sides.append(_Side(self, i, files))

    # ---- scheduling
    def run(self, finished):
        s = self.schedule
        while not finished():
            ready, fresh = [], False
            for w in self.sides:
                if w.state == 'running':
                    ready.append(w)
                elif w.state in ('idle', 'fresh') and self.queue:
                    if w.state == 'fresh':      # workers that did nothing yet are interchangeable
                        if fresh:
                            continue
                        fresh = True
                    ready.append(w)
            if not ready:
                if any(w.state == 'blocked' for w in self.sides):
                    raise Deadlock('all the workers wait for a lock')
                return
            if self.current is not None and self.current.state == 'running':
                ready.remove(self.current)
                ready.insert(0, self.current)
                costs = [0] + [1] * (len(ready) - 1)
            else:
                costs = [0] * len(ready)
            w = ready[s.choose(costs)]
            # as long as the decisions are to go on with this worker, it does not need to stop
            limit = 1
            if w.state == 'running':
                limit = FOREVER
                if len(costs) > 1 or w is not self.current:
                    left = s.prefix[len(s.made):]
                    zeros = next((i for i, c in enumerate(left) if c), None)
                    if zeros is not None:
                        limit = 1 + zeros
            steps = self.step(w, limit)
            if steps > 1:
                more = [0] + [1] * (len(ready) - 1)
                if len(more) > 1:
                    s.made += [0] * (steps - 1)
                    s.options += [more] * (steps - 1)

    def step(self, w, limit):
        s = self.schedule
        self.current = w
        stop = any(o.state == 'blocked' for o in self.sides)
        if w.state == 'running':
            w.send(struct.pack('<cI?', b'g', limit, stop))
        else:
            job, i, func, star, chunk = self.queue.popleft()
            blob = pickle.dumps((func, star, chunk))
            w.send(struct.pack('<cI?', b't', 1, stop) + struct.pack('<I', len(blob)) + blob)
            w.job = (job, i)
            s.trace.append(('chunk', self.index, i))
        kind, steps = struct.unpack('<cI', w.recv(5))
        s.points += steps
        s.trace.append((self.index, w.index, steps))
        if kind in b'rD':
            for o in self.sides:
                if o.state == 'blocked':
                    o.state = 'running'
        if kind in b'pr':
            w.state = 'running'
        elif kind == b'b':
            w.state = 'blocked'
        else:
            size, = struct.unpack('<I', w.recv(4))
            ok, value = pickle.loads(w.recv(size))
            w.state = 'idle'
            w.job[0].done(w.job[1], ok, value)
        return steps

    # ---- API
    def _submit(self, func, items, chunksize, star, single=False, callback=None, error_callback=None):
        if self.closed:
            raise ValueError('Pool not running')
        items = list(items)
        if self.schedule.chunk:
            chunksize = self.schedule.chunk
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += 1 if extra else 0
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        job = Result(self, len(chunks), single, callback, error_callback)
        for i, c in enumerate(chunks):
            self.queue.append((job, i, func, star, c))
        return job

    def map(self, func, iterable, chunksize=None):
        return self._submit(func, iterable, chunksize, False).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._submit(func, iterable, chunksize, True).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, chunksize, False, False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, chunksize, True, False, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        return _each(self._submit(func, iterable, chunksize, False), False)

    def imap_unordered(self, func, iterable, chunksize=1):
        return _each(self._submit(func, iterable, chunksize, False), True)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(functools.partial(func, **kwds), [tuple(args)], 1, True, True, callback,
                            error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        self.run(lambda: not self.queue and all(w.state in ('idle', 'fresh') for w in self.sides))

    def terminate(self):
        self.closed = True
        self.queue.clear()
        sides, self.sides = self.sides, []
        for w in sides:
            w.kill()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.terminate()

    def __del__(self):
        if os.getpid() == self.owner:
            self.terminate()


def _pool(*args, **kwargs):
    return ControlledPool(*args, **kwargs) if ACTIVE is not None else _orig_pool(*args, **kwargs)


def _ctx_pool(self, *args, **kwargs):
    return ControlledPool(*args, **kwargs) if ACTIVE is not None else _orig_ctx_pool(self, *args, **kwargs)


def install():
    multiprocessing.Pool = _pool
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    sem = multiprocessing.synchronize.SemLock
    sem.__enter__, sem.__exit__, sem._make_methods = _enter, _exit, _make_methods


install()
