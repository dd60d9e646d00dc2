'''
Crash points of code that writes files: with crash_after(n), the n-th event (a byte written to a file opened for
writing, or such an open) is the last one that happens; then Crash is raised. What was written before is on disk
(prefix of the writes, in order). count() gives the number of events of a complete run.
'''
import builtins
import contextlib
import io
import os


class Crash(BaseException):
    pass


class _State:
    def __init__(self, limit):
        self.limit = limit
        self.events = 0
        self.marks = []      # (events before, path) of every open for writing
        self.dead = False


class _File:
    '''Unbuffered view of a file being written.'''

    def __init__(self, f, state):
        self.__dict__['_f'], self.__dict__['_s'] = f, state

    def write(self, data):
        s = self._s
        if s.dead:
            raise Crash()
        n = len(data) if isinstance(data, str) else memoryview(data).nbytes
        left = n if s.limit is None else min(n, s.limit - s.events)
        s.events += left
        self._f.write(data[:left] if isinstance(data, str) else bytes(memoryview(data).cast('B')[:left]))
        self._f.flush()
        if left < n:
            s.dead = True
            raise Crash()
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._f.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


@contextlib.contextmanager
def crash_after(limit):
    '''limit None: only count. Yields the state (events, marks).'''
    state = _State(limit)
    orig = builtins.open
    replace, rename, mkdir = os.replace, os.rename, os.mkdir

    def event():
        if state.dead or (state.limit is not None and state.events >= state.limit):
            state.dead = True
            raise Crash()
        state.events += 1

    def patched(file, mode='r', *args, **kwargs):
        if not any(c in mode for c in 'wax+'):
            return orig(file, mode, *args, **kwargs)
        event()
        state.marks.append((state.events, str(file)))
        return _File(orig(file, mode, *args, **kwargs), state)

    def patched_replace(*args, **kwargs):
        event()
        return replace(*args, **kwargs)

    def patched_rename(*args, **kwargs):
        event()
        return rename(*args, **kwargs)

    builtins.open = io.open = patched
    os.replace, os.rename = patched_replace, patched_rename
    try:
        yield state
    finally:
        builtins.open = io.open = orig
        os.replace, os.rename = replace, rename
