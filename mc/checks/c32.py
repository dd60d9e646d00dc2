'''
C32 dataset interval cache. Histories of interval requests (years x samples per day) over a synthetic
full dataset, interleaved with deletions of cached files, removal of the full dataset, restarts and
crashes that leave any prefix of the cached file: every answer equals the direct slice / daily mean
of the full dataset. Also the error answers (invalid years, missing dataset).
'''
import io
import itertools
import os
import shutil

import h5py
import numpy as np

from spta.dataset import temp_brazil

from mc import lib
from mc.core import Violation, same, raises

TECHNIQUE = 'enumeration of request/crash histories; every prefix of the cache write is a crash point'
LEVEL = 'fault_enumeration'
LEVEL_NOTE = ('All sequences of 2 (thorough 3) of 18 overlapping intervals; all histories of 3 (thorough 4) operations over 4 interval keys with deletion, crash '
              '(exception before / in the middle of / after the write) and dataset removal; every byte '
              'prefix of the cache file for a small file and every boundary region for larger ones.')
ASSUMPTIONS = ['a crash leaves a byte prefix of the file being written (no reordering of blocks)']

KEYS = [(1979, 1979, 1), (1979, 1979, 4), (1980, 1980, 1), (1979, 1980, 4), (2015, 2015, 1)]
OPS = [('get', i) for i in range(4)] + [('del', 0), ('del', 3), ('crash0', 0), ('crashmid', 0),
                                         ('crashmid', 3), ('crash1', 1), ('nodata',), ('data',)]
# intervals inside one another, with common first or last years, with and without leap years
RANGES = [(a, b, spd) for a, b in ((2011, 2015), (2012, 2015), (2013, 2015), (2015, 2015), (2012, 2012), (2011, 2012), (1979, 1981),
                                   (1979, 1979), (1980, 1981)) for spd in (1, 4)]
_full = None


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def full():
    global _full
    if _full is None:
        n = sum(366 if leap(y) else 365 for y in range(1979, 2016)) * 4
        i = np.arange(n, dtype=np.float64)
        _full = np.stack([((i * 13) % 1009) * 0.25, -((i * 7) % 733) + i * 0.001], axis=1).reshape(n, 1, 2)
    return _full


def want(key):
    ys, ye, spd = key
    d0 = sum(366 if leap(y) else 365 for y in range(1979, ys))
    d1 = d0 + sum(366 if leap(y) else 365 for y in range(ys, ye + 1))
    a = full()[d0 * 4:d1 * 4]
    if spd == 1:
        a = (a[0::4] + a[1::4] + a[2::4] + a[3::4]) / 4.0
    return a


def prepare(tier):
    full()
    os.makedirs('/tmp/.', exist_ok=True)
    with h5py.File('full.hdf', 'w') as f:
        f.create_dataset('real', data=full())
    global HDF
    HDF = os.path.abspath('full.hdf')


def cases(tier):
    for h in itertools.product(range(len(OPS)), repeat=3 if tier == 'quick' else 4):
        if any(OPS[o][0] == 'get' for o in h):
            yield {'m': 'hist', 'h': list(h)}
    blocks = 40
    for b in range(blocks):
        yield {'m': 'prefix', 'key': 0, 'block': b, 'blocks': blocks, 'stride': 1 if tier == 'thorough' else 7}
        yield {'m': 'prefix', 'key': 1, 'block': b, 'blocks': blocks, 'stride': 997}
    yield {'m': 'errors'}
    for a in range(len(RANGES)):
        yield {'m': 'ranges', 'a': a, 'len': 2 if tier == 'quick' else 3}


class Crash(BaseException):
    pass


def setup(ctx, with_data=True):
    ctx.fresh_dir()
    os.makedirs('raw')
    if with_data:
        os.symlink(HDF, temp_brazil.RAW_DATASET)


def path(key):
    return 'raw/SouthAmerica_{}_{}_{}spd.npy'.format(*key)


def get(key):
    return temp_brazil.retrieve_dataset_interval(year_start=key[0], year_end=key[1], spd=key[2])


def check_get(key, ctx, what, times=2):
    for _ in range(times):
        got = get(key)
        w = want(key)
        if got.shape != w.shape or not same(got, w):
            raise Violation('{}: interval {} has wrong data (shape {})'.format(what, key, got.shape))
        ctx.step()


def torn_save(mode):
    real = np.save

    def save(fname, arr, *a, **k):
        if mode == 'crash0':
            raise Crash()
        real(fname, arr, *a, **k)
        name = fname if os.path.exists(fname) else fname + '.npy'
        if mode == 'crashmid':
            size = os.path.getsize(name)
            with open(name, 'r+b') as f:
                f.truncate(size // 2)
        raise Crash()
    return save


def run(spec, ctx):
    if spec['m'] == 'errors':
        setup(ctx)
        for ys, ye in ((1978, 1979), (2015, 2016), (1990, 1989), (2016, 2016), (1900, 1901)):
            for spd in (1, 4):
                ctx.check(raises(lambda: get((ys, ye, spd)), ValueError), 'years {} accepted'.format((ys, ye)))
        ctx.check(os.listdir('raw') == [os.path.basename(temp_brazil.RAW_DATASET)],
                  'refused request left files')
        for spd in (0, 2, 3, 24):
            ctx.check(raises(lambda: get((1979, 1979, spd))), 'unsupported samples per day accepted')
        setup(ctx, False)
        ctx.check(raises(lambda: get((1979, 1979, 1)), ValueError), 'missing dataset accepted')
        # all single years and some ranges
        setup(ctx)
        for ys in range(1979, 2016):
            for ye in {ys, min(ys + 3, 2015), 2015}:
                for spd in ((1, 4) if ys % 9 == 0 or ys == ye else (1,)):
                    check_get((ys, ye, spd), ctx, 'fresh', 1)
                    if os.path.exists(path((ys, ye, spd))):
                        os.unlink(path((ys, ye, spd)))
                    ctx.state('years', ys, ye, spd)
        return
    if spec['m'] == 'ranges':
        # every order of requests of intervals that contain, end or start one another, each also read again
        for rest in itertools.product(range(len(RANGES)), repeat=spec['len'] - 1):
            setup(ctx)
            hist = [RANGES[i] for i in (spec['a'],) + rest]
            for i, key in enumerate(hist):
                check_get(key, ctx, 'requests {} at {}'.format(hist, i), 1)
            for key in hist:
                check_get(key, ctx, 'requests {} again'.format(hist), 1)
            ctx.state('ranges', tuple(hist))
        return
    if spec['m'] == 'prefix':
        key = KEYS[spec['key']]
        setup(ctx)
        check_get(key, ctx, 'first', 1)
        ctx.check(os.path.exists(path(key)), 'interval was not saved for future use')
        raw = open(path(key), 'rb').read()
        n = len(raw)
        lo, hi = n * spec['block'] // spec['blocks'], n * (spec['block'] + 1) // spec['blocks']
        cuts = sorted(set(range(lo, hi, spec['stride'])) | {lo, hi - 1} |
                      {c for c in range(0, 140) if lo <= c < hi} | {c for c in (n - 8, n - 1, n) if lo <= c <= hi})
        for cut in cuts:
            with open(path(key), 'wb') as f:
                f.write(raw[:cut])
            check_get(key, ctx, 'after a crash that left {} of {} bytes'.format(cut, n), 2)
            ctx.state('prefix', key, cut)
        ctx.outcome('prefix', n)
        return
    setup(ctx)
    has_data = True
    cached = set()
    for step, o in enumerate(spec['h']):
        op = OPS[o]
        what = 'history {} step {}'.format([OPS[i] for i in spec['h']], step)
        if op[0] == 'get':
            key = KEYS[op[1]]
            if has_data or key in cached:
                check_get(key, ctx, what)
                cached.add(key)
            else:
                ctx.check(raises(lambda: get(key), ValueError), what + ': no dataset but an answer')
        elif op[0] == 'del':
            if os.path.exists(path(KEYS[op[1]])):
                os.unlink(path(KEYS[op[1]]))
            cached.discard(KEYS[op[1]])
        elif op[0].startswith('crash'):
            if not has_data or KEYS[op[1]] in cached:
                continue
            real = np.save
            np.save = torn_save(op[0])
            try:
                get(KEYS[op[1]])
            except Crash:
                pass
            finally:
                np.save = real
            if op[0] == 'crash1' and os.path.exists(path(KEYS[op[1]])):
                cached.add(KEYS[op[1]])
        elif op[0] == 'nodata':
            if has_data:
                os.unlink(temp_brazil.RAW_DATASET)
            has_data = False
        elif op[0] == 'data':
            if not has_data:
                os.symlink(HDF, temp_brazil.RAW_DATASET)
            has_data = True
        ctx.state(tuple(spec['h'][:step + 1]))
    ctx.outcome(tuple(sorted(cached)), has_data)
