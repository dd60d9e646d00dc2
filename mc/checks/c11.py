'''
C11 parallel pairwise operations. Every schedule of the pool workers, up to a bound on preemptions at line
granularity, of a pairwise operation over small regions gives the matrix of the serial computation: any
number of workers, chunk size and assignment of chunks to workers, several operations in the same process,
operations that fail. The same holds for the parallel DTW distance matrix, and for real pools.
'''
from mc import pool

import itertools
import multiprocessing

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.distance.dtw_parallel import DistanceByDTWParallel
from spta.region.temporal import SpatioTemporalRegion
from spta.util.parallel import InterPointsOperation

from mc import lib
from mc.core import ident, raises, same

TECHNIQUE = ('stateless exploration of all worker schedules (controlled pool of forked workers, preemption bounded, '
             'at line granularity) vs the serial computation')
LEVEL_NOTE = ('1-3 workers, regions of 1-6 points, chunk sizes 1-36; all chunk-to-worker assignments and all switches at '
              'lines of the worker code, at locks and inside the operation, with at most 1 (thorough 2) preemptions; '
              'chains of 2 operations, 2 operations prepared together; real multiprocessing pools as conformance runs. Regions without missing values.')
CASE_TIMEOUT = 600


def pair(region, i, j):
    '''Depends on the position, order and series of both points.'''
    a = region.as_2d
    pool.point()
    value = float(a[i].sum() * 1000 + a[j][-1] + 0.001 * (7 * i + j))
    pool.point()
    return value


def last(region, i, j):
    return int(region.shape[0] * 100 + i * 10 + j) if i != j else -0.5


def fails(region, i, j):
    if (i, j) == (1, 0):
        raise ValueError('the operation fails')
    return 1


def expected(task, arr):
    t, x, y = arr.shape
    reg = SpatioTemporalRegion(arr.astype(float))
    return np.array([[task(reg, i, j) for j in range(x * y)] for i in range(x * y)], dtype=float)


# shape, kind of values, workers, chunk size
CONFIGS = [((2, 1, 1), 'plain', 2, 1), ((2, 1, 2), 'plain', 1, 1), ((2, 1, 2), 'plain', 2, 1), ((3, 2, 1), 'neg', 2, 2),
           ((2, 2, 1), 'int', 2, 3), ((2, 1, 2), 'plain', 3, 1), ((2, 1, 2), 'plain', 2, 50), ((2, 1, 3), 'plain', 2, 4),
           ((1, 1, 3), 'plain', 2, 5), ((2, 2, 2), 'plain', 2, 8), ((3, 2, 3), 'neg', 2, 18), ((2, 1, 3), 'const', 3, 3)]


def prepare(tier):
    DistanceByDTW().measure(np.arange(3.0), np.arange(3.0))     # compile before forking


def cases(tier):
    thorough = tier != 'quick'
    for i in range(len(CONFIGS)):
        yield {'m': 'pool', 'config': i}
        yield {'m': 'fail', 'config': i}
    for shape in lib.shapes(2, 3) + [(4, 1), (3, 3)]:
        yield {'m': 'dtw_real', 'shape': shape}
    for shape in [(7, 7), (1, 49), (2, 49), (14, 7)]:
        yield {'m': 'wide', 'shape': shape}
    bound = 2 if thorough else 1
    for i, (shape, kind, workers, chunk) in enumerate(CONFIGS):
        tasks = (shape[1] * shape[2]) ** 2
        shards = 1 if tasks == 1 or workers == 1 else (64 if thorough else 4)
        b = bound if tasks <= 9 else 1
        if tasks > 9 and workers > 2:
            b = 0
        for s in range(shards):
            yield {'m': 'sched', 'config': i, 'bound': b, 'shard': s, 'shards': shards}
    for shape, chunk in [((3, 1, 2), 1), ((3, 1, 3), 4), ((2, 2, 2), 6)]:
        for s in range(4):
            yield {'m': 'dtw', 'shape': shape, 'workers': 2, 'bound': 1, 'chunk': chunk, 'shard': s, 'shards': 4}
    for s in range(4):
        yield {'m': 'chain', 'bound': 1, 'shard': s, 'shards': 4}
    yield {'m': 'prepared'}


def explored(ctx, spec, run, **kwargs):
    def one(s):
        run()
        ctx.step(s.points)
        ctx.state(spec['m'], spec.get('config'), str(spec.get('shape')), tuple(s.trace))
    return pool.explore(one, spec['bound'], spec['shard'], spec['shards'], **kwargs)


def compare(ctx, got, want, what):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, '{}: shape {}'.format(what, got.shape))
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            ctx.check(same(got[i, j], want[i, j]), '{}: result of points {} and {} is {} instead of {}'.format(
                what, i, j, got[i, j], want[i, j]))


def run(spec, ctx):
    ctx.fresh_dir()
    m = spec['m']
    if m in ('pool', 'sched', 'fail'):
        shape, kind, workers, chunk = CONFIGS[spec['config']]
        arr = lib.distinct3d(*shape, kind=kind)
        before = arr.copy()
        want = expected(pair, arr)
        reg = SpatioTemporalRegion(arr)
        if m == 'pool':
            for cs in (chunk, 1, 7):
                for w in (workers, 3):
                    compare(ctx, InterPointsOperation(w, reg, chunksize=cs).operate(pair), want, 'real pool {}'.format(spec))
                    ctx.step()
            ctx.state('pool', spec['config'])
        elif m == 'fail' and want.shape[0] > 1:
            # a failure is reported, and does not affect later operations
            ctx.check(raises(lambda: InterPointsOperation(workers, reg).operate(fails), ValueError), 'failure not reported')

            def once():
                ctx.check(raises(lambda: InterPointsOperation(workers, reg, chunk).operate(fails), ValueError),
                          'failure not reported')
            explored(ctx, dict(spec, bound=0, shard=0, shards=1), once)
            compare(ctx, InterPointsOperation(workers, reg, chunk).operate(pair), want, 'after a failure')
        elif m == 'sched':
            def once():
                compare(ctx, InterPointsOperation(workers, reg, chunksize=chunk).operate(pair), want, str(spec))
            n = explored(ctx, spec, once)
            ctx.outcome(spec['config'], spec['shard'], n)
        ctx.check(ident(arr, before), 'the region was changed')
    elif m == 'wide':
        # enough points for the index arithmetic, with the chunks of the code
        arr = lib.distinct3d(2, *spec['shape'])
        reg = SpatioTemporalRegion(arr.copy())
        want = expected(pair, arr)
        for w in (2, 3):
            compare(ctx, InterPointsOperation(w, reg).operate(pair), want, 'wide region {}'.format(spec['shape']))
            ctx.step()
        ctx.state(m, spec['shape'])
        ctx.check(ident(reg.as_numpy, arr), 'the region was changed')
    elif m == 'prepared':
        # every history of preparations and operations over regions of the same and of other shapes
        arrays = [lib.distinct3d(2, 1, 2), lib.distinct3d(2, 1, 2) * -3 + 0.5, lib.distinct3d(2, 2, 1, 'neg'), lib.distinct3d(3, 1, 2)]
        wants = [expected(pair, a) for a in arrays]
        regions = [SpatioTemporalRegion(a.copy()) for a in arrays]
        for order in itertools.product(range(len(arrays)), repeat=2):
            for turns in ((0, 1), (1, 0), (0, 1, 0)):
                ops = [InterPointsOperation(2, regions[k], chunksize=2) for k in order]
                for t in turns:
                    compare(ctx, ops[t].operate(pair), wants[order[t]], 'operation {} of regions {} in the order {}'.format(t, order, turns))
                    ctx.step()
                ctx.state(m, order, turns)
        ctx.check(all(ident(r.as_numpy, a) for r, a in zip(regions, arrays)), 'a region was changed')
    elif m in ('dtw', 'dtw_real'):
        shape = (3,) + tuple(spec['shape']) if m == 'dtw_real' else tuple(spec['shape'])
        arr = lib.distinct3d(*shape)
        reg = SpatioTemporalRegion(arr.copy())
        want = lib.dtw_matrix(lib.series_of(arr))

        def once(workers=spec.get('workers')):
            compare(ctx, DistanceByDTWParallel(workers).compute_distance_matrix(reg), want, str(spec))
        if m == 'dtw':
            explored(ctx, spec, once, chunk=spec['chunk'])
        else:
            for w in (1, 2, 3, 5):
                once(w)
                ctx.step()
            compare(ctx, DistanceByDTW().compute_distance_matrix(reg), want, 'serial')
            ctx.state(m, shape)
        ctx.check(ident(reg.as_numpy, arr), 'the region was changed')
    else:
        # operations in a row, with other shapes, operations and regions, prepared in any order
        a, b = lib.distinct3d(2, 1, 2), lib.distinct3d(3, 2, 1, 'neg')
        ra, rb = SpatioTemporalRegion(a), SpatioTemporalRegion(b)

        def once():
            oa, ob = InterPointsOperation(2, ra, chunksize=2), InterPointsOperation(2, rb, chunksize=3)
            compare(ctx, np.array(ob.operate(last)), expected(last, b), 'first operation')
            compare(ctx, np.array(oa.operate(pair)), expected(pair, a), 'second operation')
            compare(ctx, np.array(oa.operate(last)), expected(last, a), 'third operation')
        explored(ctx, spec, once)
