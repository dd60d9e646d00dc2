'''
C06 regular partition. Every region size and number of clusters in a box: the partition is the
row-major grid of k non-empty rectangles given by the most balanced divisors of k, all blocks except
the last row/column have the same size (rounded quotient), and regions too small are refused.
'''
import numpy as np

from spta.region.partition import PartitionRegionCrisp
from spta.region.temporal import SpatioTemporalRegion
from spta.clustering.regular import RegularClusteringMetadata, RegularClusteringAlgorithm
from spta.distance.dtw import DistanceByDTW
from spta.util import maths as maths_util

from mc import fx, lib
from mc.core import Violation, raises

TECHNIQUE = 'exhaustive enumeration of (width, height, k) against a grid model'
LEVEL_NOTE = ('All widths and heights up to 14 (thorough 26) with every k, and all k up to 260 on some '
              'large regions; divisor pairs compared with brute force up to 3000.')


def balanced(n):
    best = None
    for d in range(1, n + 1):
        if n % d == 0 and d <= n // d:
            best = (d, n // d)
    return best


def cases(tier):
    m = 14 if tier == 'quick' else 26
    for x in range(1, m + 1):
        yield {'x': x, 'ys': list(range(1, m + 1)), 'ks': [1, 10 ** 6]}
    for (x, y) in [(150, 130), (130, 150), (40, 97), (97, 40), (64, 64), (1, 200), (200, 1), (61, 60)]:
        for k0 in range(1, 260, 40):
            yield {'x': x, 'ys': [y], 'ks': [k0, k0 + 39]}
    for n0 in range(1, 3001, 500):
        yield {'m': 'div', 'n0': n0}
    yield {'m': 'algo'}
    yield {'m': 'again'}


def check(x, y, k, ctx):
    d1, d2 = balanced(k)
    dx, dy = (d1, d2) if x < y else (d2, d1)
    what = 'region {}x{} k={}'.format(x, y, k)
    if x < dx or y < dy:
        ctx.check(raises(lambda: PartitionRegionCrisp.with_regular_partition(k, x, y), ValueError),
                  what + ': too small but accepted')
        ctx.outcome('refused')
        return
    part = PartitionRegionCrisp.with_regular_partition(k, x, y)
    ctx.check(part.k == k and tuple(part.shape) == (x, y), what + ': wrong shape or k')
    lab = np.array(part.membership_of_point_indices(np.arange(x * y))).reshape(x, y)
    # grid structure: row r, column c of blocks has label r*dy + c
    row_of = lab[:, 0] // dy
    col_of = lab[0, :] % dy
    ctx.check((lab == row_of[:, None] * dy + col_of[None, :]).all(), what + ': not a grid of rectangles')
    for idx, d, total in ((row_of, dx, x), (col_of, dy, y)):
        sizes = [int((idx == i).sum()) for i in range(d)]
        ctx.check(sum(sizes) == total and min(sizes) >= 1 and (np.diff(idx) >= 0).all(),
                  what + ': blocks {}'.format(sizes))
        if d > 1:
            h = sizes[0]
            ctx.check(all(s == h for s in sizes[:-1]) and h in (total // d, total // d + 1),
                      what + ': uneven blocks {}'.format(sizes))
    ctx.state(x, y, k)
    ctx.outcome(dx, dy, tuple(row_of[:4]), tuple(col_of[:4]))


def run(spec, ctx):
    if spec.get('m') == 'div':
        for n in range(spec['n0'], spec['n0'] + 500):
            d1, d2 = balanced(n)
            got = list(maths_util.find_two_balanced_divisors(n))
            ctx.check(got == [d1, d2], 'divisors of {}: {} expected {}'.format(n, got, (d1, d2)))
            for (x, y) in ((3, 4), (4, 3), (4, 4)):
                got = tuple(maths_util.two_balanced_divisors_order_x_y(n, x, y))
                want = (d1, d2) if x < y else (d2, d1)
                ctx.check(got == want, 'ordered divisors of {} for {}: {}'.format(n, (x, y), got))
            divs = list(maths_util.divisors(n))
            ctx.check(divs == [d for d in range(1, n + 1) if n % d == 0], 'divisors of {}'.format(n))
            ctx.state('div', n)
            ctx.step()
        return
    if spec.get('m') == 'again':
        # every pair of requests: a partition is not affected by what is done with the previous one
        menu = [(x, y, k) for x in range(1, 5) for y in range(1, 5) for k in range(1, 5)
                if not raises(lambda: PartitionRegionCrisp.with_regular_partition(k, x, y))]
        fresh = {c: PartitionRegionCrisp.with_regular_partition(c[2], c[0], c[1]).numpy_dataset.copy() for c in menu}
        for a in menu:
            for b in menu:
                first = PartitionRegionCrisp.with_regular_partition(a[2], a[0], a[1])
                first.numpy_dataset[...] = 77
                second = PartitionRegionCrisp.with_regular_partition(b[2], b[0], b[1])
                ctx.check(second.k == b[2] and second.numpy_dataset.shape == b[:2] and (second.numpy_dataset == fresh[b]).all(),
                          'partition {} after changing a partition {}'.format(b, a))
                ctx.step(2)
            ctx.state('again', a)
        return
    if spec.get('m') == 'algo':
        for (x, y) in [(2, 3), (4, 3), (5, 5), (1, 6)]:
            st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
            for k in range(1, 7):
                d1, d2 = balanced(k)
                dx, dy = (d1, d2) if x < y else (d2, d1)
                dist = DistanceByDTW()
                dist.compute_distance_matrix(st)
                algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), dist)
                if x < dx or y < dy:
                    ctx.check(raises(lambda: algo.partition(st, with_medoids=False)), 'accepted')
                    continue
                part = algo.partition(st, with_medoids=False)
                ref = PartitionRegionCrisp.with_regular_partition(k, x, y)
                ctx.check((part.numpy_dataset == ref.numpy_dataset).all(), 'algorithm partition')
                part = algo.partition(st)
                ctx.check((part.numpy_dataset == ref.numpy_dataset).all() and
                          len(part.medoids) == k and
                          all(part.is_member(m, i) for i, m in enumerate(part.medoids)),
                          'a medoid lies outside its cluster')
                ctx.step()
                ctx.state('algo', x, y, k)
        return
    x = spec['x']
    for y in spec['ys']:
        for k in range(spec['ks'][0], min(spec['ks'][1], x * y + 3) + 1):
            check(x, y, k, ctx)
            ctx.step()
