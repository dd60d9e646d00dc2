'''
C29 random points. Every range, exclusion set and count of a box, drawn with consecutive seeds until every allowed
outcome was seen: only allowed outcomes occur, all of them do, a seed repeats its outcome, and asking for too many
fails. Random points for a classifier: the same over every region shape and set of medoids. Distance histograms:
every partition of small regions, every requested number of points: the members of the cluster against its centroid,
and random points outside the cluster only.
'''
import itertools
import math

import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib import pyplot as plt

from spta.classifier.train_input import TrainDataWithRandomPoints
from spta.clustering.regular import RegularClusteringAlgorithm, RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.distance.variance import (DistanceHistogram, DistanceHistogramClusters, DistanceHistogramRandomOutsidePoints,
                                    DistanceHistogramWithRandomPointsOtherClusters)
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion
from spta.util import maths as maths_util

from mc import fx, lib
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of sampling problems, each drawn until all its allowed outcomes were observed'
LEVEL_NOTE = ('Ranges of up to 5 (thorough 6) integers at 3 offsets, all exclusion sets and counts; draws of ranges of up to 40000; regions up to 2x3 with all '
              'sets of up to 3 medoids; all partitions of 4 regions of up to 6 points into 2-3 clusters, all counts.')
CASE_TIMEOUT = 300
CAP = 20000


def cases(tier):
    for lo in (0, 2, -1):
        for n in range(1, 6 if tier == 'quick' else 7):
            for size in range(0, n + 2):
                yield {'m': 'ints', 'lo': lo, 'n': n, 'size': size}
    for n in (300, 1001, 1500, 40000) + ((250000,) if tier != 'quick' else ()):
        yield {'m': 'large', 'n': n}
    for x, y in ((1, 2), (2, 1), (2, 2), (1, 4), (3, 1), (2, 3), (3, 2)):
        yield {'m': 'points', 'x': x, 'y': y}
    for x, y in ((1, 4), (2, 2), (2, 3), (3, 2)):
        for k in (2, 3):
            for i, lab in enumerate(lib.surjections(x * y, k)):
                yield {'m': 'hist', 'x': x, 'y': y, 'lab': lab}
    for k in (2, 3, 4, 6):
        for rp in (None, 0, 1, 3):
            yield {'m': 'plot', 'k': k, 'rp': rp}


def explore(ctx, draw, allowed, size, what):
    '''draw(seed) -> list. Draws until every subset was seen; only subsets of `allowed` are accepted.'''
    total = math.comb(len(allowed), size)
    seen, firsts = {}, set()
    seed = 0
    while len(seen) < total:
        got = [int(v) for v in draw(seed)]
        ctx.step()
        ctx.check(len(got) == size, '{}: {} values instead of {}'.format(what, len(got), size))
        ctx.check(len(set(got)) == size, '{}: repeated values {}'.format(what, got))
        ctx.check(set(got) <= set(allowed), '{}: {} not allowed'.format(what, sorted(set(got) - set(allowed))))
        key = tuple(sorted(got))
        if key not in seen:
            seen[key] = (seed, got)
        seed += 1
        ctx.check(seed < CAP, '{}: outcomes {} never occurred in {} draws'.format(
            what, [c for c in itertools.combinations(sorted(allowed), size) if c not in seen][:3], CAP))
    for key, (s, got) in seen.items():
        ctx.check([int(v) for v in draw(s)] == got, '{}: seed {} is not repeatable'.format(what, s))
        ctx.state(what, key)
    ctx.outcome(len(allowed), size, len(seen))


def seeded(fn):
    def draw(seed):
        np.random.seed(seed)
        return fn()
    return draw


def run(spec, ctx):
    return globals()['run_' + spec['m']](spec, ctx)


def run_ints(spec, ctx):
    lo, n, size = spec['lo'], spec['n'], spec['size']
    hi = lo + n - 1
    candidates = list(range(lo - 1, hi + 2))      # the exclusions may be outside the range
    for r in range(len(candidates) + 1):
        for black in itertools.combinations(candidates, r):
            allowed = [v for v in range(lo, hi + 1) if v not in black]
            for conv in (list, np.array) if r else (list,):
                excluded = conv(black)
                fn = lambda: maths_util.random_integers_with_blacklist(size, lo, hi, excluded)
                what = '{} of [{},{}] without {}'.format(size, lo, hi, black)
                if size > len(allowed):
                    ctx.check(raises(fn), what + ': not enough values but no error')
                    ctx.step()
                    continue
                if size == 0 and not allowed:
                    continue
                if conv is list:
                    explore(ctx, seeded(fn), allowed, size, what)
                else:
                    np.random.seed(1)
                    ctx.check(set(fn().tolist()) <= set(allowed), what + ' (array)')
                ctx.check(list(excluded) == list(black), what + ': exclusions modified')
    # repeated exclusions and the default
    fn = seeded(lambda: maths_util.random_integers_with_blacklist(1, lo, hi))
    explore(ctx, fn, list(range(lo, hi + 1)), 1, 'no exclusions in [{},{}]'.format(lo, hi))
    if n > 1:
        fn = seeded(lambda: maths_util.random_integers_with_blacklist(1, lo, hi, [lo, lo, lo]))
        explore(ctx, fn, list(range(lo + 1, hi + 1)), 1, 'repeated exclusions in [{},{}]'.format(lo, hi))


def run_large(spec, ctx):
    '''Large ranges: every draw has as many different allowed values as asked for.'''
    n = spec['n']
    for lo in (0, 5):
        for black in ((), range(lo, lo + n, 3), range(lo + 2, lo + n - 1)):
            left = n - len(black)
            excluded = set(black)
            for size in sorted({1, left // 2, left - 1, left} & set(range(1, left + 1)) | {min(left, 400)}):
                what = '{} of {} values without {}'.format(size, n, len(black))
                draws = []
                for seed in (0, 1, 0):
                    np.random.seed(seed)
                    draws.append([int(v) for v in maths_util.random_integers_with_blacklist(size, lo, lo + n - 1, list(black))])
                    got = set(draws[-1])
                    ctx.check(len(draws[-1]) == size == len(got), what + ': repeated or missing values')
                    ctx.check(min(got) >= lo and max(got) < lo + n and not got & excluded, what + ': values not allowed')
                    ctx.step()
                ctx.check(draws[0] == draws[2], what + ': the seed is not repeatable')
                ctx.check(size == left or left < 2 or size < 3 or draws[0] != draws[1], what + ': the seed is ignored')
                ctx.state(n, lo, len(black), size)
            ctx.check(raises(lambda: maths_util.random_integers_with_blacklist(left + 1, lo, lo + n - 1, list(black))), 'too many of a large range')


def run_points(spec, ctx):
    x, y = spec['x'], spec['y']
    ctx.fresh_dir()
    fx.write_raw(lib.distinct3d(4, 5, 6))
    md = SpatioTemporalRegionMetadata('r', Region(1, 1 + x, 2, 2 + y), 2015, 2015, 1, scaled=False)
    t = TrainDataWithRandomPoints(md, DistanceByDTW())
    n = x * y
    pts = lib.points(x, y)
    for r in range(0, min(n, 3) + 1):
        for med in itertools.combinations(range(n), r):
            for size in range(1, n - r + 1):
                def draw(seed):
                    return [p.x * y + p.y if 0 <= p.y < y and 0 <= p.x < x else -1
                            for p in t.get_random_points_different_to_medoids(size, seed, list(med), x, y)]
                explore(ctx, draw, [i for i in range(n) if i not in med], size, '{} points of {}x{} without {}'.format(size, x, y, med))
            ctx.check(raises(lambda: t.get_random_points_different_to_medoids(n - r + 1, 0, list(med), x, y)), 'too many points')
    got = t.get_random_points_different_to_medoids(n, 0, [], x, y)
    ctx.check(sorted((int(p.x), int(p.y)) for p in got) == pts, 'all points')


def matrix(n):
    i = np.arange(n)
    return np.abs(np.subtract.outer(i * i * 1.25 + i, i * i * 1.25 + i)) + 0.5 * (np.subtract.outer(i, i) > 0)


def run_hist(spec, ctx):
    x, y, lab = spec['x'], spec['y'], spec['lab']
    n, k = x * y, max(lab) + 1
    mat = matrix(n)
    d = DistanceByDTW()
    d.distance_matrix = mat.copy()
    st = SpatioTemporalRegion(lib.distinct3d(3, x, y))
    part = fx.partition(lab, x, y)
    # (the points outside are drawn: each request is observed repeatedly)
    for c, cluster in enumerate(part.create_all_spt_clusters(st, medoids=None)):
        members = [i for i in range(n) if lab[i] == c]
        outside = [i for i in range(n) if lab[i] != c]
        for m in members:
            center = Point(*divmod(m, y))
            h = DistanceHistogram(cluster, d)
            got = h.distances_to_point(center)
            ctx.check(same(got, mat[m, members]), 'distances of cluster {} to {}: {}'.format(c, center, got))
            ctx.check(h.max_distance(got) == mat[m, members].max(), 'maximum distance')
            ctx.check(h.max_distance(got, 1e6) == 1e6 and h.max_distance(got, -5) == mat[m, members].max(), 'maximum with bound')
            ctx.step(3)
            for want in (0, 1, 2, len(outside), len(outside) + 2):
                size = min(want or len(members), len(outside))
                for kind in ('deco', 'own'):
                    if kind == 'deco':
                        r = DistanceHistogramWithRandomPointsOtherClusters(h, want)
                        get = lambda: r.distances_to_point(center)[1]
                    else:
                        r = DistanceHistogramRandomOutsidePoints(cluster, d, num_points=want)
                        get = lambda: r.distances_to_point(center)
                    what = 'partition {} cluster {} point {} requested {}'.format(lab, c, m, want)
                    allowed = [mat[m, i] for i in outside]
                    assert len(set(allowed)) == len(allowed)
                    if m == members[0]:
                        explore(ctx, seeded(lambda: list(r.point_indices)), outside, size, what)
                    for seed in range(6):
                        np.random.seed(seed)
                        got = [float(v) for v in get()]
                        ctx.check(len(got) == len(set(got)) == size and set(got) <= set(allowed),
                                  what + ': distances {} are not of different points outside'.format(got))
                        ctx.step()
                    if kind == 'deco':
                        both = r.distances_to_point(center)
                        ctx.check(same(both[0], mat[m, members]), what + ': distances of the cluster')
                        ctx.check(same(r.max_distance(both), max(both[0].max(), both[1].max())), what + ': maximum')
                        text = r.statistics(both)
                        dist = mat[m, members]
                        ctx.check('n = {}\n'.format(len(members)) in text and '#rand = {}\n'.format(size) in text,
                                  what + ': statistics ' + text)
                        ctx.check(text.endswith('= {}'.format(int((both[1] < dist.max()).sum()))), what + ': intersection ' + text)
                        ctx.check('min = {:.2f}\n'.format(sorted(dist)[1] if len(dist) > 1 else np.nan) in text and 'max =  {:.2f}\n'.format(dist.max()) in text,
                                  what + ': statistics ' + text)
                        ctx.check('s = {:.2f}\n'.format(np.std(dist)) in text and 'M = {:.2f}\n'.format(np.median(dist)) in text and
                                  '= {:.2f}\n'.format(np.mean(dist)) in text, what + ': statistics ' + text)
        ctx.state(lab, x, y, c)
    ctx.check(ident(d.distance_matrix, mat), 'distance matrix modified')
    # equal distances and distances of zero
    i = np.arange(n)
    for ties in (np.abs(np.subtract.outer(i // 2, i // 2)) * 1.5, np.where(np.eye(n) > 0, 0, 1.0 + np.add.outer(i, i) % 2), np.zeros((n, n)),
                 np.where(np.eye(n) > 0, 0, 2.0)):
        d.distance_matrix = ties.copy()
        for c, cluster in enumerate(part.create_all_spt_clusters(st, medoids=None)):
            members = [j for j in range(n) if lab[j] == c]
            outside = [j for j in range(n) if lab[j] != c]
            for m in range(n):
                center, dist = Point(*divmod(m, y)), ties[m, members]
                r = DistanceHistogramWithRandomPointsOtherClusters(DistanceHistogram(cluster, d), len(outside))
                both = r.distances_to_point(center)
                what = 'partition {} cluster {} point {} distances {}'.format(lab, c, m, ties[m])
                ctx.check(same(both[0], dist) and sorted(map(float, both[1])) == sorted(map(float, ties[m, outside])), what + ': {}'.format(both))
                text = r.statistics(both)
                ctx.check('min = {:.2f}\n'.format(sorted(dist)[1] if len(dist) > 1 else np.nan) in text and 'max =  {:.2f}\n'.format(dist.max()) in text and
                          text.endswith('#rand = {}\n\u2229rand = {}'.format(len(outside), int((ties[m, outside] < dist.max()).sum()))), what + ': ' + text)
                ctx.step()


def run_plot(spec, ctx):
    '''The figure of all clusters: one histogram for each, with its counts and the common scale.'''
    k, rp = spec['k'], spec['rp']
    ctx.fresh_dir()
    x, y = 3, 4
    mat = matrix(12)
    d = DistanceByDTW()
    d.distance_matrix = mat
    st = SpatioTemporalRegion(lib.distinct3d(3, x, y))
    algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), d)
    part = algo.partition(st, with_medoids=True)
    clusters = part.create_all_spt_clusters(st, medoids=part.medoids)
    lab = [int(v) for v in part.membership_of_point_indices(list(range(12)))]
    h = DistanceHistogramClusters(clusters, algo, rp, 'auto')
    plt.close('all')
    np.random.seed(5)
    h.plot(plot_dir='.')
    axes = plt.gcf().axes
    ctx.check(len(axes) == k, '{} subplots instead of {}'.format(len(axes), k))
    tops = set()
    worst = max(mat[part.medoids[c].x * y + part.medoids[c].y, i] for i in range(12) for c in range(k) if lab[i] == c)
    for c, ax in enumerate(axes):
        size = lab.count(c)
        heights = [int(round(sum(p.get_height() for p in cont))) for cont in ax.containers]
        want = [size] if rp is None else [size, min(rp or size, 12 - size)]
        ctx.check(heights == want, 'counts of cluster {}: {} instead of {}'.format(c, heights, want))
        tops.add(ax.get_xlim())
        ctx.step()
        ctx.outcome(k, rp, heights)
    ctx.check(len(tops) == 1 and list(tops)[0][0] == 0 and list(tops)[0][1] >= worst - 1e-9, 'common scale {}'.format(tops))
    if rp is None:
        ctx.check(abs(list(tops)[0][1] - worst) < 1e-9, 'scale {} instead of {}'.format(tops, worst))
    plt.close('all')
    ctx.state(k, rp)
