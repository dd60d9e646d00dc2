'''
C13 centroids. Every symmetric distance matrix over a small alphabet on up to 5 points, every region
shape and every cluster of every partition of it: the centroid is a member whose sum of distances to
the members is minimal, and the returned distances are those of the members to it. Also real DTW
matrices (computed, loaded from disk, absent), sequences of regions through the same entry point,
predefined centroids, and medoids of regular partitions.
'''
import itertools

import numpy as np

from spta.clustering.regular import RegularClusteringAlgorithm, RegularClusteringMetadata
from spta.distance import DistanceBetweenSeries
from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region
from spta.region.centroid import CalculateCentroid
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of distance matrices, partitions and call histories against brute-force minimality'
LEVEL_NOTE = ('All symmetric matrices with distances in {1,2,3} and {0,2} on up to 4 points and {1,3} on 5 (thorough: '
              '{0,1,2,3} on 4), every partition of the points; nearly equal distances; 272 and 300 points in up to 11 clusters; DTW histories of up to 3 regions.')


class Fixed(DistanceBetweenSeries):
    def __init__(self, m):
        super(Fixed, self).__init__()
        self.distance_matrix = m

    def __repr__(self):
        return 'fixed'


def matrices(n, alphabet):
    pairs = list(itertools.combinations(range(n), 2))
    for vals in itertools.product(alphabet, repeat=len(pairs)):
        m = np.zeros((n, n))
        for (i, j), v in zip(pairs, vals):
            m[i, j] = m[j, i] = v
        yield m


SHAPES = {1: [(1, 1)], 2: [(1, 2), (2, 1)], 3: [(1, 3), (3, 1)], 4: [(2, 2), (1, 4)], 5: [(5, 1), (1, 5)],
          6: [(2, 3), (3, 2)]}


def cases(tier):
    thorough = tier != 'quick'
    for n in (1, 2, 3, 4):
        for shape in SHAPES[n]:
            for k in range(1, n + 1):
                for lab in lib.surjections(n, k):
                    yield {'n': n, 'shape': shape, 'lab': lab, 'alpha': [0, 1, 2, 3] if thorough else [1, 2, 3]}
    for k in (1, 2) if not thorough else (1, 2, 3):
        for lab in lib.surjections(5, k):
            yield {'n': 5, 'shape': SHAPES[5][k % 2], 'lab': lab, 'alpha': [1, 3]}
    for n in (2, 3, 4):
        for shape in SHAPES[n]:
            for k in range(1, n + 1):
                for lab in lib.surjections(n, k):
                    yield {'n': n, 'shape': shape, 'lab': lab, 'alpha': [0, 2]}
    for n in (2, 3, 4):
        for shape in SHAPES[n]:
            for k in range(1, n + 1):
                for lab in lib.surjections(n, k):
                    yield {'n': n, 'shape': shape, 'lab': lab, 'alpha': [0.3004, 0.3011, 250.6]}
                    yield {'n': n, 'shape': shape, 'lab': lab, 'alpha': [1, 1 + 2.0 ** -22, 1000], 'tol': 1e-12}
    for k in (1, 3, 11):
        yield {'large': k}
    if thorough:
        for k in (1, 2):
            for lab in lib.rgs(6, k):
                for shape in SHAPES[6]:
                    yield {'n': 6, 'shape': shape, 'lab': lab, 'alpha': [1, 3]}
    for order in itertools.product(range(4), repeat=3):
        for saved in (0, 1):
            yield {'hist': order, 'saved': saved}
    for (x, y) in [(2, 2), (2, 3), (3, 4), (4, 3)]:
        for k in range(1, 5):
            yield {'regular': [x, y, k]}
    for kind in ('plain', 'neg', 'const'):
        yield {'get': kind}


def verify(ctx, m, members, y_len, got, dists, what, tol=1e-9):
    idx = got.x * y_len + got.y
    ctx.check(idx in members, what + ': centroid {} is not a member'.format(got))
    sums = {i: float(sum(m[i, j] for j in members)) for i in members}
    best = min(sums.values())
    ctx.check(sums[idx] <= best + tol * (1 + abs(best)),
              what + ': centroid {} has sum {} but the minimum is {}'.format(idx, sums[idx], best))
    if dists is not None:
        ctx.check(same(dists, [m[idx, j] for j in members]), what + ': distances to the centroid')


def large(k, ctx):
    '''Regions of more than 256 points.'''
    for (x, y) in ((17, 16), (3, 100)):
        n = x * y
        st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
        for salt in range(4):
            pos = np.array([((i * 37 + salt * 11) % 211) * 0.37 for i in range(n)])
            m = np.abs(np.subtract.outer(pos, pos)) + 0.01
            np.fill_diagonal(m, 0)
            lab = [i if i < k else (i * i + salt) % k for i in range(n)]
            calc = CalculateCentroid(Fixed(m.copy()))
            for i, cl in enumerate(fx.partition(lab, x, y).create_all_spt_clusters(st)):
                c, d = calc.find_centroid_and_distances(cl)
                verify(ctx, m, [j for j in range(n) if lab[j] == i], y, c, d, 'cluster {} of {}x{}'.format(i, x, y))
                ctx.step()
            ctx.state('large', x, y, salt, k)


def run(spec, ctx):
    if 'large' in spec:
        return large(spec['large'], ctx)
    if 'n' in spec:
        n, (x, y), lab = spec['n'], spec['shape'], spec['lab']
        st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
        part = fx.partition(lab, x, y)
        clusters = part.create_all_spt_clusters(st)
        for m in matrices(n, spec['alpha']):
            dist = Fixed(m.copy())
            calc = CalculateCentroid(dist)
            if max(lab) == 0:
                c, d = calc.find_centroid_and_distances(st)
                verify(ctx, m, list(range(n)), y, c, d, 'region', spec.get('tol', 1e-9))
            for i, cl in enumerate(clusters):
                members = [j for j in range(n) if lab[j] == i]
                c, d = calc.find_centroid_and_distances(cl)
                verify(ctx, m, members, y, c, d, 'cluster {}'.format(i), spec.get('tol', 1e-9))
                ctx.outcome(c.x, c.y, len(members))
                ctx.step()
            ctx.state(x, y, lab, m.tobytes())
        return

    if 'hist' in spec:
        ctx.fresh_dir()
        raw = lib.distinct3d(365, 6, 6)
        raw[:, 2, 2] = raw[:, 3, 3] * 0.5 + raw[:, 1, 1] * 0.5
        fx.write_raw(raw, spd=1)
        regions = [('a', Region(0, 2, 0, 2), False), ('b', Region(2, 4, 1, 3), False),
                   ('c', Region(1, 4, 2, 4), False), ('d', Region(1, 3, 1, 3), True)]
        for which in spec['hist']:
            name, rect, scaled = regions[which]
            md = SpatioTemporalRegionMetadata(name, rect, 2015, 2015, 1, scaled=scaled)
            st = md.create_instance()
            m = lib_matrix(st, which)
            if spec['saved'] and which % 2 == 0:
                np.save(md.distances_filename, m)
            got = CalculateCentroid.for_sptr_metadata(md)
            verify(ctx, m, list(range(md.x_len * md.y_len)), md.y_len, got, None, 'region ' + name)
            got = CalculateCentroid.for_sptr_metadata(md, DistanceByDTW())
            verify(ctx, m, list(range(md.x_len * md.y_len)), md.y_len, got, None, 'region ' + name)
            ctx.step()
            ctx.state(spec['hist'], spec['saved'], which)
        return

    if 'regular' in spec:
        x, y, k = spec['regular']
        st = SpatioTemporalRegion(lib.distinct3d(4, x, y))
        m = lib.dtw_matrix(lib.series_of(st.numpy_dataset))
        dist = DistanceByDTW()
        dist.compute_distance_matrix(st)
        algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), dist)
        try:
            part = algo.partition(st)
        except ValueError:
            ctx.outcome('too small')
            return
        lab = [part.membership_of_point_indices([i])[0] for i in range(x * y)]
        ctx.check(len(part.medoids) == k, 'number of medoids')
        for i in range(k):
            members = [j for j in range(x * y) if lab[j] == i]
            verify(ctx, m, members, y, part.medoids[i], None, 'regular cluster {}'.format(i))
            ctx.step()
        for i, cl in enumerate(part.create_all_spt_clusters(st, medoids=part.medoids)):
            ctx.check(cl.has_centroid() and tuple(cl.get_centroid()) == tuple(part.medoids[i]),
                      'the medoid given to a cluster is its centroid')
        idx = [int(p.x * y + p.y) for p in part.medoids]
        for i, cl in enumerate(part.create_all_spt_clusters(st, centroid_indices=idx)):
            ctx.check(tuple(cl.get_centroid()) == tuple(part.medoids[i]), 'centroid by index')
        ctx.state('regular', x, y, k)
        return

    # get_centroid on a region, a scaled region and clusters
    kind = spec['get']
    for (x, y) in ((1, 3), (2, 2), (3, 2)):
        st = SpatioTemporalRegion(lib.distinct3d(5, x, y, kind))
        for region, what in ((st, 'region'), (fx.scale(st), 'scaled')):
            m = lib.dtw_matrix([region.series_at(Point(i, j)) for i, j in lib.points(x, y)])
            dist = DistanceByDTW()
            dist.compute_distance_matrix(region)
            ctx.check(not region.has_centroid(), 'centroid before it is calculated')
            got = region.get_centroid(dist)
            verify(ctx, m, list(range(x * y)), y, got, None, what)
            ctx.check(region.has_centroid(), 'centroid not kept')
            ctx.check(tuple(region.get_centroid()) == tuple(got), 'centroid changes')
            ctx.step()
            ctx.state(kind, x, y, what)
        for k in (2, 3):
            for lab in lib.rgs(x * y, k):
                for base in (SpatioTemporalRegion(lib.distinct3d(5, x, y, kind)), ):
                    dist = DistanceByDTW()
                    m = dist.compute_distance_matrix(base)
                    part = fx.partition(lab, x, y)
                    for i in range(k):
                        cl = part.create_spt_cluster(base, i)
                        members = [j for j in range(x * y) if lab[j] == i]
                        c, d = CalculateCentroid(dist).find_centroid_and_distances(cl)
                        verify(ctx, m, members, y, c, d, 'cluster')
                        ctx.step()
                        ctx.state(kind, x, y, lab, i)


_cache = {}


def lib_matrix(st, key):
    '''Reference DTW is quadratic in 365 samples: use the repository's measure once per region.'''
    if key not in _cache:
        _cache[key] = DistanceByDTW().compute_distance_matrix(st.as_2d)
    return _cache[key].copy()
