'''
C05 partition queries. For every partition of a tiny region: merging per-cluster values or cluster
representatives (any representative, any order, mixed value types), membership look-ups by point and
by index (any list), clusters and medoids met by every rectangle, cluster creation with medoids, and
the same answers after saving to / loading from disk and after cloning.
'''
import itertools
import os
from collections import namedtuple

import numpy as np

from spta.region import Point, Region
from spta.region.partition import PartitionRegion, PartitionRegionCrisp
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'exhaustive enumeration of partitions, representatives, rectangles and look-up lists vs set model'
LEVEL_NOTE = ('Every labelling of every shape up to 6 (thorough 8) points with up to 4 clusters, every '
              'choice of representatives (capped per-cluster to first/last for large ones), every '
              'rectangle, every pair/triple of look-up points.')

Forecast = namedtuple('Forecast', 'name series')


def cases(tier):
    limit = 6 if tier == 'quick' else 8
    for (x, y) in lib.shapes(4, 4):
        n = x * y
        if n > limit:
            continue
        for k in range(1, min(n, 4) + 1):
            labs = lib.surjections(n, k) if n <= 5 else lib.rgs(n, k)
            for lab in labs:
                yield {'x': x, 'y': y, 'lab': list(lab), 'k': k}
    for (x, y, k) in [(5, 7, 6), (7, 5, 3), (1, 12, 5), (12, 1, 5), (10, 13, 9), (20, 17, 15), (3, 4, 12), (3, 49, 7), (2, 98, 3), (2, 103, 5)]:
        lab = [i if i < k else (i * 7 + i // 4) % k for i in range(x * y)]
        yield {'x': x, 'y': y, 'lab': lab, 'k': k}
        yield {'x': x, 'y': y, 'lab': lab[::-1], 'k': k}
    for (x, y, k) in [(20, 15, 300), (15, 20, 257), (12, 11, 129), (20, 20, 256)]:
        yield {'x': x, 'y': y, 'many': k}


def many(spec, ctx):
    '''Very many clusters: labels, merges and reloads.'''
    x, y, k = spec['x'], spec['y'], spec['many']
    n = x * y
    for kind in range(3):
        lab = [i if i < k else (i * 7) % k for i in range(n)]
        lab = lab if kind == 0 else lab[::-1] if kind == 1 else [(v + k // 2) % k for v in lab]
        for dtype in (np.int64, np.int32, np.uint16):
            part = fx.partition(lab, x, y, dtype)
            ctx.check(part.k == k, '{} clusters instead of {}'.format(part.k, k))
            ctx.check([int(v) for v in part.membership_of_point_indices(np.arange(n))] == lab, 'labels of {} clusters'.format(k))
            ctx.check([int(v) for v in part.membership_of_points([Point(*p) for p in lib.points(x, y)])] == lab, 'labels of {} clusters'.format(k))
            ctx.step()
        a2 = np.arange(n, dtype=float).reshape(x, y)
        clusters = part.create_all_spatial_clusters(SpatialRegion(a2))
        ctx.check([int(c.cluster_len) for c in clusters] == [lab.count(c) for c in range(k)], 'sizes of {} clusters'.format(k))
        ctx.check([int(part.cluster_len(c)) for c in range(k)] == [lab.count(c) for c in range(k)], 'sizes of {} clusters'.format(k))
        ctx.check(same(part.merge_clusters_2d(clusters).numpy_dataset, a2), 'merge of {} clusters'.format(k))
        reps = [Point(*divmod(lab.index(c), y)) for c in range(k)]
        merged = part.merge_with_representatives_2d(clusters, reps)
        want = np.array([lab.index(v) for v in lab], dtype=float).reshape(x, y)
        ctx.check(same(np.array([merged.value_at(Point(*p)) for p in lib.points(x, y)], dtype=float).reshape(x, y), want), 'representatives of {} clusters'.format(k))
        part.medoids = reps
        part.to_pickle('many.pkl')
        back = PartitionRegion.try_from_pickle('many.pkl')
        ctx.check([int(v) for v in back.membership_of_point_indices(np.arange(n))] == lab and fx.pts(back.medoids) == fx.pts(reps), 'reload of {} clusters'.format(k))
        got = sorted(int(c) for c in part.find_indices_of_clusters_intersecting_with(Region(0, x, 0, y)))
        ctx.check(got == list(range(k)), 'clusters of the whole region')
        got = sorted(int(c) for c in part.find_indices_of_clusters_intersecting_with(Region(x - 2, x, 1, y)))
        ctx.check(got == sorted({lab[i * y + j] for i in (x - 2, x - 1) for j in range(1, y)}), 'clusters of a rectangle')
        ctx.check(fx.pts(part.find_medoids_of_clusters_intersecting_with(Region(x - 2, x, 1, y))) and
                  sorted(fx.pts(part.find_medoids_of_clusters_intersecting_with(Region(x - 2, x, 1, y)))) == sorted(fx.pts([reps[c] for c in got])), 'medoids of a rectangle')
        ctx.state(x, y, k, kind)


def queries(part, x, y, lab, k, medoids, ctx, what):
    allp = lib.points(x, y)
    n = x * y
    lists = [list(range(n)), list(range(n))[::-1], []] + \
        [[i] for i in range(n)] + [list(t) for t in itertools.product(range(n), repeat=2)][:60] + \
        [[n - 1, 0, n // 2, n - 1]]
    for li in lists:
        want = [lab[i] for i in li]
        if li or True:
            got = part.membership_of_point_indices(np.array(li, dtype=int))
            ctx.check(list(got) == want, '{}: membership of indices {} is {} expected {}'.format(
                what, li, got, want))
        got = part.membership_of_points([Point(i // y, i % y) for i in li]) if li else want
        ctx.check(list(got) == want, '{}: membership of points {} is {} expected {}'.format(
            what, li, got, want))
        ctx.step(2)
    rects = lib.rects(x, y)
    if len(rects) > 400:
        rects = rects[::len(rects) // 400]
    for r in rects:
        want = sorted({lab[i * y + j] for i in range(r[0], r[1]) for j in range(r[2], r[3])})
        got = [int(i) for i in part.find_indices_of_clusters_intersecting_with(Region(*r))]
        ctx.check(sorted(got) == want, '{}: rectangle {} meets clusters {} expected {}'.format(
            what, r, got, want))
        if medoids is not None:
            gm = [(p.x, p.y) for p in part.find_medoids_of_clusters_intersecting_with(Region(*r))]
            ctx.check(sorted(gm) == sorted(medoids[c] for c in want),
                      '{}: rectangle {} has medoids {}'.format(what, r, gm))
        ctx.step()
    if medoids is None:
        ctx.check(raises(lambda: part.find_medoids_of_clusters_intersecting_with(Region(0, 1, 0, 1)),
                         ValueError), '{}: medoids of a partition without medoids'.format(what))
    ctx.check([(p.x, p.y) for p in part] == allp, '{}: partition iteration'.format(what))
    ctx.check(part.k == k and tuple(part.shape) == (x, y) and part.x_len == x and part.y_len == y,
              '{}: shape'.format(what))
    for c in range(k):
        ctx.check(int(part.cluster_len(c)) == lab.count(c), '{}: size of {}'.format(what, c))
        ctx.check(not part.is_member(None, c), 'missing point is member')


def run(spec, ctx):
    ctx.fresh_dir()
    if 'many' in spec:
        return many(spec, ctx)
    x, y, lab, k = spec['x'], spec['y'], spec['lab'], spec['k']
    n = x * y
    allp = lib.points(x, y)
    mem = [fx.member_points(lab, x, y, c) for c in range(k)]
    big = n > 8
    for dtype in (np.int64, np.uint32, np.int8):
        part = fx.partition(lab, x, y, dtype)
        queries(part, x, y, lab, k, None, ctx, 'dtype {}'.format(dtype.__name__))
    part = fx.partition(lab, x, y)
    medoids = [m[(c + 1) % len(m)] for c, m in enumerate(mem)]
    part.medoids = [Point(*m) for m in medoids]
    queries(part, x, y, lab, k, medoids, ctx, 'with medoids')
    part.to_pickle('deep/er/p.pkl')
    back = PartitionRegion.try_from_pickle('deep/er/p.pkl')
    queries(back, x, y, lab, k, medoids, ctx, 'reloaded')
    ctx.check([tuple(m) for m in back.medoids] == medoids, 'medoids lost by saving')
    # overwriting a saved partition
    other = fx.partition([0] * n, x, y)
    other.to_pickle('deep/er/p.pkl')
    ctx.check(PartitionRegion.try_from_pickle('deep/er/p.pkl').k == 1, 'overwritten partition kept')
    cl = part.clone()
    queries(cl, x, y, lab, k, None if not hasattr(cl, 'medoids') else medoids, ctx, 'clone')
    cl.numpy_dataset[0, 0] = (lab[0] + 1) % (k + 1)
    ctx.check(part.membership_of_point_indices([0])[0] == lab[0], 'clone shares its labels')

    # creation with medoids / centroid indices, and refusal of both
    st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
    idx = [m[0] * y + m[1] for m in medoids]
    for clusters in (part.create_all_spt_clusters(st, medoids=[Point(*m) for m in medoids]),
                     part.create_all_spt_clusters(st, centroid_indices=idx)):
        for c, c_obj in enumerate(clusters):
            got = c_obj.get_centroid()
            ctx.check(c_obj.has_centroid() and (got.x, got.y) == medoids[c],
                      'cluster {} has centroid {} expected {}'.format(c, got, medoids[c]))
            ctx.check(c_obj.cluster_index == c, 'cluster order')
    if big:
        # every point as the centroid given by its index
        for first in range(0, n, k):
            idx = [(first + c) % n for c in range(k)]
            for c_obj, i in zip(part.create_all_spt_clusters(st, centroid_indices=idx), idx):
                got = c_obj.get_centroid()
                ctx.check((got.x, got.y) == divmod(i, y), 'centroid of index {} is {}'.format(i, got))
            ctx.step()
    for c_obj in part.create_all_spt_clusters(st):
        ctx.check(not c_obj.has_centroid(), 'cluster without medoids reports a centroid')
    if x != y:
        wrong = SpatioTemporalRegion(lib.distinct3d(2, y, x))
        ctx.check(raises(lambda: part.create_spt_cluster(wrong, 0)), 'shape mismatch accepted')
        wrong2 = SpatialRegion(lib.distinct2d(y, x))
        ctx.check(raises(lambda: part.create_spatial_cluster(wrong2, 0)), 'shape mismatch accepted')

    # merge with representatives
    a2 = lib.distinct2d(x, y)
    names = np.empty((x, y), dtype=object)
    for i, p in enumerate(allp):
        names[p] = Forecast('m{}'.format(i), np.arange(3) + i)
    texts = np.array(['t' * (i + 1) for i in range(n)]).reshape(x, y)
    choices = itertools.product(*[m if len(m) <= 2 or not big and n <= 5 else [m[0], m[-1]]
                                  for m in mem])
    choices = list(itertools.islice(choices, 40))
    for reps in choices:
        for data in (a2, (a2 * 4).astype(np.int64), names, texts):
            orders = list(itertools.permutations(range(len(reps)))) if data is a2 and k <= 3 else \
                [tuple(range(len(reps))), tuple(reversed(range(len(reps))))]
            for order in orders:
                # clusters in any order, each with its own representative
                clusters = part.create_all_spatial_clusters(SpatialRegion(data.copy()))
                merged = part.merge_with_representatives_2d([clusters[c] for c in order],
                                                            [Point(*reps[c]) for c in order])
                for i, p in enumerate(allp):
                    got, want = merged.value_at(Point(*p)), data[reps[lab[i]]]
                    ok = (got is want or got == want) if data.dtype != object else got is want or \
                        (got.name == want.name and same(got.series, want.series))
                    ctx.check(ok, 'value at {} is {} expected representative value {}'.format(
                        p, got, want))
                ctx.step()
        ctx.state(x, y, tuple(lab), tuple(reps))
    # a representative outside its cluster is refused
    if k >= 2:
        clusters = part.create_all_spatial_clusters(SpatialRegion(a2))
        bad = [Point(*m[0]) for m in mem]
        bad[0] = Point(*mem[1][0])
        ctx.check(raises(lambda: part.merge_with_representatives_2d(clusters, bad), ValueError),
                  'representative of another cluster accepted')
        ctx.check(raises(lambda: part.merge_clusters_2d(clusters[:-1]), ValueError),
                  'merge with a missing cluster accepted')
        ctx.check(raises(lambda: part.merge_clusters_2d(clusters[:-1] + [clusters[0]]), ValueError),
                  'merge with a duplicated cluster accepted')
    # merge: values of different types, any order
    objs = []
    for c in range(k):
        d = (a2 * 8).astype(np.int64) if c % 2 == 0 else a2 + 0.125
        objs.append(part.create_spatial_cluster(SpatialRegion(d), c))
    orders = list(itertools.permutations(range(k))) if k <= 4 else [tuple(range(k)),
                                                                     tuple(range(k))[::-1]]
    for order in orders:
        given = [objs[c] for c in order]
        merged = part.merge_clusters_2d(given)
        ctx.check(all(g is objs[c] for g, c in zip(given, order)), 'merge altered its argument list')
        for i, p in enumerate(allp):
            want = objs[lab[i]].value_at(Point(*p))
            ctx.check(merged.value_at(Point(*p)) == want,
                      'merge in order {}: {} at {} expected {}'.format(
                          order, merged.value_at(Point(*p)), p, want))
        ctx.step()
        ctx.state(x, y, tuple(lab), 'merge', order)
    ctx.outcome(tuple(lab))
