'''
C04 cluster confinement. Every assignment of the points of a tiny region to clusters: the clusters
are disjoint and cover the region, sizes match, no operation reads outside a cluster, and applying
any (point-dependent, stateful) function cluster by cluster - in every order - and merging gives
the function over the whole region.
'''
import itertools

import numpy as np

from spta.region import Point
from spta.region.function import (FunctionRegionScalar, FunctionRegionSeries,
                                  FunctionRegionScalarSame, FunctionRegionSeriesSame)
from spta.region.partition import PartitionRegion, PartitionRegionCrisp
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'exhaustive enumeration of partitions and cluster orders, differential vs whole-region result'
LEVEL_NOTE = ('Every labelling of every shape up to 6 (thorough 8) points with up to 4 clusters, all '
              'orders of processing/merging the clusters; larger shapes as single configurations.')


def cases(tier):
    limit = 6 if tier == 'quick' else 8
    for (x, y) in lib.shapes(4, 4):
        n = x * y
        if n > limit:
            continue
        for k in range(1, min(n, 4) + 1):
            labs = lib.surjections(n, k) if n <= 5 or tier == 'thorough' and n <= 6 else lib.rgs(n, k)
            for lab in labs:
                yield {'x': x, 'y': y, 'lab': list(lab), 'k': k}
    # labels with gaps: some of the clusters are empty
    for (x, y) in lib.shapes(3, 3):
        for lab in itertools.product(range(3), repeat=min(x * y, 4)):
            lab = [lab[i % len(lab)] for i in range(x * y)]
            for names in ([0, 2, 3], [1, 2, 5], [4, 1, 0]):
                used = [names[v] for v in lab]
                if set(used) != set(range(max(used) + 1)):
                    yield {'m': 'gaps', 'x': x, 'y': y, 'lab': used}
    for (x, y, k) in [(5, 7, 6), (7, 5, 3), (1, 12, 5), (12, 1, 5), (10, 13, 9), (20, 17, 15)]:
        lab = [i if i < k else (i * 7 + i // 4) % k for i in range(x * y)]
        yield {'x': x, 'y': y, 'lab': lab, 'k': k}
        yield {'x': x, 'y': y, 'lab': sorted(lab), 'k': k}
    for (x, y, k) in [(10, 14, 140), (20, 15, 300), (2, 49, 3), (5, 53, 258)]:
        yield {'x': x, 'y': y, 'lab': [(i * 11) % k for i in range(x * y)], 'k': k}


class CountingPartition(PartitionRegion):
    '''a partition kind that only says who is a member'''

    def is_member(self, point, cluster_index):
        return self.numpy_dataset[point.x, point.y] == cluster_index


def gaps(spec, ctx):
    '''Partitions where some cluster has no members: sizes and members are still the true ones.'''
    x, y, lab = spec['x'], spec['y'], spec['lab']
    k = max(lab) + 1
    part = PartitionRegionCrisp(np.array(lab).reshape(x, y), k)
    clone = part.clone()
    region = SpatioTemporalRegion(lib.distinct3d(3, x, y))
    for p in (part, clone):
        for c in range(k):
            mem = fx.member_points(lab, x, y, c)
            ctx.check(int(p.cluster_len(c)) == len(mem), 'size of cluster {} of {}'.format(c, lab))
            cl = p.create_spt_cluster(region, c)
            ctx.check(int(cl.cluster_len) == len(mem) and fx.pts(q for q, _ in cl) == mem,
                      'members of cluster {} of {}'.format(c, lab))
            flat = p.create_spatial_cluster(SpatialRegion(lib.distinct2d(x, y)), c)
            ctx.check(int(flat.cluster_len) == len(mem) and fx.pts(q for q, _ in flat) == mem, 'members of cluster {} of {}'.format(c, lab))
            for q in lib.points(x, y):
                if q not in mem:
                    ctx.check(raises(lambda: cl.series_at(Point(*q)), ValueError) and raises(lambda: flat.value_at(Point(*q)), ValueError),
                              'cluster {} of {}: {} is readable'.format(c, lab, q))
            ctx.check(all(bool(p.is_member(Point(*q), c)) == (q in mem) for q in lib.points(x, y)),
                      'membership of {}'.format(lab))
            ctx.step()
            ctx.state('gaps', x, y, tuple(lab), c)


def run(spec, ctx):
    if spec.get('m') == 'gaps':
        return gaps(spec, ctx)
    x, y, lab, k = spec['x'], spec['y'], spec['lab'], spec['k']
    big = x * y > 8
    part = fx.partition(lab, x, y)
    ctx.check(part.k == k, 'number of clusters {} expected {}'.format(part.k, k))
    a2 = lib.distinct2d(x, y)
    a3 = lib.distinct3d(3, x, y)
    allp = lib.points(x, y)
    mem = [fx.member_points(lab, x, y, c) for c in range(k)]

    for dim in (2, 3):
        region = SpatialRegion(a2.copy()) if dim == 2 else SpatioTemporalRegion(a3.copy())
        clusters = part.create_all_spatial_clusters(region) if dim == 2 else \
            part.create_all_spt_clusters(region)
        ctx.check(len(clusters) == k, 'cluster count')
        count = CountingPartition(np.array(lab).reshape(x, y), k)
        for c, cl in enumerate(clusters):
            got = [(p.x, p.y) for p, _ in cl]
            ctx.check(got == mem[c], 'cluster {} iterates {} expected {}'.format(c, got, mem[c]))
            ctx.check(int(cl.cluster_len) == len(mem[c]) and
                      int(part.cluster_len(c)) == len(mem[c]) and
                      int(count.cluster_len(c)) == len(mem[c]), 'size of cluster {}'.format(c))
            ctx.check(tuple(cl.shape) == tuple(region.shape) and cl.x_len == x and cl.y_len == y,
                      'cluster shape')
            for p in allp:
                ins = p in mem[c]
                ctx.check(bool(part.is_member(Point(*p), c)) == ins, 'is_member {} {}'.format(p, c))
                acc = (lambda: cl.value_at(Point(*p))) if dim == 2 else \
                    (lambda: cl.series_at(Point(*p)))
                if ins:
                    ctx.check(same(acc(), a2[p] if dim == 2 else a3[:, p[0], p[1]]),
                              'value at member {}'.format(p))
                    rp = cl.repeat_point(Point(*p))
                    ctx.check([(q.x, q.y) for q, _ in rp] == mem[c], 'repeated region members')
                else:
                    ctx.check(raises(acc, ValueError), 'non-member {} readable'.format(p))
                    ctx.check(raises(lambda: cl.repeat_point(Point(*p)), ValueError),
                              'non-member {} repeatable'.format(p))
            ctx.step(len(allp))
            if dim == 3:
                ctx.check([int(i) for i in cl.all_point_indices] == [p[0] * y + p[1] for p in mem[c]],
                          'point indices of cluster {}'.format(c))

        # functions: same everywhere / point dependent / integer / object results
        funs = []
        if dim == 2:
            f_np = np.empty((x, y), dtype=object)
            for i, p in enumerate(allp):
                f_np[p] = (lambda i: lambda v: v * (i + 2) - i)(i)
            funs = [('same', FunctionRegionScalarSame(lambda v: v * 3 - 1, x, y)),
                    ('per point', FunctionRegionScalar(f_np)),
                    ('int', FunctionRegionScalarSame(lambda v: int(v) // 2, x, y, dtype=np.int64)),
                    ('object', FunctionRegionScalarSame(lambda v: ('m', v), x, y, dtype=object))]
        else:
            f_np = np.empty((x, y), dtype=object)
            for i, p in enumerate(allp):
                f_np[p] = (lambda i: lambda s: s[0] * (i + 1) - s[-1])(i)
            funs = [('same', FunctionRegionScalarSame(lambda s: float(np.max(s)), x, y)),
                    ('per point', FunctionRegionScalar(f_np))]
        for name, f in funs:
            whole = f.apply_to(region)
            calls = []
            results = []
            for c, cl in enumerate(clusters):
                res = f.apply_to(cl)
                ctx.check([(p.x, p.y) for p, _ in res] == mem[c],
                          '{} function result over cluster {} has other members'.format(name, c))
                results.append(res)
                for p in mem[c]:
                    w, g = whole.value_at(Point(*p)), res.value_at(Point(*p))
                    ctx.check(w == g, '{} function over cluster {} at {}: {} vs whole {}'.format(
                        name, c, p, g, w))
            orders = itertools.permutations(range(k)) if not big else \
                [tuple(range(k)), tuple(range(k))[::-1]]
            for order in orders:
                given = [results[c] for c in order]
                merged = part.merge_clusters_2d(given)
                ctx.check(len(given) == k and all(g is results[c] for g, c in zip(given, order)),
                          '{}: merging altered the list of clusters'.format(name))
                ctx.check(tuple(merged.shape) == (x, y), 'merged shape')
                for p in allp:
                    ctx.check(merged.value_at(Point(*p)) == whole.value_at(Point(*p)),
                              '{}: merged value at {} is {} expected {}'.format(
                                  name, p, merged.value_at(Point(*p)), whole.value_at(Point(*p))))
                ctx.step()
                ctx.state(x, y, tuple(lab), dim, name, order)
        # a function sees exactly the members, once each
        for c, cl in enumerate(clusters):
            seen = []
            FunctionRegionScalarSame(lambda v: seen.append(np.array(v).tolist()) or 0.0, x, y).apply_to(cl)
            want = [a2[p].tolist() if dim == 2 else a3[:, p[0], p[1]].tolist() for p in mem[c]]
            ctx.check(seen == want, 'function over cluster {} evaluated on {}'.format(c, seen))
        if dim == 3:
            fs = FunctionRegionSeriesSame(lambda s: np.cumsum(s)[:2], x, y)
            whole = fs.apply_to(region, 2)
            for c, cl in enumerate(clusters):
                res = fs.apply_to(cl, 2)
                for p in allp:
                    if p in mem[c]:
                        ctx.check(same(res.series_at(Point(*p)), whole.series_at(Point(*p))),
                                  'series function over cluster {} at {}'.format(c, p))
                    else:
                        ctx.check(raises(lambda: res.series_at(Point(*p)), ValueError),
                                  'series result readable outside cluster')
            ctx.check(same(region.as_numpy, a3), 'region altered')
    # disjoint cover
    union = sorted(p for m in mem for p in m)
    got = sorted((p.x, p.y) for cl in part.create_all_spatial_clusters(SpatialRegion(a2))
                 for p, _ in cl)
    ctx.check(got == union == allp, 'clusters do not tile the region')
    ctx.outcome(tuple(len(m) for m in mem))
