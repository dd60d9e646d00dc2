'''
C14 k-medoids results. Every symmetric distance matrix over a small alphabet on 4 and 5 points (and
every choice of 6 points on a line), every ordered choice of initial medoids, both search modes,
several tolerances and iteration limits, with the matrix precomputed or measured on demand: the
result is compared with the definition (k different medoids, nearest-medoid labels, costs, no worse
than the start, no single allowed swap improves it by more than the tolerance).
'''
import itertools

import numpy as np

from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
from spta.distance import DistanceBetweenSeries
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids.kmedoids import (run_kmedoids, run_kmedoids_from_metadata,
                                    kmedoids_default_metadata, kmedoids_suite_metadata)
from spta.region.temporal import SpatioTemporalRegion

from mc import lib
from mc.checks.c13 import matrices
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of distance matrices x initial medoids x modes against the definition'
LEVEL_NOTE = ('Matrices with distances {1,2,3} on 4 points, {1,2} (thorough {1,2,4}) on 5, points on a line '
              '0..8 for 6; all ordered initial medoids; k up to n; lite and robust; tol and max_iter variants; '
              'nearly equal distances; up to 270 points and 258 clusters.')


class ByIndex(DistanceBetweenSeries):
    '''Series are one-hot carriers of the point index; the distance is looked up.'''
    def __init__(self, m, precomputed):
        super(ByIndex, self).__init__()
        self.m = m
        if precomputed:
            self.distance_matrix = m.copy()

    def measure(self, a, b):
        return self.m[int(a[0]), int(b[0])]

    def __repr__(self):
        return 'byindex'


def cases(tier):
    thorough = tier != 'quick'
    for k in (1, 2, 3, 4):
        for block in range(27 if k < 4 else 3):
            yield {'n': 4, 'k': k, 'alpha': [1, 2, 3], 'mod': 27 if k < 4 else 3, 'rem': block}
    for k in (1, 2, 3):
        nblocks = 32
        for block in range(nblocks):
            yield {'n': 5, 'k': k, 'alpha': [1, 2], 'mod': nblocks, 'rem': block,
                   'light': not thorough}
    if thorough:
        for k in (2,):
            for block in range(512):
                yield {'n': 5, 'k': k, 'alpha': [1, 2, 4], 'mod': 512, 'rem': block, 'light': True}
    for pts in itertools.combinations(range(8 if not thorough else 10), 6):
        yield {'line': pts}
    for pts in itertools.combinations_with_replacement(range(3), 4):
        yield {'line': pts}
    for k in (1, 2, 3):
        yield {'n': 4, 'k': k, 'alpha': [0.6, 0.602, 1.7], 'mod': 1, 'rem': 0}
        for block in range(3):
            yield {'n': 4, 'k': k, 'alpha': [1000, 1000 + 2.0 ** -12, 1000 + 2.0 ** -11], 'mod': 3, 'rem': block, 'tols': [1e-6]}
    for n, k in ((40, 3), (40, 12), (64, 11), (270, 2), (140, 130), (264, 258), (98, 97), (147, 140)):
        for mode in ('lite', 'robust'):
            if n * (n - k) < 3000 or mode == 'lite':
                yield {'large': n, 'k': k, 'mode': mode}
    for seed in range(0, 20 if not thorough else 60):
        yield {'seed': seed}


def cost_of(m, med):
    return float(sum(min(m[i, j] for j in med) for i in range(len(m))))


def verify(ctx, m, r, k, mode, tol, init, converged, what):
    n = len(m)
    med = [int(i) for i in r.medoids]
    ctx.check(len(med) == k and len(set(med)) == k and all(0 <= i < n for i in med),
              what + ': medoids {}'.format(med))
    lab = [int(v) for v in r.labels]
    ctx.check(len(lab) == n and all(0 <= v < k for v in lab), what + ': labels {}'.format(lab))
    for i in range(n):
        near = min(m[i, j] for j in med)
        ctx.check(abs(m[i, med[lab[i]]] - near) < 1e-9,
                  what + ': point {} is not with its nearest medoid ({}, {})'.format(i, lab, med))
    costs = [sum(m[i, med[j]] for i in range(n) if lab[i] == j) for j in range(k)]
    ctx.check(same(r.costs, costs), what + ': cluster costs {} expected {}'.format(r.costs, costs))
    ctx.check(same(r.total_cost, sum(costs)), what + ': total cost {}'.format(r.total_cost))
    ctx.check(same(r.medoid_distances, m[:, med]), what + ': distances to the medoids')
    ctx.check(r.k == k and r.mode == mode, what + ': result header')
    if init is not None:
        ctx.check(r.total_cost <= cost_of(m, init) + 1e-9, what + ': worse than the initial medoids')
    if converged:
        for j in range(k):
            for i in range(n):
                if i in med or (mode == 'lite' and lab[i] != j):
                    continue
                other = cost_of(m, med[:j] + [i] + med[j + 1:])
                ctx.check(other >= r.total_cost - tol - 1e-9,
                          what + ': replacing medoid {} with {} costs {} instead of {}'.format(
                              med[j], i, other, r.total_cost))


def large(spec, ctx):
    '''Many points and many clusters, as a partition of a region too.'''
    n, k, mode = spec['large'], spec['k'], spec['mode']
    x, y = {40: (8, 5), 64: (4, 16), 270: (15, 18), 140: (10, 14), 264: (24, 11), 98: (2, 49), 147: (3, 49)}[n]
    pos = np.array([((i * 53 + i * i) % 307) * 0.5 + 0.01 * i for i in range(n)])
    m = np.abs(np.subtract.outer(pos, pos))
    X = np.array([[i, i] for i in range(n)], dtype=float)
    st = SpatioTemporalRegion(X.T.reshape(2, x, y).copy())
    for seed in (0, 1) if ctx.tier == 'quick' else (0, 1, 2, 3):
        what = 'n={} k={} {} seed={}'.format(n, k, mode, seed)
        r = run_kmedoids(X, k, ByIndex(m, True), random_seed=seed, mode=mode, verbose=False)
        verify(ctx, m, r, k, mode, 0.001, None, n * k < 600, what)
        if n * k >= 600:     # the exchanges of a cluster with the members near it
            med = [int(i) for i in r.medoids]
            near = m[:, med]
            for j in range(k):
                others = np.delete(near, j, axis=1).min(axis=1) if k > 1 else np.full(n, np.inf)
                for i in [int(v) for v in np.where(np.asarray(r.labels) == j)[0]][:60]:
                    other = float(np.minimum(others, m[:, i]).sum())
                    ctx.check(i in med or other >= r.total_cost - 0.001 - 1e-9, what + ': medoid {} instead of {}'.format(i, med[j]))
        algo = KmedoidsClusteringAlgorithm(KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode), ByIndex(m, True))
        part = algo.partition(st)
        lab = [int(v) for v in part.membership_of_point_indices(list(range(n)))]
        ctx.check(lab == [int(v) for v in r.labels] and part.k == k, what + ': partition labels')
        ctx.check([(p.x, p.y) for p in part.medoids] == [divmod(int(i), y) for i in r.medoids], what + ': medoids of the partition')
        ctx.step()
        ctx.state('large', n, k, mode, seed)
        ctx.outcome(tuple(int(i) for i in r.medoids))


def run(spec, ctx):
    if 'large' in spec:
        return large(spec, ctx)
    if 'n' in spec:
        n, k = spec['n'], spec['k']
        X = np.array([[i, i * i] for i in range(n)], dtype=float)
        variants = [(0.001, 1000)]
        if spec.get('tols'):
            variants = [(t, 1000) for t in spec['tols']]
        elif not spec.get('light'):
            variants += [(1.5, 1000), (0.001, 0)]
        for idx, m in enumerate(matrices(n, spec['alpha'])):
            if idx % spec['mod'] != spec['rem']:
                continue
            for init in itertools.permutations(range(n), k):
                for mode in ('lite', 'robust'):
                    for (tol, max_iter) in variants:
                        if spec.get('light') and init[0] > init[-1]:
                            continue
                        r = run_kmedoids(X, k, ByIndex(m, True), initial_medoids=list(init),
                                         mode=mode, tol=tol, max_iter=max_iter, verbose=False)
                        verify(ctx, m, r, k, mode, tol, init, max_iter > 0,
                               'n={} init={} {}'.format(n, init, mode))
                        ctx.step()
                        ctx.outcome(tuple(int(i) for i in r.medoids), tuple(int(v) for v in r.labels))
                    if not spec.get('light') and idx % 3 == 0:
                        r2 = run_kmedoids(X, k, ByIndex(m, False), initial_medoids=list(init),
                                          mode=mode, tol=tol, max_iter=1000, verbose=True)
                        r1 = run_kmedoids(X, k, ByIndex(m, True), initial_medoids=list(init),
                                          mode=mode, tol=tol, max_iter=1000, verbose=True)
                        ctx.check(list(r1.medoids) == list(r2.medoids) and same(r1.labels, r2.labels)
                                  and same(r1.costs, r2.costs),
                                  'result differs without a precomputed matrix')
                        ctx.step()
            ctx.state(k, m.tobytes())
        return

    if 'line' in spec:
        pts = spec['line']
        n = len(pts)
        X = np.array([[p, p, p] for p in pts], dtype=float)
        m = lib.dtw_matrix(list(X))
        for k in (1, 2, 3):
            for init in itertools.permutations(range(n), k):
                for mode in ('lite', 'robust'):
                    dist = DistanceByDTW()
                    dist.compute_distance_matrix(X)
                    r = run_kmedoids(X, k, dist, initial_medoids=list(init), mode=mode)
                    verify(ctx, m, r, k, mode, 0.001, init, True, 'line {} init={} {}'.format(pts, init, mode))
                    ctx.step()
                    ctx.outcome(tuple(int(i) for i in r.medoids), tuple(int(v) for v in r.labels))
                if k == 3 and init > (2, 0, 0):
                    break
        ctx.state(pts)
        return

    # random initial medoids, through every entry point
    seed = spec['seed']
    for (x, y) in ((2, 3), (3, 2), (1, 7), (3, 3)):
        st = SpatioTemporalRegion(lib.distinct3d(4, x, y))
        X = st.as_2d
        m = lib.dtw_matrix(lib.series_of(st.numpy_dataset))
        for k in range(1, 5):
            for mode in ('lite', 'robust'):
                dist = DistanceByDTW()
                dist.compute_distance_matrix(st)
                what = 'region {}x{} k={} seed={} {}'.format(x, y, k, seed, mode)
                r = run_kmedoids(X, k, dist, random_seed=seed, mode=mode)
                verify(ctx, m, r, k, mode, 0.001, None, True, what)
                r2 = run_kmedoids_from_metadata(X, kmedoids_default_metadata(
                    k, distance_measure=dist, random_seed=seed, mode=mode))
                md3, = list(kmedoids_suite_metadata([k], [seed], distance_measure=dist, mode=mode))
                r3 = run_kmedoids_from_metadata(X, md3)
                for o in (r2, r3):
                    ctx.check(list(o.medoids) == list(r.medoids) and same(o.labels, r.labels) and
                              same(o.total_cost, r.total_cost), what + ': entry points differ')
                algo = KmedoidsClusteringAlgorithm(
                    KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode), dist)
                part = algo.partition(st)
                lab = part.membership_of_point_indices(list(range(x * y)))
                ctx.check(lab == [int(v) for v in r.labels] and part.k == k, what + ': partition labels')
                ctx.check([(p.x, p.y) for p in part.medoids] == [divmod(int(i), y) for i in r.medoids],
                          what + ': medoids {} vs {}'.format(part.medoids, r.medoids))
                for i, p in enumerate(part.medoids):
                    ctx.check(part.is_member(p, i), what + ': a medoid is outside its cluster')
                nomed = algo.partition(st, with_medoids=False)
                ctx.check(nomed.membership_of_point_indices(list(range(x * y))) == lab,
                          what + ': partition without medoids')
                ctx.step(5)
                ctx.state(x, y, k, mode, seed)
                ctx.outcome(tuple(int(i) for i in r.medoids), tuple(lab))
