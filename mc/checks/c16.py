'''
C16 fuzzy k-medoids. Every symmetric distance matrix over a small alphabet on 4 points (subset of 5),
every ordered choice of initial medoids, several fuzzifiers and tolerances, precomputed or measured
distances: memberships, costs and local optimality of the result are compared with the FCM
definition computed independently.
'''
import itertools

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.kmedoids.kmedoids_fuzzy import (run_kmedoids_fuzzy, run_kmedoids_fuzzy_from_params,
                                          kmedoids_fuzzy_default_params)
from spta.region.temporal import SpatioTemporalRegion

from mc import lib
from mc.checks.c13 import matrices
from mc.checks.c14 import ByIndex
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of distance matrices x initial medoids against the FCM definition'
LEVEL_NOTE = ('All matrices over {1,2,3} (quick {1,3}) and with zero distances over {0,1,2} (quick {0,2}) on 4 points, {1,2} on 5 in the thorough tier; m in {1.5,2,3}; nearly equal distances; 36 points in up to 11 clusters.')


def cases(tier):
    thorough = tier != 'quick'
    alpha = [1, 2, 3] if thorough else [1, 3]
    for k in (1, 2, 3, 4):
        for m in (2, 1.5, 3):
            for block in range(16):
                yield {'n': 4, 'k': k, 'm': m, 'alpha': alpha, 'mod': 16, 'rem': block}
    for k in (1, 2, 3):
        yield {'n': 4, 'k': k, 'm': 2, 'alpha': [0.6, 0.602, 1.7], 'mod': 1, 'rem': 0}
        yield {'n': 4, 'k': k, 'm': 2, 'alpha': [1000, 1000 + 2.0 ** -12], 'mod': 1, 'rem': 0, 'tols': [1e-6]}
    for k in (1, 2, 3, 4):      # equal series
        for m in (2, 3):
            for block in range(4):
                yield {'n': 4, 'k': k, 'm': m, 'alpha': [0, 1, 2] if thorough else [0, 2], 'mod': 4, 'rem': block}
    for k in (2, 5, 11):
        yield {'large': k}
    if thorough:
        for block in range(64):
            yield {'n': 5, 'k': 2, 'm': 2, 'alpha': [1, 2], 'mod': 64, 'rem': block}
    for seed in range(0, 12 if not thorough else 40):
        yield {'seed': seed}
    for k in (1, 2, 3):
        yield {'params': k}


def fcm(d, med, m):
    n, k = len(d), len(med)
    u = np.zeros((n, k))
    for i in range(n):
        if i in med:
            u[i, med.index(i)] = 1.0
        else:
            at_zero = [j for j in range(k) if d[i, med[j]] == 0]
            if at_zero:         # equal to some medoids: member of their clusters only, in equal parts
                for j in at_zero:
                    u[i, j] = 1.0 / len(at_zero)
                continue
            w = [(1.0 / d[i, j]) ** (1.0 / (m - 1)) for j in med]
            for j in range(k):
                u[i, j] = w[j] / sum(w)
    costs = [sum(u[i, j] * d[i, med[j]] for i in range(n)) for j in range(k)]
    return u, costs


def verify(ctx, d, r, k, m, tol, init, what):
    n = len(d)
    med = [int(i) for i in r.medoids]
    ctx.check(len(med) == k and len(set(med)) == k and all(0 <= i < n for i in med),
              what + ': medoids {}'.format(med))
    u, costs = fcm(d, med, m)
    ctx.check(same(r.uij, u), what + ': memberships\n{}\nexpected\n{}'.format(r.uij, u))
    ctx.check(same(np.asarray(r.uij).sum(axis=1), np.ones(n)), what + ': memberships do not add to 1')
    ctx.check(same(r.costs, costs) and same(r.total_cost, sum(costs)), what + ': costs')
    ctx.check(r.k == k and r.m == m, what + ': header')
    total = sum(costs)
    if init is not None:
        ctx.check(total <= sum(fcm(d, list(init), m)[1]) + 1e-9, what + ': worse than the start')
    for j in range(k):
        for i in range(n):
            if i not in med:
                other = sum(fcm(d, med[:j] + [i] + med[j + 1:], m)[1])
                ctx.check(other >= total - tol - 1e-9,
                          what + ': swapping medoid {} for {} improves {} to {}'.format(med[j], i, total, other))


def run(spec, ctx):
    if 'n' in spec:
        n, k, m = spec['n'], spec['k'], spec['m']
        X = np.array([[i, i * i] for i in range(n)], dtype=float)
        for idx, d in enumerate(matrices(n, spec['alpha'])):
            if idx % spec['mod'] != spec['rem']:
                continue
            for init in itertools.permutations(range(n), k):
                for pre in (True, False) if idx % 5 == 0 else (True,):
                    for tol in spec.get('tols') or ((0.001, 0.5) if m == 2 else (0.001,)):
                        r = run_kmedoids_fuzzy(X, k, m, ByIndex(d, pre), initial_medoids=list(init),
                                               tol=tol, verbose=False)
                        verify(ctx, d, r, k, m, tol, init, 'k={} m={} init={}'.format(k, m, init))
                        ctx.step()
                        ctx.outcome(tuple(int(i) for i in r.medoids))
            ctx.state(k, m, d.tobytes())
        return
    if 'large' in spec:
        n, k = 36, spec['large']
        pos = np.array([((i * 53 + i * i) % 97) * 0.5 + 0.01 * i for i in range(n)])
        d = np.abs(np.subtract.outer(pos, pos))
        X = np.array([[i, i] for i in range(n)], dtype=float)
        for seed in (0, 1):
            r = run_kmedoids_fuzzy(X, k, 2, ByIndex(d, True), random_seed=seed, verbose=False)
            verify(ctx, d, r, k, 2, 0.001, None, 'n={} k={} seed={}'.format(n, k, seed))
            ctx.step()
            ctx.state('large', k, seed)
        return
    if 'params' in spec:
        return run_params(spec['params'], ctx)
    seed = spec['seed']
    for (x, y) in ((2, 3), (3, 3)):
        st = SpatioTemporalRegion(lib.distinct3d(4, x, y))
        X = st.as_2d
        d = lib.dtw_matrix(lib.series_of(st.numpy_dataset))
        for k in (1, 2, 3):
            dist = DistanceByDTW()
            dist.compute_distance_matrix(st)
            r = run_kmedoids_fuzzy_from_params(X, kmedoids_fuzzy_default_params(
                k, distance_measure=dist, random_seed=seed))
            verify(ctx, d, r, k, 2, 0.001, None, 'region {}x{} k={} seed={}'.format(x, y, k, seed))
            ctx.step()
            ctx.state(x, y, k, seed)
            ctx.outcome(tuple(int(i) for i in r.medoids))


def run_params(k, ctx):
    '''The run with a set of parameters is the run with these arguments, whatever was run before.'''
    pos = np.array([(i * 53 + i * i) % 31 * 0.5 for i in range(9)])
    d = np.abs(np.subtract.outer(pos, pos)) + 0.01 * np.subtract.outer(np.arange(9), np.arange(9)) ** 2
    X = np.array([[i, i * i] for i in range(9)], dtype=float)
    Y = np.array([[10 + 3 * i % 7, i] for i in range(9)], dtype=float)
    seen = set()
    for m, init, seed, max_iter, tol in itertools.product((2, 1.5), (None, list(range(k)), list(range(8, 8 - k, -1))), (1, 2),
                                                          (1000, -1, 0), (0.001, 30.0)):
        for measure in (ByIndex(d, True), ByIndex(d, False), None):
            given = dict(m=m, initial_medoids=init, random_seed=seed, max_iter=max_iter, tol=tol, verbose=False)
            if measure is not None:
                given['distance_measure'] = measure
            direct = dict(given, distance_measure=measure or DistanceByDTW())
            params = kmedoids_fuzzy_default_params(k, **given)
            if measure is None:     # another run with the defaults in between
                run_kmedoids_fuzzy_from_params(Y, kmedoids_fuzzy_default_params(k, random_seed=seed, max_iter=0))
            got = run_kmedoids_fuzzy_from_params(X, params)
            want = run_kmedoids_fuzzy(X, k, **direct)
            what = 'parameters k={} m={} init={} seed={} max_iter={} tol={}'.format(k, m, init, seed, max_iter, tol)
            ctx.check((got.k, got.m, got.random_seed) == (k, m, seed), what + ': another configuration')
            ctx.check([int(i) for i in got.medoids] == [int(i) for i in want.medoids], what + ': another result')
            ctx.check(same(got.uij, want.uij) and got.total_cost == want.total_cost, what + ': other memberships')
            if max_iter == 1000 and measure is not None:
                verify(ctx, d, got, k, m, tol, init, what)
            seen.add((tuple(int(i) for i in got.medoids), got.total_cost))
            ctx.step()
            ctx.state(k, m, str(init), seed, max_iter, tol, measure is None)
            ctx.outcome(tuple(int(i) for i in got.medoids))
    ctx.check(len(seen) > 5 or k == 1, 'the menu does not tell the parameters apart')
