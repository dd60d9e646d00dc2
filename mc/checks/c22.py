'''
C22 forecasters. Every series over a small alphabet, every forecast length, k and distance: the k-NN
forecast is the mean of k windows of the series that are nearest to the last window; too few windows
are refused. Mean-of-past repeats the mean of the last values. Over regions, every history of forecasts
(lengths, clusters, missing models, other regions) gives at each point the forecast of its own model.
'''
import itertools

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.distance.rmse import DistanceByRMSE
from spta.model.knn import (KNNModel, KNNParams, ModelRegionKNN, TrainerKNN, find_k_nearest_neighbors,
                            predict_future_values_with_knn)
from spta.model.mean import MeanOfPastParams, ModelRegionMeanOfPast, TrainerMeanOfPast
from spta.region import Point, Region
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of series, lengths, k and forecast histories against the definition'
LEVEL_NOTE = ('All series of length up to 6 (thorough 7; DTW in the quick tier: 5) over 3 values and 3 series of 48 to 75 values, all forecast lengths and k, DTW and RMSE; '
              'with equally near windows every choice of k nearest is accepted. Region histories: all pairs '
              '(thorough triples) of forecasts over all partitions of a 2x2 region in 2 clusters.')


def cases(tier):
    thorough = tier != 'quick'
    alpha = [0.0, 1.0, 3.5]
    for n in range(2, (7 if thorough else 6) + 1):
        for first in itertools.product(alpha, repeat=min(n, 3)):
            yield {'m': 'knn', 'n': n, 'first': list(first)}
    yield {'m': 'long'}
    for n in (48, 61, 75):
        yield {'m': 'longer', 'n': n}
    for first in range(4):
        yield {'m': 'near', 'first': first}
    for lab in lib.rgs(4, 2):
        for none in [(), (0,), (3,), (1, 2), (0, 1, 2, 3)]:
            yield {'m': 'hist', 'lab': list(lab), 'none': list(none), 'len': 3 if thorough else 2}
    for n in range(1, 7):
        yield {'m': 'mean', 'n': n}


def ref_dist(name, a, b):
    return lib.dtw(a, b) if name == 'dtw' else float(np.sqrt(np.mean((np.array(a) - np.array(b)) ** 2)))


def knn_options(series, k, f, name, tie=1e-9):
    '''All forecasts that are a mean of k nearest windows.'''
    win = [series[i:i + f] for i in range(len(series) - f + 1)]
    last, cand = win[-1], win[:-1]
    d = [ref_dist(name, last, w) for w in cand]
    kth = sorted(d)[k - 1]
    must = [i for i in range(len(d)) if d[i] < kth - tie]
    ties = [i for i in range(len(d)) if abs(d[i] - kth) <= tie]
    out = []
    for extra in itertools.combinations(ties, k - len(must)):
        out.append(np.mean([cand[i] for i in must + list(extra)], axis=0))
    return out


def check_knn(ctx, series, k, f, name, dist, tie=1e-9):
    arr = np.array(series, dtype=float)
    before = arr.copy()
    if len(series) - f < k:
        ctx.check(raises(lambda: predict_future_values_with_knn(arr, k, f, dist), ValueError),
                  'k={} windows requested of {} available: accepted'.format(k, max(0, len(series) - f)))
    else:
        got = predict_future_values_with_knn(arr, k, f, dist)
        ctx.check(got.shape == (f,) and any(same(got, o, rtol=min(tie, 1e-9), atol=0) for o in knn_options(series, k, f, name, tie)),
                  'k-NN ({}) of {} with k={}, {} values: {}'.format(name, series, k, f, got))
        ctx.outcome(tuple(np.round(got, 6)))
    ctx.check(ident(arr, before), 'the series was changed')
    ctx.step()


def run_knn(spec, ctx):
    n = spec['n']
    dists = {'dtw': DistanceByDTW(), 'rmse': DistanceByRMSE()}
    for rest in itertools.product([0.0, 1.0, 3.5], repeat=n - len(spec['first'])):
        s = list(spec['first']) + list(rest)
        for name, dist in dists.items():
            if n == 6 and name == 'dtw' and ctx.tier == 'quick':
                continue
            for f in range(1, n):
                for k in range(1, n - f + 2):
                    check_knn(ctx, s, k, f, name, dist)
        ctx.state(tuple(s))


def run_long(spec, ctx):
    '''Longer series without ties: exactly one correct forecast.'''
    dists = {'dtw': DistanceByDTW(), 'rmse': DistanceByRMSE()}
    for n in (10, 23, 40):
        s = [((i * 37 + 11) % 101) * 0.731 + 0.013 * i * i for i in range(n)]
        for f in (1, 2, 5, 8):
            for k in (1, 2, 3, 7):
                for name, dist in dists.items():
                    check_knn(ctx, s, k, f, name, dist)
        windows = [np.array(s[i:i + 4]) for i in range(n - 4)]
        last = np.array(s[-4:])
        for k in range(1, n - 4 + 1):
            got = find_k_nearest_neighbors(last, k, windows, dists['rmse'])
            d = [ref_dist('rmse', last, w) for w in windows]
            want = sorted(range(len(d)), key=lambda i: d[i])[:k]
            ctx.check(sorted(int(i) for i in got) == sorted(want), 'nearest windows with k={}'.format(k))
        ctx.check(raises(lambda: find_k_nearest_neighbors(last, 1, windows[:2] + [np.array(s[:3])],
                                                          dists['rmse']), ValueError),
                  'windows of other lengths accepted')
        ctx.state('long', n)


def run_longer(spec, ctx):
    '''Every forecast length up to more than half of a series of tens of values.'''
    n = spec['n']
    dists = {'dtw': DistanceByDTW(), 'rmse': DistanceByRMSE()}
    s = [((i * 37 + i * i * 5) % 101) * 0.731 + 0.013 * i for i in range(n)]
    for f in range(1, n):
        for k in {1, 2, 5, n - f, n - f + 1}:
            for name in dists if f % 8 == 1 and n < 50 else ['rmse']:
                check_knn(ctx, s, k, f, name, dists[name])
        ctx.state('longer', n, f)


def run_near(spec, ctx):
    '''Windows whose distances to the last one are nearly, but not exactly, equal.'''
    dists = {'dtw': DistanceByDTW(), 'rmse': DistanceByRMSE()}
    e = 2.0 ** -30
    alpha = [1.0, 1.0 + e, 3.0, 1.0 + 3 * e]
    for n in (3, 4, 5):
        for rest in itertools.product(alpha, repeat=n - 1):
            s = [alpha[spec['first']]] + list(rest)
            for name, dist in dists.items():
                for k in (1, 2):
                    check_knn(ctx, s, k, 1, name, dist, 1e-12)
                    if n > 3 and name == 'dtw':
                        check_knn(ctx, s, k, 2, name, dist, 1e-12)
            ctx.state('near', tuple(s))


def run_mean(spec, ctx):
    n = spec['n']
    for at in range(n):     # a missing value counts only when it is one of the past values
        a = lib.distinct3d(n, 1, 2)
        a[at, 0, 1] = lib.NAN
        for past in range(1, n + 2):
            mr = TrainerMeanOfPast(MeanOfPastParams(past), 1, 2).apply_to(SpatioTemporalRegion(a.copy()))
            got = mr.apply_to(SpatialRegion(np.zeros((1, 2))), 2)
            for p in lib.points(1, 2):
                want = a[max(0, n - past):, p[0], p[1]].mean()
                ctx.check(same(got.series_at(Point(*p)), np.repeat(want, 2)), 'mean forecast with a missing value')
            ctx.step()
    for past in range(1, n + 3):
        for f in (1, 2, 5):
            a = lib.distinct3d(n, 2, 2)
            mr = TrainerMeanOfPast(MeanOfPastParams(past), 2, 2).apply_to(SpatioTemporalRegion(a))
            got = mr.apply_to(SpatialRegion(np.zeros((2, 2))), f)
            for p in lib.points(2, 2):
                want = a[max(0, n - past):, p[0], p[1]].mean()
                ctx.check(same(got.series_at(Point(*p)), np.repeat(want, f)), 'mean forecast at {}'.format(p))
            ctx.step()
            ctx.state('mean', n, past, f)


def run_hist(spec, ctx):
    lab, none = spec['lab'], spec['none']
    part = fx.partition(lab, 2, 2)
    pts = lib.points(2, 2)
    a = lib.distinct3d(8, 2, 2)
    b = lib.distinct3d(8, 2, 2, 'neg')
    dist = DistanceByDTW()
    params = KNNParams(2, dist)
    kn = np.empty((2, 2), dtype=object)
    me = np.empty((2, 2), dtype=object)
    for i, p in enumerate(pts):
        if i not in none:
            kn[p] = KNNModel(params, a[:, p[0], p[1]].copy())
            me[p] = float(b[-3:, p[0], p[1]].mean())

    def want(kind, f, p):
        if pts.index(p) in none:
            return [np.full(f, lib.NAN)]
        if kind == 'knn':
            return knn_options(list(a[:, p[0], p[1]]), 2, f, 'dtw')
        return [np.repeat(b[-3:, p[0], p[1]].mean(), f)]

    ops = [(kind, f, dom) for kind in ('knn', 'mean') for f in (1, 3) for dom in ('zero', 'c0', 'c1', 'spt')]
    for hist in itertools.product(ops, repeat=spec['len']):
        if spec['len'] == 3 and hist[0][0] != hist[1][0]:
            continue
        regions = {'knn': ModelRegionKNN(kn), 'mean': ModelRegionMeanOfPast(me)}
        results = []
        for (kind, f, dom) in hist:
            members = pts
            if dom == 'zero':
                domain = SpatialRegion(np.zeros((2, 2)))
            elif dom == 'spt':
                domain = SpatioTemporalRegion(b.copy())
            else:
                domain = part.create_spatial_cluster(SpatialRegion(np.zeros((2, 2))), int(dom[1]))
                members = fx.member_points(lab, 2, 2, int(dom[1]))
            results.append((kind, f, members, regions[kind].apply_to(domain, f)))
            ctx.step()
        for (kind, f, members, got) in results:
            ctx.check(got.shape == (f, 2, 2), '{}: shape'.format(hist))
            ctx.check(fx.pts(p for p, _ in got) == members, '{}: points of the forecast'.format(hist))
            for p in members:
                ctx.check(any(same(got.series_at(Point(*p)), w) for w in want(kind, f, p)),
                          '{}: forecast of {} at {}'.format(hist, kind, p))
        ctx.state(tuple(lab), tuple(none), hist)
    # models of a sub-rectangle
    for kind, cls, arr in (('knn', ModelRegionKNN, kn), ('mean', ModelRegionMeanOfPast, me)):
        for (x1, x2, y1, y2) in lib.rects(2, 2):
            sub = cls(arr).instance(cls(arr).region_subset(Region(x1, x2, y1, y2)).as_numpy)
            ctx.check(type(sub) is cls, 'models of a sub-rectangle')
            got = sub.apply_to(SpatialRegion(np.zeros((x2 - x1, y2 - y1))), 2)
            for p in lib.points(x2 - x1, y2 - y1):
                ctx.check(any(same(got.series_at(Point(*p)), w) for w in want(kind, 2, (p[0] + x1, p[1] + y1))),
                          'forecast of a sub-rectangle at {}'.format(p))
            ctx.step()


def run(spec, ctx):
    {'knn': run_knn, 'long': run_long, 'longer': run_longer, 'near': run_near, 'mean': run_mean, 'hist': run_hist}[spec['m']](spec, ctx)
