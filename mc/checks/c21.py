'''
C21 training confinement. Every history of trainings (whole region, other region, scaled region, each
cluster, sub-rectangle, training only at representatives, models already given, refitting) with one
trainer object, on regions where the training of some points fails: the model of each point is the
one trained with the parameters and the series of that point, points that are not trained get none, and
the failures are counted. The trainer uses a recording stub model and the real mean / k-NN models.
'''
import itertools

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.model.base import ModelRegion
from spta.model.knn import KNNParams, TrainerKNN
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.train import ModelTrainer, NoTrainer, SplitTrainingAndTestLast, TrainAtRepresentatives
from spta.region import Point
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of training histories vs per-point training of the series of each point'
LEVEL_NOTE = ('Regions up to 2x3 (thorough 3x3), all partitions into 2 (thorough: up to 3) clusters, all sets of '
              'representatives and failing points, all histories of 2 (thorough 3) trainings with the same '
              'trainer; splits of every length.')

OPS = ['A', 'B', 'scaled', 'cluster0', 'cluster1', 'reps', 'repscluster', 'given']


class Model:
    def __init__(self, params, series):
        self.params, self.series = params, np.array(series)


class StubRegion(ModelRegion):
    def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
        return model_at_point.series.sum() + np.arange(forecast_len) * model_at_point.params

    def instance(self, model_numpy_array):
        return StubRegion(model_numpy_array)


class StubTrainer(ModelTrainer):
    '''The training of series whose last value is negative fails.'''

    def training_function(self, model_params, training_series):
        if training_series is None or training_series[-1] < 0:
            return None
        return Model(model_params, training_series)

    def create_model_region(self, numpy_model_array):
        return StubRegion(numpy_model_array)


def cases(tier):
    thorough = tier != 'quick'
    shapes = [(1, 1), (1, 3), (2, 2), (2, 3)] + ([(3, 2), (3, 3)] if thorough else [])
    for (x, y) in shapes:
        n = x * y
        labs = list(lib.rgs(n, 2)) if n > 1 else [(0,)]
        if thorough and 2 < n <= 6:
            labs += list(lib.rgs(n, 3))
        for i, lab in enumerate(labs):
            for fail in ([(), tuple(range(0, n, 2)), tuple(range(n))] if n > 4 else
                         [f for r in range(n + 1) for f in itertools.combinations(range(n), r)]):
                yield {'m': 'hist', 'x': x, 'y': y, 'lab': list(lab), 'fail': list(fail),
                       'byregion': bool((i + len(fail)) % 2), 'len': 3 if thorough and n <= 4 else 2}
    for (x, y) in shapes:
        yield {'m': 'reps', 'x': x, 'y': y}
        yield {'m': 'real', 'x': x, 'y': y}
    for length in range(2, 7 if not thorough else 10):
        for test_len in range(1, length):
            yield {'m': 'split', 'len': length, 'test': test_len}
    yield {'m': 'args'}


def data(x, y, fail, shift):
    a = lib.distinct3d(3, x, y) + shift
    for i in fail:
        a[-1, i // y, i % y] = -1.0 - i
    return a


def check_models(ctx, mr, a, params, trained, members, what):
    '''trained: points whose training was requested; members: points in the domain.'''
    x, y = a.shape[1:]
    ctx.check((mr.x_len, mr.y_len) == (x, y), what + ': shape')
    for p in lib.points(x, y):
        m = mr.value_at(Point(*p))
        s = a[:, p[0], p[1]]
        if p in trained and s[-1] >= 0:
            ctx.check(isinstance(m, Model) and same(m.series, s) and m.params == params[p],
                      '{}: model at {} is not the one of that point'.format(what, p))
        elif p in members:
            ctx.check(m is None, '{}: there is a model at {}'.format(what, p))
        else:
            ctx.check(not isinstance(m, Model), '{}: trained outside of the cluster at {}'.format(what, p))


def check_forecasts(ctx, mr, a, params, trained, members, domain, what):
    x, y = a.shape[1:]
    for flen in (1, 3):
        f = mr.apply_to(domain, flen)
        ctx.check(f.shape == (flen, x, y), what + ': forecast shape')
        for p in members:
            s = a[:, p[0], p[1]]
            want = s.sum() + np.arange(flen) * params[p] if p in trained and s[-1] >= 0 else \
                np.full(flen, lib.NAN)
            ctx.check(same(f.series_at(Point(*p)), want), '{}: forecast at {}'.format(what, p))
        ctx.step()


def run_hist(spec, ctx):
    x, y, lab = spec['x'], spec['y'], spec['lab']
    n = x * y
    pts = lib.points(x, y)
    k = max(lab) + 1
    part = fx.partition(lab, x, y)
    A, B = data(x, y, spec['fail'], 20), data(x, y, [i for i in range(n) if i not in spec['fail']], 70)
    params = {p: (i * 7 + 2 if spec['byregion'] else 4) for i, p in enumerate(pts)}
    reps = [pts[i] for i in range(n) if i % 2 == 0]

    def trainer():
        if spec['byregion']:
            arr = np.empty((x, y), dtype=object)
            for p in pts:
                arr[p] = params[p]
            return StubTrainer(model_params_region=SpatialRegion(arr))
        return StubTrainer(model_params_and_shape=(4, x, y))

    ops = [o for o in OPS if o != 'cluster1' or k > 1]
    for hist in itertools.product(ops, repeat=spec['len']):
        tr = trainer()
        at_reps = TrainAtRepresentatives(tr, [Point(*p) for p in reps])
        made = []
        for step, op in enumerate(hist):
            what = '{} step {}'.format(hist, step)
            arr, members, trained, use = A, pts, pts, tr
            dom = SpatioTemporalRegion(A.copy())
            if op == 'B':
                arr, dom = B, SpatioTemporalRegion(B.copy())
            elif op == 'scaled':
                dom = fx.scale(dom)
                arr = dom.as_numpy.copy()
            elif op.startswith('cluster'):
                c = int(op[-1])
                dom = part.create_spt_cluster(dom, c)
                members = trained = fx.member_points(lab, x, y, c)
            elif op == 'reps':
                trained, use = reps, at_reps
            elif op == 'repscluster':
                dom = part.create_spt_cluster(dom, 0)
                members = fx.member_points(lab, x, y, 0)
                trained, use = [p for p in reps if p in members], at_reps
            elif op == 'given':
                given = StubTrainer(model_params_and_shape=(4, x, y)).apply_to(dom)
                no = NoTrainer(given)
                ctx.check(no.apply_to(SpatioTemporalRegion(B)) is given and no.missing_count == 0,
                          what + ': given models not returned')
                ctx.step()
                continue
            before = dom.as_numpy.copy()
            mr = use.apply_to(dom)
            ctx.check(ident(before, dom.as_numpy), what + ': training changed the data')
            check_models(ctx, mr, arr, params, trained, members, what)
            missing = sum(1 for p in members if p not in trained or arr[-1, p[0], p[1]] < 0)
            ctx.check(use.missing_count == missing, '{}: {} missing models reported, {} expected'.format(
                what, use.missing_count, missing))
            made.append((mr, arr, trained, members))
            ctx.step()
            ctx.state(x, y, tuple(lab), tuple(spec['fail']), hist[:step + 1])
            refit = use.create_refitter(mr)
            ctx.check(refit is not None and hasattr(refit, 'apply_to'), what + ': no refitter')
        # models made earlier are not affected by later trainings
        for (mr, arr, trained, members) in made:
            check_models(ctx, mr, arr, params, trained, members, '{} afterwards'.format(hist))
        if made:
            mr, arr, trained, members = made[-1]
            dom = SpatioTemporalRegion(arr).empty_region_2d()
            if len(members) < n:
                c = [c for c in range(k) if fx.member_points(lab, x, y, c) == members][0]
                dom = part.create_spatial_cluster(dom, c)
            check_forecasts(ctx, mr, arr, params, trained, members, dom, str(hist))


def run_reps(spec, ctx):
    x, y = spec['x'], spec['y']
    pts = lib.points(x, y)
    a = data(x, y, [1] if x * y > 1 else [], 20)
    params = {p: 4 for p in pts}
    for r in range(len(pts) + 1):
        if r > 4 and len(pts) > 6:
            break
        for reps in itertools.combinations(pts, r):
            tr = StubTrainer(model_params_and_shape=(4, x, y))
            deco = TrainAtRepresentatives(tr, [Point(*p) for p in reps])
            mr = deco.apply_to(SpatioTemporalRegion(a.copy()))
            check_models(ctx, mr, a, params, list(reps), pts, 'representatives {}'.format(reps))
            missing = sum(1 for p in pts if p not in reps or a[-1, p[0], p[1]] < 0)
            ctx.check(deco.missing_count == missing, 'missing count with representatives')
            ctx.step()
            ctx.state('reps', x, y, reps)


def run_real(spec, ctx):
    x, y = spec['x'], spec['y']
    pts = lib.points(x, y)
    a = lib.distinct3d(6, x, y)
    dist = DistanceByDTW()
    for past in (1, 2, 5, 6, 9):
        mr = TrainerMeanOfPast(MeanOfPastParams(past), x, y).apply_to(SpatioTemporalRegion(a))
        for p in pts:
            ctx.check(same(mr.value_at(Point(*p)), a[max(0, 6 - past):, p[0], p[1]].mean()),
                      'mean of the last {} values at {}'.format(past, p))
        ctx.step()
    params = KNNParams(2, dist)
    mr = TrainerKNN(params, x, y).apply_to(SpatioTemporalRegion(a))
    for p in pts:
        m = mr.value_at(Point(*p))
        ctx.check(same(m.training_series, a[:, p[0], p[1]]) and m.model_params == params,
                  'k-NN model at {}'.format(p))
    ctx.state('real', x, y)


def run_split(spec, ctx):
    n, t = spec['len'], spec['test']
    for (x, y) in ((1, 1), (2, 3)):
        a = lib.distinct3d(n, x, y)
        lab = [i % 2 for i in range(x * y)]
        part = fx.partition(lab, x, y)
        scaled = fx.scale(SpatioTemporalRegion(a))
        doms = [(SpatioTemporalRegion(a), a, lib.points(x, y)), (scaled, scaled.as_numpy, lib.points(x, y))]
        for c in range(max(lab) + 1):
            doms.append((part.create_spt_cluster(SpatioTemporalRegion(a), c), a, fx.member_points(lab, x, y, c)))
            doms.append((part.create_spt_cluster(scaled, c), scaled.as_numpy, fx.member_points(lab, x, y, c)))
        for (dom, arr, members) in doms:
            sp = SplitTrainingAndTestLast(t)
            for again in range(2):
                tr, te = sp.split(dom)
                ctx.check(tr.series_len == n - t and te.series_len == t, 'lengths of the split')
                ctx.check(fx.pts(p for p, _ in tr) == members and fx.pts(p for p, _ in te) == members,
                          'points of the split')
                for p in members:
                    ctx.check(same(tr.series_at(Point(*p)), arr[:n - t, p[0], p[1]]) and
                              same(te.series_at(Point(*p)), arr[n - t:, p[0], p[1]]), 'split at {}'.format(p))
                ctx.check(tr.has_scaling() == te.has_scaling() == dom.has_scaling(), 'scaling of the split')
                ctx.step()
            ctx.state('split', n, t, x, y, len(members))


def run(spec, ctx):
    if spec['m'] == 'args':
        ctx.check(raises(lambda: StubTrainer(), ValueError), 'trainer without parameters accepted')
        ctx.check(raises(lambda: StubTrainer((1, 2, 2), SpatialRegion(np.zeros((2, 2)))), ValueError),
                  'trainer with two sources of parameters accepted')
        ctx.check(raises(lambda: StubTrainer((1, 2, 3)).apply_to(
            SpatioTemporalRegion(np.zeros((4, 2, 2))))), 'trainer of other shape accepted')
        ctx.step()
        return
    {'hist': run_hist, 'reps': run_reps, 'real': run_real, 'split': run_split}[spec['m']](spec, ctx)
