'''
C23 forecast errors. All pairs of short forecast/observation series over a small alphabet against the
definitions of MASE, sMAPE and MSE; then every history of analyses (training on plain, scaled and
clustered regions, forecasts with each error type, errors with one model, with all models, complete
analyses) on one analysis object: each error is the metric of the forecast of the model on the unscaled
series of the point, and each overall error is the root mean square over the points of the region.
'''
import itertools

import numpy as np

from spta.model.base import ModelRegion
from spta.model.error import (ErrorAnalysis, ErrorRegion, MeasureForecastingError,
                              OverallErrorForEachForecast, error_functions, get_error_func,
                              get_overall_error_func)
from spta.model.forecast import ForecastAnalysis
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.train import ModelTrainer
from spta.region import Point
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of series and of analysis histories against the metric definitions'
LEVEL_NOTE = ('Series of up to 3 values over 3 values each (zero denominators excluded), and some of up to 61 values; histories of 3 (thorough 4) '
              'operations over 6 regions of 2x2 / 1x3 points (plain, scaled, clusters of plain and scaled).')

TYPES = ['MASE', 'sMAPE', 'MSE']


def metric(kind, f, o, tr):
    f, o, tr = [float(v) for v in f], [float(v) for v in o], [float(v) for v in tr]
    n = len(f)
    if kind == 'MSE':       # missing values do not count
        sq = [(a - b) ** 2 for a, b in zip(f, o) if a == a and b == b]
        return sum(sq) / len(sq) if sq else lib.NAN
    if kind == 'sMAPE':
        return sum(200 * abs(a - b) / (a + b) for a, b in zip(f, o)) / n
    scale = sum(abs(tr[i] - tr[i - 1]) for i in range(1, len(tr))) / (len(tr) - 1)
    return sum(abs(a - b) / scale for a, b in zip(f, o)) / n


def rms(values):
    values = [v for v in values if v == v]      # points without forecast do not count
    return (sum(v * v for v in values) / len(values)) ** 0.5 if values else lib.NAN


def cases(tier):
    thorough = tier != 'quick'
    for n in (1, 2, 3):
        for f in itertools.product([0.5, 1.0, 4.25], repeat=n):
            yield {'m': 'metric', 'f': list(f)}
    for n in (1, 4, 8, 20, 61):
        yield {'m': 'long', 'n': n}
    yield {'m': 'special'}
    for x, y in [(1, 1), (2, 2), (2, 3)]:
        yield {'m': 'overall', 'x': x, 'y': y}
    for first in range(len(OPS)):
        for second in range(len(OPS)):
            yield {'m': 'hist', 'h': [first, second], 'len': 4 if thorough else 3}
    for name in REGIONS:
        for t in TYPES:
            yield {'m': 'analysis', 'region': name, 'type': t}
    yield {'m': 'names'}


# ---- regions: name -> (kind, labels or None, cluster)
REGIONS = ['plain', 'other', 'scaled', 'c0', 'c1', 'scaled_c1', 'c_scaled0']
LAB = [0, 1, 1, 0]


def build(name):
    '''(region, unscaled array, members, visible array)'''
    a = lib.distinct3d(7, 2, 2) + 3
    if name == 'other':
        a = lib.distinct3d(9, 2, 2)[::-1].copy() + 11
    base = SpatioTemporalRegion(a.copy())
    part = fx.partition(LAB, 2, 2)
    pts = lib.points(2, 2)
    if name in ('plain', 'other'):
        return base, a, pts, a
    sc = fx.scale(base)
    vis = sc.as_numpy.copy()
    if name == 'scaled':
        return sc, a, pts, vis
    c = int(name[-1])
    mem = fx.member_points(LAB, 2, 2, c)
    if name.startswith('c_scaled') or name.startswith('scaled_c'):
        return part.create_spt_cluster(sc, c), a, mem, vis
    return part.create_spt_cluster(base, c), a, mem, a


class LinearRegion(ModelRegion):
    def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
        return model_at_point[0] + model_at_point[1] * np.arange(1, forecast_len + 1)

    def instance(self, model_numpy_array):
        return LinearRegion(model_numpy_array)


class LinearTrainer(ModelTrainer):
    '''Forecasts start at the last value and keep the mean increment.'''

    def training_function(self, model_params, training_series):
        return (float(training_series[-1]), model_params * float(np.mean(np.diff(training_series))))

    def create_model_region(self, numpy_model_array):
        return LinearRegion(numpy_model_array)


def forecast(series, flen):
    return float(series[-1]) + 0.5 * float(np.mean(np.diff(series))) * np.arange(1, flen + 1)


class Expect:
    '''What an analysis of the named region with the given test length must report.'''

    def __init__(self, name, flen):
        _, a, self.mem, vis = build(name)
        self.scaled = 'scaled' in name
        self.flen = flen
        self.train = {p: a[:-flen, p[0], p[1]] for p in self.mem}
        self.obs = {p: a[-flen:, p[0], p[1]] for p in self.mem}
        # forecasts in the visible (possibly scaled) values
        self.fc = {p: forecast(vis[:-flen, p[0], p[1]], flen) for p in self.mem}
        self.lo = {p: a[:, p[0], p[1]].min() for p in self.mem}
        self.hi = {p: a[:, p[0], p[1]].max() for p in self.mem}

    def real(self, f, p):
        return f * (self.hi[p] - self.lo[p]) + self.lo[p] if self.scaled else f

    def each(self, t):
        return {p: metric(t, self.real(self.fc[p], p), self.obs[p], self.train[p]) for p in self.mem}

    def single(self, t, q):
        return {p: metric(t, self.real(self.fc[q], p), self.obs[p], self.train[p]) for p in self.mem}

    def all(self, t):
        return {q: rms(list(self.single(t, q).values())) for q in self.mem}


OPS = [('train', 'plain', 2), ('train', 'other', 2), ('train', 'plain', 3), ('train', 'scaled', 2),
       ('train', 'scaled_c1', 2), ('train', 'c0', 2),
       ('each', 'MASE'), ('each', 'MSE'), ('single', 'sMAPE', 0), ('single', 'MASE', -1), ('all', 'MSE'), ('all', 'MASE'), ('full', 'c1', 'sMAPE')]


def check_region(ctx, got, want, what):
    ctx.check(fx.pts(p for p, _ in got) == sorted(want), what + ': points of the error region')
    for p, v in want.items():
        ctx.check(same(got.value_at(Point(*p)), v, rtol=1e-7), '{}: error at {} is {} expected {}'.format(
            what, p, got.value_at(Point(*p)), v))
    if isinstance(got, ErrorRegion):
        ctx.check(same(got.overall_error, rms(list(want.values())), rtol=1e-7), what + ': overall error')


def do_full(ctx, fa, name, t, flen, what):
    reg, a, mem, vis = build(name)
    reg.centroid = Point(*mem[-1])
    e = Expect(name, flen)
    errors, t1, t2 = fa.analyze_errors(reg, t, flen)
    each, al = e.each(t), e.all(t)
    best = min(each.values())
    ctx.check(same(errors.each, rms(list(each.values())), rtol=1e-7), what + ': error of all the models')
    ctx.check(same(errors.minimum, min(al.values()), rtol=1e-7), what + ': minimum error')
    ctx.check(same(errors.maximum, max(al.values()), rtol=1e-7), what + ': maximum error')
    ctx.check(any(same(errors.min_local, al[p], rtol=1e-7) for p in mem if each[p] <= best + 1e-9),
              what + ': error of the model with the minimum local error')
    ctx.check(same(errors.centroid, al[mem[-1]], rtol=1e-7), what + ': error with the model of the centroid')


def run_hist(spec, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=spec['len'] - len(spec['h'])):
        hist = [OPS[i] for i in spec['h'] + list(rest)]
        fa = ForecastAnalysis(LinearTrainer(model_params_and_shape=(0.5, 2, 2)))
        e = None
        for step, op in enumerate(hist):
            what = '{} step {}'.format(hist, step)
            if op[0] == 'train':
                reg = build(op[1])[0]
                fa.train_models(reg, op[2])
                e = Expect(op[1], op[2])
            elif op[0] == 'full':
                do_full(ctx, fa, op[1], op[2], 2, what)
                e = Expect(op[1], 2)
            elif e is None:
                ctx.check(raises(lambda: fa.forecast_at_each_point(2, 'MASE')), what + ': not trained')
                continue
            elif op[0] == 'each':
                fr, er, _ = fa.forecast_at_each_point(e.flen, op[1])
                check_region(ctx, er, e.each(op[1]), what)
                for p in e.mem:
                    ctx.check(same(fr.series_at(Point(*p)), e.fc[p]), what + ': forecast at {}'.format(p))
            elif op[0] == 'single':
                q = e.mem[op[2]]
                er = fa.forecast_whole_region_with_single_model(Point(*q), e.flen, op[1])
                check_region(ctx, er, e.single(op[1], q), what)
            elif op[0] == 'all':
                check_region(ctx, fa.forecast_whole_region_with_all_models(e.flen, op[1]), e.all(op[1]), what)
            if e is not None:
                ctx.check(raises(lambda: fa.forecast_at_each_point(e.flen + 1, 'MSE')),
                          what + ': another forecast length accepted')
            ctx.step()
            ctx.state(tuple(map(str, hist[:step + 1])))


def run_metric(spec, ctx):
    f = np.array(spec['f'])
    alpha = [0.0, 1.5, 3.0]
    for o in itertools.product(alpha, repeat=len(f)):
        obs = np.array(o)
        for tr in itertools.product([0.0, 1.0, 5.0], repeat=3):
            flat = len(set(tr)) == 1
            train = np.array(tr)
            before = [f.copy(), obs.copy(), train.copy()]
            for t in TYPES:
                if t == 'MASE' and flat:
                    continue
                got = get_error_func(t)(f, obs, train)
                ctx.check(same(got, metric(t, f, o, tr)), '{}({}, {}, {}) = {}'.format(t, f, o, tr, got))
                ctx.step()
            ctx.check(ident(before[0], f) and ident(before[1], obs) and ident(before[2], train),
                      'the series were changed')
        ctx.state(tuple(f), o)


def run_long(spec, ctx):
    '''Longer series, of large values with small differences, and negative ones.'''
    n = spec['n']
    for low, scale in ((300.0, 0.01), (1.0, 1.0), (0.001, 0.0004), (-7.0, 2.0)):
        for salt in range(6):
            f, obs, train = [np.array([low + scale * ((i * i + salt * i * a + salt) % b) for i in range(length)])
                             for a, b, length in ((3, 7, n), (5, 11, n), (2, 13, 3 * n + 5))]
            for t in TYPES:
                if low < 0 and t == 'sMAPE':
                    continue
                got = get_error_func(t)(f, obs, train)
                ctx.check(same(got, metric(t, f, obs, train)), '{} of {} values of {}: {}'.format(t, n, low, got))
                ctx.step()
            ctx.state('long', n, low, salt)


def run_special(ctx):
    '''Missing values, very small and mixed sign values, large values.'''
    nan = lib.NAN
    for alpha in ([1.0, nan, 2.5], [1e-4, 3e-4, 2e-4], [2.0 ** -30, 1.0, 3.0], [-3.0, 1.0, 4.5], [1e8, 1e8 + 1, 3e-9]):
        for n in (1, 2):
            for f in itertools.product(alpha, repeat=n):
                for o in itertools.product(alpha, repeat=n):
                    if any(a + b == 0 for a, b in zip(f, o)):
                        continue
                    for tr in itertools.product(alpha, repeat=3):
                        if len(set(tr)) == 1 and tr[0] == tr[0]:
                            continue
                        for t in TYPES:
                            got = get_error_func(t)(np.array(f), np.array(o), np.array(tr))
                            ctx.check(same(got, metric(t, f, o, tr), atol=1e-30), '{}({}, {}, {}) = {}'.format(t, f, o, tr, got))
                            ctx.step()
            ctx.state('special', str(alpha), n)


def run_overall(spec, ctx):
    '''Repeated forecasts and overall errors, with missing forecasts, any partition in two clusters.'''
    x, y = spec['x'], spec['y']
    n, pts = x * y, lib.points(spec['x'], spec['y'])
    train, obs = lib.distinct3d(5, x, y) + 2, lib.distinct3d(3, x, y)[::-1].copy() + 1
    fc = lib.distinct3d(3, x, y, 'int').astype(float) % 11 + 1
    for lab in ([None] + list(lib.rgs(n, 2) if n > 1 else [])):
        for c in ([None] if lab is None else [0, 1]):
            mem = pts if lab is None else fx.member_points(lab, x, y, c)

            def wrap(a):
                r = SpatioTemporalRegion(a.copy())
                return r if lab is None else fx.partition(lab, x, y).create_spt_cluster(r, c)
            for gone, exact in (([], []), ([mem[0]], []), (mem, []), ([], [mem[-1]]), ([], mem), ([mem[0]], [mem[-1]])):
                f = fc.copy()
                for p in exact:     # the forecast is the observation: the error is zero, and it counts
                    f[:, p[0], p[1]] = obs[:, p[0], p[1]]
                for p in gone:
                    f[:, p[0], p[1]] = np.nan
                for t in TYPES:
                    what = '{} labels {} cluster {} without {} exact at {}'.format(t, lab, c, gone, exact)
                    ea = ErrorAnalysis(wrap(obs), wrap(train))
                    if t != 'MASE':
                        without_training(ctx, wrap, f, obs, t, mem, what)

                    def err(q, p):
                        return metric(t, f[:, q[0], q[1]], obs[:, p[0], p[1]], train[:, p[0], p[1]])
                    er = ea.with_forecast_region(wrap(f), t)
                    for p in mem:
                        ctx.check(same(er.value_at(Point(*p)), err(p, p)), what + ': error')
                    ctx.check(same(er.overall_error, rms([err(p, p) for p in mem])), what + ': overall')
                    ov = ea.overall_with_each_forecast(wrap(f), t)
                    ctx.check(fx.pts(p for p, _ in ov) == mem, what + ': points')
                    for q in mem:
                        want = lib.NAN if q in gone else rms([err(q, p) for p in mem])
                        ctx.check(same(ov.value_at(Point(*q)), want), what + ': overall with the model of {}'.format(q))
                        if q not in gone:
                            one = ea.with_repeated_forecast(f[:, q[0], q[1]], t)
                            for p in mem:
                                ctx.check(same(one.value_at(Point(*p)), err(q, p)), what + ': repeated forecast')
                    ctx.step()
            ctx.state(x, y, lab, c)


def without_training(ctx, wrap, f, obs, t, mem, what):
    '''The training region may be omitted when the error does not use it.'''
    what += ', no training region'
    er = ErrorAnalysis(wrap(obs)).with_forecast_region(wrap(f), t)
    for p in mem:
        ctx.check(same(er.value_at(Point(*p)), metric(t, f[:, p[0], p[1]], obs[:, p[0], p[1]], [])), what)
    if np.isnan(f).any():
        return
    # scaled observation and forecast: the error is the one of the unscaled series
    so = fx.scale(wrap(obs))
    sf = so.new_spatio_temporal_region(np.linspace(0.25, 0.75, f.size).reshape(f.shape))
    real = sf.descale().as_numpy
    er = ErrorAnalysis(so).with_forecast_region(sf, t)
    for p in mem:
        want = metric(t, real[:, p[0], p[1]], obs[:, p[0], p[1]], [])
        ctx.check(same(er.value_at(Point(*p)), want, rtol=1e-7), what + ', scaled')


def run(spec, ctx):
    m = spec['m']
    if m == 'hist':
        run_hist(spec, ctx)
    elif m == 'metric':
        run_metric(spec, ctx)
    elif m == 'overall':
        run_overall(spec, ctx)
    elif m == 'long':
        run_long(spec, ctx)
    elif m == 'special':
        run_special(ctx)
    elif m == 'analysis':
        for flen in (1, 2, 3):
            fa = ForecastAnalysis(LinearTrainer(model_params_and_shape=(0.5, 2, 2)))
            do_full(ctx, fa, spec['region'], spec['type'], flen, str(spec))
            # the errors do not depend on the centroid; without it, its error is not available
            reg = build(spec['region'])[0]
            errors, _, _ = ForecastAnalysis(LinearTrainer(model_params_and_shape=(0.5, 2, 2))).analyze_errors(
                reg, spec['type'], flen)
            e = Expect(spec['region'], flen)
            ctx.check(np.isnan(errors.centroid), '{}: error of a centroid that is not known'.format(spec))
            ctx.check(same(errors.minimum, min(e.all(spec['type']).values()), rtol=1e-7), 'minimum without centroid')
            ctx.step(2)
            ctx.state('analysis', spec['region'], spec['type'], flen)
    elif m == 'names':
        ctx.check(set(TYPES) <= set(error_functions()), 'error types')
        for name in ('mase', '', 'RMSE?'):
            ctx.check(raises(lambda: get_error_func(name), ValueError), 'unknown error type accepted')
            ctx.check(raises(lambda: get_overall_error_func(name), ValueError), 'unknown error type accepted')
        ctx.step()
