'''
C36 ARIMA training. Every history of trainings and refittings (given order, order found by the automatic search) on
regions and clusters where the fitting of a set of points fails: the model of each point is the one fitted directly
to the series of that point with that order, refitting keeps the order of each point and uses only the new series,
points without a model stay without, and the numbers of missing models, the orders and the AIC reported are those of
the models. Suites of orders are the full product of their values.
'''
import contextlib
import itertools
import warnings

import numpy as np
from pmdarima.arima import auto_arima
from statsmodels.tsa.arima.model import ARIMA

from spta.arima import ArimaPDQ, ArimaSuiteParams, AutoArimaParams
from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima, TrainerRefitArima
from spta.region import Point
from spta.region.temporal import SpatioTemporalRegion

from mc import fakearima, fx, lib
from mc.core import ident, same

TECHNIQUE = 'exhaustive enumeration of training histories with injected fitting failures vs direct fits'
LEVEL_NOTE = ('Regions up to 2x2 (thorough 2x3), series of 14 samples; 7 orders; 3 automatic searches; all sets of failing '
              'points x 2 errors; all partitions into 2 clusters; histories of training and 2 refittings on 3 data sets; with stand-in models: 5 '
              'magnitudes, orders up to 127, series of up to 400.')
CASE_TIMEOUT = 600

ORDERS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (2, 0, 0), (1, 0, 1)]
AUTO = [AutoArimaParams(1, 1, 2, 2, None, True), AutoArimaParams(0, 0, 1, 1, 1, True), AutoArimaParams(0, 0, 1, 0, 0, False)]
ERRORS = {'value': ValueError, 'linalg': np.linalg.LinAlgError}


def cases(tier):
    thorough = tier != 'quick'
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3)] if thorough else [])
    for x, y in shapes:
        n = x * y
        fails = [f for r in range(n + 1) for f in itertools.combinations(range(n), r)]
        for o in range(len(ORDERS)):
            for fail in fails:
                if n > 4 and len(fail) not in (0, 1, n):
                    continue
                yield {'m': 'pdq', 'x': x, 'y': y, 'o': o, 'fail': fail, 'err': sorted(ERRORS)[(o + len(fail)) % 2]}
        for a in range(len(AUTO)):
            for fail in fails:
                if n > 4 and len(fail) > 1:
                    continue
                yield {'m': 'auto', 'x': x, 'y': y, 'a': a, 'fail': fail, 'err': sorted(ERRORS)[(a + len(fail)) % 2]}
        for lab in (lib.surjections(n, 2) if n > 1 else []):
            for fail in ((), (0,), (n - 1,)):
                yield {'m': 'cluster', 'x': x, 'y': y, 'lab': lab, 'fail': fail}
    for kind, scale in itertools.product(('pdq', 'auto'), range(len(SCALES))):
        yield {'m': 'standin', 'kind': kind, 'scale': scale}
    for x, y in [(1, 3), (2, 2)] + ([(2, 3)] if thorough else []):
        for first in range(len(AICS)):
            yield {'m': 'aic', 'x': x, 'y': y, 'first': first}
    for x, y in [(1, 2), (1, 3), (3, 1)] + ([(2, 2)] if thorough else []):
        for kind in ('pdq', 'auto'):
            for error in sorted(ERRORS):
                yield {'m': 'stages', 'x': x, 'y': y, 'kind': kind, 'err': error}
    yield {'m': 'none'}
    yield {'m': 'suite'}


def data(x, y, which, fail=()):
    '''The fitting of the series that start with 777 is made to fail.'''
    t = np.arange(14)[:, None, None]
    i = np.arange(x * y).reshape(x, y)
    a = ((t * t * (i + 2 + which) + 3 * t * i) % 11) * 0.5 + i + (1 + which) * 0.25 * t * (i % 2) + 3
    if which == 1:
        a = a[2:] * 1.5
    if which == 2:
        a = np.concatenate([a, a[::-1] + 1])
    for j in fail:
        a[0, j // y, j % y] = 777
    return a


@contextlib.contextmanager
def failing(error):
    real = ARIMA.fit

    def fit(self, *args, **kwargs):
        if np.asarray(self.endog).ravel()[0] == 777:
            raise error('injected')
        return real(self, *args, **kwargs)

    ARIMA.fit = fit
    try:
        yield
    finally:
        ARIMA.fit = real


_fits = {}


def fit(series, order):
    key = (tuple(series), order)
    if key not in _fits:
        _fits[key] = ARIMA(np.array(series), order=order, seasonal_order=(0, 0, 0, 0)).fit()
    return _fits[key]


_orders = {}


def auto_order(series, p):
    key = (tuple(series), p)
    if key not in _orders:
        _orders[key] = tuple(int(v) for v in auto_arima(
            np.array(series), start_p=p.start_p, start_q=p.start_q, max_p=p.max_p, max_q=p.max_q, d=p.d,
            stepwise=p.stepwise, seasonal=False, suppress_warnings=True).order)
    return _orders[key]


def check_region(ctx, mr, a, orders, members, what, pdq=False):
    '''orders: order of each point with a model.'''
    x, y = a.shape[1:]
    ctx.check((mr.x_len, mr.y_len) == (x, y), what + ': shape')
    for p in lib.points(x, y):
        if p not in members:
            continue
        m = mr.value_at(Point(*p))
        got_aic = mr.aic_region.value_at(Point(*p))
        if p not in orders:
            ctx.check(m is None, '{}: there is a model at {}'.format(what, p))
            ctx.check(got_aic != got_aic, '{}: AIC at {} without a model'.format(what, p))
        else:
            want = fit(a[:, p[0], p[1]], orders[p])
            ctx.check(m is not None, '{}: no model at {}'.format(what, p))
            ctx.check(tuple(m.model.order) == orders[p], '{}: order at {} is {} instead of {}'.format(what, p, m.model.order, orders[p]))
            for n in (1, 4):
                ctx.check(same(m.forecast(n), want.forecast(n), rtol=1e-6), '{}: forecast of {} at {}'.format(what, n, p))
            ctx.check(same(got_aic, want.aic, rtol=1e-6), '{}: AIC at {}'.format(what, p))
        if pdq:
            got = [int(v) for v in mr.pdq_region.series_at(Point(*p))]
            ctx.check(got == list(orders.get(p, (-1, -1, -1))), '{}: order reported at {}: {}'.format(what, p, got))
    missing = sum(1 for p in members if p not in orders)
    ctx.check(mr.missing_count == missing, '{}: {} missing models instead of {}'.format(what, mr.missing_count, missing))
    dom = SpatioTemporalRegion(a)
    if len(members) == x * y:
        f = mr.apply_to(dom, 3)
        for p in members:
            want = fit(a[:, p[0], p[1]], orders[p]).forecast(3) if p in orders else np.full(3, np.nan)
            ctx.check(same(f.series_at(Point(*p)), want, rtol=1e-6), '{}: forecast region at {}'.format(what, p))
    ctx.step()


def run(spec, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + spec['m']](spec, ctx)


def train(ctx, trainer, a, error):
    dom = SpatioTemporalRegion(a.copy())
    with failing(error):
        mr = trainer.apply_to(dom)
    ctx.check(ident(dom.as_numpy, a), 'training changed the data')
    return mr


def run_pdq(spec, ctx):
    x, y, fail = spec['x'], spec['y'], [divmod(i, spec['y']) for i in spec['fail']]
    order, error = ORDERS[spec['o']], ERRORS[spec['err']]
    pts = lib.points(x, y)
    a, b, c = data(x, y, 0, spec['fail']), data(x, y, 1), data(x, y, 2)
    tr = TrainerArimaPDQ(ArimaPDQ(*order), x, y)
    what = '{} failing {}'.format(order, fail)
    first = train(ctx, tr, a, error)
    ok = {p: order for p in pts if p not in fail}
    check_region(ctx, first, a, ok, pts, what)
    ctx.check(tr.missing_count == len(fail), what + ': missing count of the trainer')
    # the same trainer again: other data (nothing fails), and again the first
    second = train(ctx, tr, b, error)
    check_region(ctx, second, b, {p: order for p in pts}, pts, what + ', then other data')
    check_region(ctx, train(ctx, tr, a, error), a, ok, pts, what + ', trained again')
    # refitting keeps the order and the missing points
    refit = train(ctx, TrainerRefitArima(first), b, error)
    check_region(ctx, refit, b, ok, pts, what + ', refitted')
    again = train(ctx, TrainerRefitArima(refit), c, error)
    check_region(ctx, again, c, ok, pts, what + ', refitted twice')
    # (a point that fails while refitting has no model)
    lost = train(ctx, TrainerRefitArima(second), a, error)
    check_region(ctx, lost, a, ok, pts, what + ', failing while refitting')
    refitter = tr.create_refitter(first)
    redo = train(ctx, refitter, c, error)
    if redo.missing_count == len(fail):
        check_region(ctx, redo, c, ok, pts, what + ', own refitter')
    else:       # the given order can be used everywhere
        check_region(ctx, redo, c, {p: order for p in pts}, pts, what + ', own refitter')
    for mr, d, o in ((first, a, ok), (second, b, {p: order for p in pts}), (refit, b, ok)):
        check_region(ctx, mr, d, o, pts, what + ' afterwards')
    ctx.state(x, y, order, spec['fail'])


def run_auto(spec, ctx):
    x, y, fail = spec['x'], spec['y'], [divmod(i, spec['y']) for i in spec['fail']]
    params, error = AUTO[spec['a']], ERRORS[spec['err']]
    pts = lib.points(x, y)
    a, b, c = data(x, y, 0, spec['fail']), data(x, y, 1), data(x, y, 2)
    tr = TrainerAutoArima(params, x, y)
    what = '{} failing {}'.format(params, fail)
    first = train(ctx, tr, a, error)
    ok = {p: auto_order(a[:, p[0], p[1]], params) for p in pts if p not in fail}
    check_region(ctx, first, a, ok, pts, what, pdq=True)
    ctx.check(tr.missing_count == len(fail), what + ': missing count of the trainer')
    refit = train(ctx, tr.create_refitter(first), b, error)
    check_region(ctx, refit, b, ok, pts, what + ', refitted')
    again = train(ctx, TrainerRefitArima(refit), c, error)
    check_region(ctx, again, c, ok, pts, what + ', refitted twice')
    check_region(ctx, first, a, ok, pts, what + ' afterwards', pdq=True)
    other = train(ctx, tr, b, error)
    check_region(ctx, other, b, {p: auto_order(b[:, p[0], p[1]], params) for p in pts}, pts, what + ', then other data', pdq=True)
    lost = train(ctx, tr.create_refitter(other), a, error)
    check_region(ctx, lost, a, {p: auto_order(b[:, p[0], p[1]], params) for p in pts if p not in fail}, pts,
                 what + ', failing while refitting')
    ctx.outcome(sorted(ok.values()))
    ctx.state(x, y, spec['a'], spec['fail'])


def run_cluster(spec, ctx):
    x, y, lab = spec['x'], spec['y'], spec['lab']
    part = fx.partition(lab, x, y)
    a, b = data(x, y, 0, spec['fail']), data(x, y, 1)
    fail = [divmod(i, y) for i in spec['fail']]
    for k in (0, 1):
        members = fx.member_points(lab, x, y, k)
        for kind in ('pdq', 'auto'):
            what = 'cluster {} of {} failing {} ({})'.format(k, lab, fail, kind)
            dom = part.create_spt_cluster(SpatioTemporalRegion(a.copy()), k)
            tr = TrainerArimaPDQ(ArimaPDQ(1, 0, 0), x, y) if kind == 'pdq' else TrainerAutoArima(AUTO[1], x, y)
            with failing(ValueError):
                mr = tr.apply_to(dom)
            ok = {p: ((1, 0, 0) if kind == 'pdq' else auto_order(a[:, p[0], p[1]], AUTO[1])) for p in members if p not in fail}
            check_region(ctx, with_missing(mr, members, x, y), a, ok, members, what, pdq=False)
            ctx.check(tr.missing_count == len([p for p in members if p in fail]), what + ': missing count')
            dom = part.create_spt_cluster(SpatioTemporalRegion(b.copy()), k)
            re = TrainerRefitArima(mr)
            again = re.apply_to(dom)
            check_region(ctx, with_missing(again, members, x, y), b, ok, members, what + ', refitted')
            ctx.check(re.missing_count == len([p for p in members if p in fail]), what + ': missing count of refitting')
            ctx.state(lab, k, kind, spec['fail'])


def with_missing(mr, members, x, y):
    for p in lib.points(x, y):
        if p not in members:
            m = mr.value_at(Point(*p))
            if m is not None and not isinstance(m, (int, float)) and not np.isscalar(m):
                raise AssertionError('a model outside the cluster at {}'.format(p))
    return mr


SCALES = [1.0, 2.0 ** -40, 2.0 ** -20, 2.0 ** 30, -1.0]
BIG = [(0, 0, 0), (7, 0, 1), (8, 1, 0), (9, 2, 3), (0, 3, 9), (16, 0, 17), (100, 2, 127)]


def run_standin(spec, ctx):
    '''With stand-ins for the libraries: the values that reach the models, of any magnitude, and orders of any size.'''
    scale = SCALES[spec['scale']]
    asked = []

    def search(series, **kwargs):
        asked.append((list(np.array(series, dtype=float)), dict(kwargs)))
        return fakearima.FakeAuto(BIG[(len(np.array(series)) + int(np.sum(np.array(series) / scale))) % len(BIG)])

    for (x, y), n in itertools.product(((1, 1), (1, 3), (2, 2)), (2, 14, 400)):
        t = np.arange(n)[:, None, None]
        i = np.arange(x * y).reshape(x, y)
        a = (((t * t * (i + 2) + 3 * t * i) % 11) * 0.5 + i + 1 + (t % 3) * 2.0 ** -26) * scale
        b = a[::-1] * 0.5
        with fakearima.installed(search=search):
            for order in (BIG if spec['kind'] == 'pdq' else [None]):
                what = '{} {}x{} of {} samples, scale {}'.format(order, x, y, n, scale)
                trainer = TrainerArimaPDQ(ArimaPDQ(*order), x, y) if order else TrainerAutoArima(AutoArimaParams(1, 2, 9, 8, 1, True), x, y)
                del asked[:]
                first = trainer.apply_to(SpatioTemporalRegion(a.copy()))
                if not order:
                    ctx.check(sorted(s for s, _ in asked) == sorted(list(a[:, p[0], p[1]]) for p in lib.points(x, y)), what + ': series searched')
                    for _, args in asked:
                        got = {k: args.get(k) for k in ('start_p', 'start_q', 'max_p', 'max_q', 'd', 'stepwise', 'seasonal')}
                        ctx.check(got == {'start_p': 1, 'start_q': 2, 'max_p': 9, 'max_q': 8, 'd': 1, 'stepwise': True, 'seasonal': False}, '{}: search {}'.format(what, got))
                for which, mr, d in (('trained', first, a), ('refitted', TrainerRefitArima(first).apply_to(SpatioTemporalRegion(b.copy())), b)):
                    for p in lib.points(x, y):
                        want = order or search(a[:, p[0], p[1]]).order
                        m = mr.value_at(Point(*p))
                        ctx.check(m.model.order == want, '{}: {} with order {} instead of {}'.format(what, which, m.model.order, want))
                        ctx.check(ident(m.model.endog, d[:, p[0], p[1]]), '{}: {} with other values'.format(what, which))
                        ctx.check(mr.aic_region.value_at(Point(*p)) == m.aic, '{}: AIC'.format(what))
                        if which == 'trained' and not order:
                            got = tuple(int(v) for v in mr.pdq_region.series_at(Point(*p)))
                            ctx.check(got == want, '{}: order reported {} instead of {}'.format(what, got, want))
                        ctx.step()
                ctx.state(spec['kind'], scale, x, y, n, order)


def run_stages(spec, ctx):
    '''All the places where each point can fail (search of the order, construction of the model, fit), in training and in refitting.'''
    x, y, error = spec['x'], spec['y'], ERRORS[spec['err']]
    pts = lib.points(x, y)

    class Arima(fakearima.FakeArima):
        def __init__(self, endog, **kwargs):
            super(Arima, self).__init__(endog, **kwargs)
            if self.endog[0] == 2:
                raise error('injected')

        def fit(self, *args, **kwargs):
            if self.endog[0] == 3:
                raise error('injected')
            return fakearima.FakeFit(self)

    def search(series, **kwargs):
        if series[0] == 1:
            raise error('injected')
        return fakearima.FakeAuto((int(series[1]) % 4, int(series[2]) % 2, int(series[3]) % 3))

    def numbers(stages, shift):
        a = np.arange(1, 7.)[:, None, None] * (lib.distinct2d(x, y) + 51 + shift) // 3
        a[0] = np.array(stages).reshape(x, y)
        return a

    auto = spec['kind'] == 'auto'
    for first in itertools.product(range(4) if auto else (0, 2, 3), repeat=x * y):
        a = numbers(first, 0)
        with fakearima.installed(Arima, search):
            trainer = TrainerAutoArima(AutoArimaParams(1, 2, 9, 8, 1, True), x, y) if auto else TrainerArimaPDQ(ArimaPDQ(2, 1, 1), x, y)
            mr = trainer.apply_to(SpatioTemporalRegion(a.copy()))
            orders = {p: (search([0] + list(a[1:, p[0], p[1]])).order if auto else (2, 1, 1)) for p, s in zip(pts, first) if s == 0}

            def check(r, d, orders, what):
                for p in pts:
                    m = r.value_at(Point(*p))
                    if p not in orders:
                        ctx.check(m is None, '{}: there is a model at {}'.format(what, p))
                        ctx.check(all(v != v for v in r.apply_to(SpatioTemporalRegion(d), 2).series_at(Point(*p))), '{}: forecast at {} without a model'.format(what, p))
                    else:
                        ctx.check(m is not None and m.model.order == orders[p], '{}: order at {}'.format(what, p))
                        ctx.check(ident(m.model.endog, d[:, p[0], p[1]]), '{}: values at {}'.format(what, p))
                ctx.check(r.missing_count == len(pts) - len(orders), '{}: {} missing models'.format(what, r.missing_count))
                ctx.step()
            check(mr, a, orders, '{} {}'.format(spec, first))
            for second in itertools.product((0, 2, 3), repeat=x * y):
                b = numbers(second, 7)
                refit = TrainerRefitArima(mr).apply_to(SpatioTemporalRegion(b.copy()))
                check(refit, b, {p: orders[p] for p, s in zip(pts, second) if s == 0 and p in orders}, '{} {} refitted {}'.format(spec, first, second))
                ctx.state(x, y, spec['kind'], spec['err'], first, second)
            check(mr, a, orders, '{} {} afterwards'.format(spec, first))


AICS = (0.0, 1.0, -1.0, 1e-12, -2.5e300)


def run_aic(spec, ctx):
    '''All values of the AIC at each point (also 0), and points that fail.'''
    x, y = spec['x'], spec['y']

    class Fit(fakearima.FakeFit):
        def __init__(self, model):
            super(Fit, self).__init__(model)
            self.aic = AICS[int(model.endog[0])]

    class Arima(fakearima.FakeArima):
        def fit(self, *args, **kwargs):
            if self.endog[0] == len(AICS):
                raise ValueError('injected')
            return Fit(self)

    pts = lib.points(x, y)
    for rest in itertools.product(range(len(AICS) + 1), repeat=x * y - 1):
        values = (spec['first'],) + rest
        a = np.arange(1, 6.)[:, None, None] + lib.distinct2d(x, y)
        a[0] = np.array(values).reshape(x, y)
        with fakearima.installed(Arima):
            for trainer in (TrainerArimaPDQ(ArimaPDQ(1, 0, 0), x, y), TrainerAutoArima(AutoArimaParams(1, 2, 9, 8, 1, True), x, y)):
                mr = trainer.apply_to(SpatioTemporalRegion(a.copy()))
                for which, r in (('trained', mr), ('refitted', TrainerRefitArima(mr).apply_to(SpatioTemporalRegion(a.copy())))):
                    want = [lib.NAN if v == len(AICS) else AICS[v] for v in values]
                    got = [float(r.aic_region.value_at(Point(*p))) for p in pts]
                    ctx.check(same(got, want), '{}: AIC {} instead of {}'.format(which, got, want))
                    ctx.check(all((r.value_at(Point(*p)) is None) == (v != v) for p, v in zip(pts, want)), '{}: models of {}'.format(which, want))
                    ctx.step()
        ctx.state(values)


def run_none(spec, ctx):
    s = data(1, 1, 0)[:, 0, 0]
    pdq, auto = TrainerArimaPDQ(ArimaPDQ(1, 0, 0), 1, 1), TrainerAutoArima(AUTO[0], 1, 1)
    for tr, params in ((pdq, ArimaPDQ(1, 0, 0)), (auto, AUTO[0])):
        for p, series in ((None, s), (params, None), (None, None)):
            ctx.check(tr.training_function(p, series) is None, 'a model without data or parameters')
            ctx.step()
    ctx.state('none')


def run_suite(spec, ctx):
    for ps in ((1,), (0, 1), (1, 0, 3)):
        for ds in ((0,), (0, 2), range(0, 3)):
            for qs in ((2,), (2, 1), (0, 1, 2)):
                suite = ArimaSuiteParams(ps, ds, qs)
                for _ in range(2):
                    got = [tuple(a) for a in suite.arima_params_gen()]
                    ctx.check(got == [(p, d, q) for p in ps for d in ds for q in qs], 'suite {} {} {}: {}'.format(ps, ds, qs, got))
                    ctx.step()
                ctx.state(ps, tuple(ds), qs)
