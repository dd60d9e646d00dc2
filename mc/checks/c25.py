'''
C25 solver answers. Solvers trained for every small configuration (region, scaling, clustering, test length, error
type, model) answer every query (all rectangles of the domain, in-sample and out-of-sample of several lengths),
asked in histories on the same solver: the forecast at each point is the one of the model of the medoid of its
cluster, trained with the training part (in-sample) or refitted with the whole series (out-of-sample), in the
real values of the point; errors and test series are those of the point.
'''
import itertools

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region

from mc import fx, lib
from mc import solverworld as sw
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of solver configurations and query histories on real files vs a reference solver'
LEVEL_NOTE = ('5 domain regions of up to 5x6 points, plain and scaled, k-medoids and regular clusterings with k <= 4, test '
              'lengths 1-3, all error types, 4 models (one fails at some medoids); all rectangles x 4 forecast lengths (lengths up to 400 for '
              'those at the origin); '
              'histories of 2 queries (thorough: also 3) over a set.')
CASE_TIMEOUT = 600

CLUSTERINGS = [('k', 1, 0), ('k', 2, 0), ('k', 2, 3), ('k', 3, 1), ('k', 4, 2), ('r', 1), ('r', 2), ('r', 4)]


def configs(tier):
    out = []
    for name in ('wide', 'tall', 'row'):
        for scaled in (False, True):
            for cl in CLUSTERINGS:
                if name == 'row' and cl == ('r', 4):
                    continue            # no such grid
                for tp in (1, 2, 3):
                    for model in ('stub', 'failing', 'mean', 'stub2'):
                        out.append((name, scaled, cl, tp, ['MASE', 'sMAPE', 'MSE'][(tp + len(model)) % 3], model))
    for scaled in (False, True):
        out.append(('one', scaled, ('k', 1, 0), 2, 'MSE', 'stub'))
        out.append(('one', scaled, ('r', 1), 2, 'MASE', 'mean'))
        out.append(('all', scaled, ('k', 3, 1), 2, 'sMAPE', 'stub'))
        out.append(('all', scaled, ('r', 4), 3, 'MSE', 'failing'))
    return out


def cases(tier):
    cs = configs(tier)
    for i, c in enumerate(cs):
        yield {'m': 'all', 'cfg': c}
    for c in cs:
        if c[0] == 'wide' and c[2] in (('k', 3, 1), ('r', 2)):
            yield {'m': 'hist', 'cfg': c, 'len': 3 if tier != 'quick' else 2}


def cfg_of(spec):
    c = list(spec['cfg'])
    c[2] = tuple(c[2])
    return tuple(c)


def setup(spec, ctx):
    cfg = cfg_of(spec)
    w = sw.world(ctx, spec.get('factor', 1))
    solver = w.train(cfg)
    n = sw.Expected(w.data, cfg, None, None)
    labels = [int(v) for v in solver.partition.membership_of_point_indices(list(range(n.x * n.y)))]
    medoids = fx.pts(solver.partition.medoids)
    e = sw.Expected(w.data, cfg, labels, medoids)
    ctx.check(len(medoids) == cfg[2][1] == len(set(labels)), '{}: number of clusters'.format(cfg))
    for i, m in enumerate(medoids):
        ctx.check(labels[m[0] * e.y + m[1]] == i, '{}: medoid {} is not in its cluster'.format(cfg, i))
    return cfg, w, solver, e


def check_query(ctx, solver, e, rect, flen, what, cache=None):
    x1, x2, y1, y2 = rect
    res = solver.predict(Region(x1, x2, y1, y2), flen, plot=False)
    what = '{} rect {} length {}'.format(what, rect, flen)
    ctx.check(fx.pts(res) == lib.points(x2 - x1, y2 - y1), what + ': points of the result')
    whole, n = flen > 0, (flen if flen > 0 else e.tp)
    for (x, y) in lib.points(x2 - x1, y2 - y1):
        p = (x + x1, y + y1)
        got = res.prediction_forecast_at(Point(x, y))
        want = e.forecast(p, n, whole)
        ctx.check(same(got, want), '{}: forecast at {} is {} instead of {}'.format(what, p, got, want))
        ctx.check(same(res.prediction_error_at(Point(x, y)), e.error(p), rtol=1e-7), '{}: error at {}'.format(what, p))
        if not whole:
            ctx.check(same(res.decorated.prediction_test_at(Point(x, y)), e.test(p)), '{}: test series at {}'.format(what, p))
    ctx.step()
    return res


def run(spec, ctx):
    cfg, w, solver, e = setup(spec, ctx)
    if spec['m'] == 'all':
        ctx.check(same(solver.generalization_errors.as_numpy, np.array(
            [[e.error((x, y)) for y in range(e.y)] for x in range(e.x)]), rtol=1e-7), '{}: errors'.format(cfg))
        rects = lib.rects(e.x, e.y)
        if len(rects) > 60:
            rects = [r for r in rects if (r[0] + 2 * r[1] + 3 * r[2] + 5 * r[3]) % 7 == 0]
        for rect in rects:
            for flen in (0, 1, 3, 9):
                check_query(ctx, solver, e, rect, flen, str(cfg))
            if rect[0] == rect[2] == 0:
                for flen in (sw.T, sw.T + 1, 30, 400):       # as long as the series, longer
                    check_query(ctx, solver, e, rect, flen, str(cfg))
            ctx.state(cfg, rect)
    else:
        menu = [((0, 1, 0, 1), 0), ((1, 2, 1, 3), 2), ((0, e.x, 0, e.y), 0), ((0, 2, 2, 3), 5), ((1, 2, 0, 1), 1)]
        for hist in itertools.product(range(len(menu)), repeat=spec['len']):
            results = []
            for i in hist:
                res = check_query(ctx, solver, e, menu[i][0], menu[i][1], '{} history {}'.format(cfg, hist))
                results.append((i, res, [res.prediction_forecast_at(p).copy() for p in res]))
            # the earlier results have not changed
            for i, res, before in results:
                ctx.check(all(ident(a, res.prediction_forecast_at(p)) for a, p in zip(before, list(res))),
                          '{}: a later query changed an earlier result'.format(cfg))
            ctx.state(cfg, hist)
        # another solver trained afterwards does not change the answers of this one
        other = list(cfg)
        other[3], other[5] = 1, 'mean'
        w.train(tuple(other))
        check_query(ctx, solver, e, (0, e.x, 0, e.y), 3, '{} after training another'.format(cfg))
        # solvers of different regions, trained with the same instance of the distance measure
        d = DistanceByDTW()
        w.use()
        for name in ('tall', 'wide' if cfg[0] != 'wide' else 'all', 'tall'):
            w.train((name, cfg[1], ('k', 2, 0)) + cfg[3:], distance_measure=d)
        again = w.train(cfg, distance_measure=d)
        labels = [int(v) for v in again.partition.membership_of_point_indices(list(range(e.x * e.y)))]
        ctx.check(labels == e.labels and fx.pts(again.partition.medoids) == list(e.medoids), '{}: clusters after training solvers of other regions'.format(cfg))
        check_query(ctx, again, e, (0, e.x, 0, e.y), 2, '{} after training solvers of other regions'.format(cfg))
    for bad in ('whatever',):
        ctx.check(raises(lambda: w.train(cfg[:4] + (bad,) + cfg[5:])), 'unknown error type accepted')
