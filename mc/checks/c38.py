'''
C38 analysis programs. Every request to the command line programs that analyse forecast errors per cluster (ARIMA and
automatic ARIMA training errors, distances against errors, errors between medoids, forecast of a region), and to the
program that stores distance matrices, over regions, clusterings, error types, and sets of points where the fitting
fails; and every history of two requests over the same storage: each row written or line printed is the one that
follows from the dataset, and a request does not depend on what was requested before.
'''
import contextlib
import csv
import itertools
import os
import re

import numpy as np

from spta.arima import AutoArimaParams
from spta.clustering.factory import ClusteringFactory
from spta.distance.dtw import DistanceByDTW

from mc import fakearima, lib
from mc import programs as pg
from mc import solverworld as sw
from mc.checks import c23
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of program requests and their histories over real storage vs a reference analysis'
LEVEL_NOTE = ('Six programs run in process over domains of 1x1 to 2x3 points and 12x1 points at an offset of a 12x13 dataset of 26 samples, '
              'with deterministic stand-ins for the ARIMA libraries; all their suites of few clusters, all error types, '
              'three sets of failing points; all ordered pairs of a menu of 14 requests.')
CASE_TIMEOUT = 600

PDQ, AUTO = 'experiments.arima.training_error_analysis', 'experiments.auto_arima.training_error_analysis'
DIST, MEDOIDS = 'experiments.auto_arima.distance_errors', 'experiments.auto_arima.error_between_medoids'
WHOLE, MATRIX = 'experiments.arima.forecast', 'experiments.region.distance'
CLUSTERINGS = {'simple_kmedoids_quick': [('k', k, s) for k in (2, 3) for s in (0, 1)],
               'simple_regular_quick': [('r', 2), ('r', 3)],
               'arima_simple_quick': [('k', k, s) for k in (2, 3) for s in (0, 1)],
               'arima_two_quick': [('k', k, s) for k in (2, 3) for s in (0, 1)]}
ORDERS = {'arima_simple_quick': [(2, 1, 1)], 'arima_two_quick': [(2, 0, 1), (2, 0, 2)],
          'arima_simple': [(2, 1, 1)], 'arima_two': [(2, 0, 1), (2, 0, 2)], 'arima_1_2_1': [(1, 2, 1)],
          'arima_sweep': [(p, d, q) for p in range(4) for d in range(2) for q in range(3)]}
ERRORS = ['MASE', 'sMAPE', 'MSE']
FAILS = ['none', 'some', 'medoids']


def cases(tier):
    regions = ['wide', 'wide_scaled', 'tall', 'tall_scaled', 'row', 'row_scaled']
    for region in regions:
        for err in ERRORS:
            for fail in FAILS:
                for exp in ('arima_simple_quick', 'arima_two_quick'):
                    yield {'m': 'one', 'req': ['pdq', region, exp, err, None, fail]}
                for exp in ('simple_kmedoids_quick', 'simple_regular_quick'):
                    yield {'m': 'one', 'req': ['auto', region, exp, err, None, fail]}
            for exp in ('simple_kmedoids_quick', 'simple_regular_quick'):
                for flen in (1, 3, 8):
                    for fail in (FAILS if flen == 3 else FAILS[:1]):
                        yield {'m': 'one', 'req': ['dist', region, exp, err, flen, fail]}
                        yield {'m': 'one', 'req': ['medoids', region, exp, err, flen, fail]}
    for region in ('long', 'high', 'long_scaled'):
        for fail in FAILS[:2]:
            yield {'m': 'one', 'req': ['pdq', region, 'arima_simple_quick', 'sMAPE', None, fail]}
            yield {'m': 'one', 'req': ['auto', region, 'simple_kmedoids_quick', 'MASE', None, fail]}
            yield {'m': 'one', 'req': ['dist', region, 'simple_kmedoids_quick', 'MSE', 3, fail]}
            yield {'m': 'one', 'req': ['dist', region, 'simple_regular_quick', 'sMAPE', 8, fail]}
            yield {'m': 'one', 'req': ['medoids', region, 'simple_kmedoids_quick', 'MASE', 3, fail]}
        yield {'m': 'one', 'req': ['matrix', region, None, None, None, 'none']}
    for region in regions + ['one']:
        for suite in ('arima_simple', 'arima_two', 'arima_1_2_1', 'arima_sweep'):
            yield {'m': 'one', 'req': ['whole', region, suite, 'MASE', None, 'none']}
        for par in (None, 2):
            yield {'m': 'one', 'req': ['matrix', region, None, None, par, 'none']}
    for region in ('wide_scaled', 'tall'):
        for par in (1, 2, 3):
            yield {'m': 'parallel', 'region': region, 'par': par}
    n = len(MENU)
    for a in range(n):
        yield {'m': 'hist', 'a': a, 'len': 2 if tier == 'quick' else 3}


MENU = [['pdq', 'wide', 'arima_simple_quick', 'sMAPE', None, 'none'], ['pdq', 'wide', 'arima_two_quick', 'sMAPE', None, 'none'],
        ['pdq', 'wide', 'arima_simple_quick', 'MSE', None, 'none'], ['pdq', 'wide_scaled', 'arima_simple_quick', 'sMAPE', None, 'none'],
        ['auto', 'wide', 'simple_kmedoids_quick', 'sMAPE', None, 'none'], ['auto', 'wide', 'simple_regular_quick', 'sMAPE', None, 'none'],
        ['auto', 'wide', 'simple_kmedoids_quick', 'MASE', None, 'none'],
        ['dist', 'wide', 'simple_kmedoids_quick', 'sMAPE', 3, 'none'], ['dist', 'wide', 'simple_regular_quick', 'MSE', 3, 'none'],
        ['dist', 'tall', 'simple_kmedoids_quick', 'sMAPE', 3, 'none'],
        ['medoids', 'wide', 'simple_kmedoids_quick', 'sMAPE', 3, 'none'], ['medoids', 'wide', 'simple_kmedoids_quick', 'MSE', 3, 'none'],
        ['medoids', 'wide_scaled', 'simple_kmedoids_quick', 'sMAPE', 3, 'none'], ['whole', 'wide', 'arima_two', 'MASE', None, 'none']]

PROGRAMS = {'pdq': PDQ, 'auto': AUTO, 'dist': DIST, 'medoids': MEDOIDS, 'whole': WHOLE, 'matrix': MATRIX}

_partitions = {}


def partition(w, region, cl):
    if (w.dir, region, cl) not in _partitions:
        st = pg.regions(w)[region].create_instance()
        dist = DistanceByDTW()
        dist.load_distance_matrix_md(st.region_metadata)
        part = ClusteringFactory(dist).instance(sw.clustering(cl)).partition(st, with_medoids=True, pickle_home=None)
        _partitions[(w.dir, region, cl)] = ([int(v) for v in part.membership_of_point_indices(list(range(st.x_len * st.y_len)))],
                                     [(int(p.x), int(p.y)) for p in part.medoids])
    return _partitions[(w.dir, region, cl)]


def failing(w, region, kind):
    '''Points where no model can be fitted.'''
    ref = pg.Reference(w.data, region, 8, 'MSE', None)
    pts = lib.points(ref.x, ref.y)
    if kind == 'none':
        return []
    if kind == 'medoids':
        return [partition(w, region, ('k', 2, 0))[1][0]]
    return [p for i, p in enumerate(pts) if i % 3 == 1]


@contextlib.contextmanager
def injected(w, region, kind, tp):
    ref = pg.Reference(w.data, region, tp, 'MSE', None)
    bad = [tuple(np.round(ref.vis[:-tp, p[0], p[1]], 9)) for p in failing(w, region, kind)]
    old = fakearima.fails
    fakearima.fails = lambda series: tuple(np.round(series, 9)) in bad
    try:
        yield
    finally:
        fakearima.fails = old


def rows(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


def near(text, value, tol=6e-4):
    got = float(text)
    if got != got or value != value:
        return got != got and value != value
    return abs(got - value) <= tol + 1e-9 * abs(value)


def request(w, req, extra=()):
    kind, region, what, err, flen, fail = req
    names = {}
    if kind == 'matrix':
        args = [region, 'dtw'] + (['--parallel', flen] if flen else [])
    elif kind == 'whole':
        args = [region, what]
        import experiments.metadata.centroid as mod
        old = mod.predefined_regions
        mod.predefined_regions = lambda: pg.regions(w)
    else:
        args = [region, what, '--error', err] + (['--flen', flen] if flen else [])
    try:
        with injected(w, region, fail, flen or 8):
            return pg.program(w, PROGRAMS[kind], [str(a) for a in args] + ['--log', 'WARN'] + [str(a) for a in extra], **names)
    finally:
        if kind == 'whole':
            mod.predefined_regions = old


class Analysis:
    '''Errors of a cluster where the model at each point has a given order (None: found for the series).'''

    def __init__(self, w, region, tp, err, order, members, fails):
        self.ref = pg.Reference(w.data, region, tp, err, ('arima',) if order is None else ('pdq', order))
        self.members, self.fails, self.tp = members, fails, tp
        self.each = {p: self.error_at(p, p) for p in members}
        self.overall = {p: c23.rms([self.error_at(p, q) for q in members]) for p in members}

    def raw(self, p):
        return np.full(self.tp, lib.NAN) if p in self.fails else self.ref.raw_forecast(p, self.tp, False)

    def error_at(self, model, p):
        return self.ref.error_of(p, self.raw(model))

    def values(self, medoid):
        ok = [p for p in self.members if p not in self.fails]
        return dict(error_each=c23.rms(list(self.each.values())),
                    error_min=min(self.overall[p] for p in ok) if ok else lib.NAN,
                    error_min_local=self.overall[min(ok, key=lambda p: self.each[p])] if ok else lib.NAN,
                    error_medoid=self.overall[medoid],
                    error_max=max(self.overall[p] for p in ok) if ok else lib.NAN)


def members_of(ref, labels, c):
    return [p for i, p in enumerate(lib.points(ref.x, ref.y)) if labels[i] == c]


def files(pattern):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk('outputs') for f in fs if re.search(pattern, os.path.join(b, f)))


def check(ctx, w, req, printed, what):
    kind, region, exp, err, flen, fail = req
    tp = flen or 8
    ref = pg.Reference(w.data, region, tp, err, ('arima',))
    bad = failing(w, region, fail)
    if kind == 'matrix':
        md = pg.regions(w)[region]
        ctx.check(same(np.load(md.distances_filename), lib.dtw_matrix(lib.series_of(ref.vis)), rtol=1e-6), what + ': distances')
        return
    if kind == 'whole':
        check_whole(ctx, w, req, printed, what)
        return
    clusterings = CLUSTERINGS[exp]
    for cl in clusterings:
        labels, medoids = partition(w, region, cl)
        name = repr(sw.clustering(cl))
        place = '/{}/.*'.format(repr(pg.regions(w)[region])) + re.escape(name)
        here = '{} {}'.format(what, name)
        if kind in ('pdq', 'auto'):
            tag = exp.replace('_quick', '') if kind == 'pdq' else 'auto-arima'
            found = files(place + '/.*error-analysis__.*' + tag + '.*__' + err + r'\.csv$')
            ctx.check(len(found) == 1, '{}: files {}'.format(here, found))
            table = rows(found[0])
            orders = ORDERS[exp] if kind == 'pdq' else [None]
            ctx.check(len(table) == 1 + cl[1] * len(orders), '{}: {} rows'.format(here, len(table)))
            for row, (c, order) in zip(table[1:], itertools.product(range(cl[1]), orders)):
                d = dict(zip(table[0], row))
                ctx.check(len(row) == len(table[0]), '{}: row {}'.format(here, row))
                members = members_of(ref, labels, c)
                a = Analysis(w, region, tp, err, order, members, bad)
                ctx.check(int(d['cluster']) == c and int(d['size']) == len(members), '{}: cluster and size in {}'.format(here, d))
                ctx.check(int(d['failed']) == len([p for p in members if p in bad]), '{}: failed models of cluster {}: {}'.format(here, c, d['failed']))
                ctx.check(float(d['t_forecast']) >= 0 and float(d['t_elapsed']) >= 0, here + ': times')
                for k, v in a.values(medoids[c]).items():
                    if all(p in bad for p in members):
                        # without any model there is no error to report, how that is written is not specified
                        ctx.check(not np.isfinite(float(d[k])), '{}: {} of cluster {} without models is {}'.format(here, k, c, d[k]))
                        continue
                    ctx.check(near(d[k], v), '{}: {} of cluster {} {} is {} instead of {}'.format(here, k, c, order, d[k], v))
                if kind == 'pdq':
                    ctx.check(tuple(int(d[k]) for k in 'pdq') == order, '{}: order in {}'.format(here, d))
                else:
                    m = medoids[c]
                    series = ref.vis[:-tp, m[0], m[1]]
                    want = (-1, -1, -1) if m in bad else fakearima.auto_order(series)
                    ctx.check(tuple(int(d[k + '_medoid']) for k in 'pdq') == want, '{}: order of the medoid in {}'.format(here, d))
                    aic = lib.NAN if m in bad else fakearima.FakeFit(fakearima.FakeArima(series, want)).aic
                    ctx.check(near(d['aic_medoid'], aic), '{}: aic of the medoid in {}'.format(here, d))
                ctx.step()
        elif kind == 'dist':
            for c in range(cl[1]):
                m = medoids[c]
                order = (-1, -1, -1) if m in bad else fakearima.auto_order(ref.vis[:-tp, m[0], m[1]])
                found = files('{}/.*dist-error__.*__{}__.*__auto-arima-p{}-d{}-q{}\\.csv$'.format(place, err, *order))
                members = members_of(ref, labels, c)
                a = Analysis(w, region, tp, err, None, members, bad)
                want = {(p[0] + ref.r.x1, p[1] + ref.r.y1): (lib.dtw(ref.vis[:, m[0], m[1]], ref.vis[:, p[0], p[1]]), a.error_at(m, p))
                        for p in members}
                # the file of this cluster is the one that lists its points
                ok = []
                for f in found:
                    table = rows(f)
                    got = {tuple(int(v) for v in re.findall(r'-?\d+', r[0])): r[1:] for r in table[1:]}
                    if set(got) == set(want):
                        ok.append(f)
                        ctx.check(len(table) == 1 + len(want), here + ': repeated points')
                        for p in want:
                            ctx.check(near(got[p][0], want[p][0]) and near(got[p][1], want[p][1]),
                                      '{}: cluster {} at {}: {} instead of {}'.format(here, c, p, got[p], want[p]))
                ctx.check(len(ok) == 1, '{}: the points of cluster {} are in files {}'.format(here, c, ok))
                ctx.step()
        else:
            found = files(place + '/.*error-between-medoids__.*__' + err + r'\.csv$')
            ctx.check(len(found) == 1, '{}: files {}'.format(here, found))
            table = rows(found[0])
            ctx.check(table[0][1:] == [str(i) for i in range(cl[1])] and len(table) == 1 + cl[1], '{}: table {}'.format(here, table))
            a = Analysis(w, region, tp, err, None, medoids, bad)
            for i in range(cl[1]):
                ctx.check(table[1 + i][0] == str(i) and all(near(table[1 + i][1 + j], a.error_at(medoids[i], medoids[j])) for j in range(cl[1])),
                          '{}: errors of the model at medoid {}: {}'.format(here, i, table[1 + i]))
                ctx.step()


def check_whole(ctx, w, req, printed, what):
    _, region, suite, err, _, _ = req
    ref = pg.Reference(w.data, region, 8, err, None)
    pts = lib.points(ref.x, ref.y)
    m = lib.dtw_matrix(lib.series_of(ref.vis))
    centroid = pts[int(np.argmin(m.sum(axis=1)))]
    lines = [l for l in printed.split('\n') if 'errors ->' in l]
    ctx.check(len(lines) == len(ORDERS[suite]), '{}: printed {}'.format(what, printed))
    for line, order in zip(lines, ORDERS[suite]):
        got = tuple(int(v) for v in re.findall(r'[pdq]=(\d+)', line.split('errors')[0]))
        ctx.check(got == order, '{}: order in {}'.format(what, line))
        v = Analysis(w, region, 8, err, order, pts, []).values(centroid)
        for label, key in (('each', 'error_each'), ('min_local', 'error_min_local'), ('centroid', 'error_medoid')):
            text = re.search(label + r'=([\d.]+|nan)', line)
            ctx.check(text and near(text.group(1), v[key], 6e-3), '{}: {} in {} instead of {}'.format(what, label, line, v[key]))
        ctx.step()


def one(ctx, w, req, what):
    printed = request(w, req)
    check(ctx, w, req, printed, what)


def run(spec, ctx):
    w = pg.make_world(ctx)
    if spec['m'] == 'one':
        req = spec['req']
        if req[0] == 'matrix':
            md = pg.regions(w)[req[1]]
            saved = open(md.distances_filename, 'rb').read()
            os.remove(md.distances_filename)
            try:
                one(ctx, w, req, str(req))
            finally:
                with open(md.distances_filename, 'wb') as f:
                    f.write(saved)
        else:
            one(ctx, w, req, str(req))
            one(ctx, w, req, 'again {}'.format(req))
        ctx.state(str(req))
    elif spec['m'] == 'parallel':
        for kind, exp in (('pdq', 'arima_simple_quick'), ('auto', 'simple_kmedoids_quick')):
            w.use()
            req = [kind, spec['region'], exp, 'MASE', None, 'none']
            request(w, req, ['--parallel', spec['par']])
            check(ctx, w, req, '', '{} with {} workers'.format(req, spec['par']))
            ctx.state(str(req), spec['par'])
        req = ['whole', spec['region'], 'arima_two', 'MASE', None, 'none']
        check(ctx, w, req, request(w, req, ['--parallel', spec['par']]), '{} with {} workers'.format(req, spec['par']))
    else:
        first = MENU[spec['a']]
        for tail in itertools.product(MENU, repeat=spec['len'] - 1):
            w.use()
            printed = [(r, request(w, r)) for r in [first] + list(tail)]
            for r, text in printed:
                check(ctx, w, r, text, 'history {}: {}'.format([first] + list(tail), r))
            ctx.state(spec['a'], str(tail))
