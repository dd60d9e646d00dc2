'''
C28 choice of a medoid for a point. Every suite shape and every history of penalties over a grid, with every
threshold: each choice is the first medoid of minimum penalty among those chosen less often than the threshold, the
histogram counts the choices, and an error is raised when none is left. With distances: every point of regions at
several offsets, every threshold, histories of points. With prediction errors: solvers of several clusterings. The
training CSV, the histogram CSV and the medoid series CSV are read back and compared with the data.
'''
import argparse
import csv
import itertools
import logging
import os

import numpy as np

from experiments.clustering import extraction_lstm, partition_analysis
from experiments.metadata.clustering import get_suite
from experiments.metadata.region import predefined_regions
from spta.classifier.train_input import (MedoidSeriesFormatter, MedoidsChoiceMinDistance,
                                         MedoidsChoiceMinPredictionError, MedoidsChoiceStrategy,
                                         TrainDataWithRandomPoints)
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata

from mc import fx, lib
from mc import solverworld as sw
from mc.core import ident, raises

TECHNIQUE = 'exhaustive enumeration of penalty/choice histories and suites on the real code vs a reference choice'
LEVEL_NOTE = ('4 suite shapes (2-4 medoids), penalties in {0, 0.4, 0.4 + 2^-30}, thresholds 0-2, histories of 2 choices (3 for up to 3 '
              'medoids; thorough: 3 and 4); 3 regions at different offsets x all points x thresholds 0-3; solver errors '
              'of 3 suites, also of strategies used in turns; CSV files of 12 (thorough 40) runs and of the real program.')
CASE_TIMEOUT = 600

SHAPES = [(2,), (1, 1), (1, 2), (2, 1, 1)]
NAMES = ['kmedoids_k{}_seed0_lite', 'kmedoids_k{}_seed1_lite', 'kmedoids_k{}_seed5_lite']
REGIONS = [Region(0, 2, 0, 3), Region(2, 5, 1, 4), Region(1, 3, 3, 6)]


def cases(tier):
    thorough = tier != 'quick'
    for shape in SHAPES:
        for th in (0, 1, 2):
            n = sum(shape)
            depth = (4 if n == 2 else 3) if n < 4 else 2
            for first in range(3 ** n):
                yield {'m': 'stub', 'shape': shape, 'th': th, 'depth': depth + (1 if thorough and n < 3 else 0), 'first': first}
    for th in (0, 1, 2):
        yield {'m': 'many', 'th': th}
    for i in range(len(REGIONS)):
        for kind in ('plain', 'ties'):
            yield {'m': 'dist', 'i': i, 'kind': kind}
    for name, scaled, model in (('wide', False, 'stub'), ('tall', True, 'stub'), ('wide', True, 'mean'), ('tall', False, 'failing')):
        yield {'m': 'error', 'cfg': (name, scaled, model)}
        if thorough or model == 'stub':
            yield {'m': 'others', 'cfg': (name, scaled, model)}
    for i in range(40 if thorough else 12):
        yield {'m': 'csv', 'i': i}
    for shape in ((2, 49), (3, 49), (2, 98), (20, 15)):
        yield {'m': 'random', 'shape': shape}
    for i in range(2):
        yield {'m': 'csv_error', 'i': i}
    for region in ('nordeste_small_2015_2015_1spd', 'nordeste_small_2015_2015_1spd_scaled'):
        yield {'m': 'program', 'region': region}


class Stub(MedoidsChoiceStrategy):
    def __init__(self):
        self.table = None

    def get_medoid_penalties(self, clustering_repr, medoids, point):
        return np.array([self.table[(clustering_repr, i)] for i in range(len(medoids))], dtype=float)


def expected_choice(suite, penalties, threshold, hist):
    '''suite: name -> medoids, penalties: (name, i) -> value or None. Returns (name, i) or None'''
    best = None
    for name, medoids in suite.items():
        for i in range(len(medoids)):
            pen = penalties[(name, i)]
            if pen is None or pen != pen or pen == float('inf'):
                continue
            if threshold and hist.get((name, i), 0) >= threshold:
                continue
            if best is None or pen < penalties[best]:
                best = (name, i)
    return best


def step(ctx, strategy, suite, penalties, point, threshold, real, hist, what):
    '''One choice on the real code, compared. Returns whether something was chosen.'''
    want = expected_choice(suite, penalties, threshold, hist)
    ctx.step()
    if want is None:
        ctx.check(raises(lambda: strategy.choose_medoid(suite, point, threshold, real), ValueError),
                  '{}: a medoid was chosen when none was left'.format(what))
        ctx.check(real == hist, '{}: histogram after failure'.format(what))
        return False
    name, i, medoid = strategy.choose_medoid(suite, point, threshold, real)
    ctx.check((name, int(i)) == want, '{}: chosen {} instead of {}'.format(what, (name, i), want))
    ctx.check(medoid == suite[name][want[1]], '{}: medoid {}'.format(what, medoid))
    hist[want] = hist.get(want, 0) + 1
    ctx.check(real == hist, '{}: histogram {} instead of {}'.format(what, real, hist))
    return True


def read(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
    return rows[0], rows[1:]


def run(spec, ctx):
    return globals()['run_' + spec['m']](spec, ctx)


def run_stub(spec, ctx):
    shape, th = spec['shape'], spec['th']
    suite = {NAMES[j].format(n): [Point(7 * j + i, i) for i in range(n)] for j, n in enumerate(shape)}
    slots = [(name, i) for name, ms in suite.items() for i in range(len(ms))]
    n = len(slots)
    s = Stub()
    vectors = list(itertools.product((0.0, 0.4, 0.4 + 2.0 ** -30), repeat=n))

    def go(depth, hist, real, trail):
        if depth == 0:
            return
        for v in (vectors if trail else [vectors[spec['first']]]):
            s.table = dict(zip(slots, v))
            h, r = dict(hist), dict(real)
            what = 'suite {} threshold {} penalties {}'.format(shape, th, trail + [v])
            if step(ctx, s, suite, s.table, Point(0, 0), th, r, h, what):
                ctx.state(shape, th, sorted(h.items()))
                # the suite itself is never modified
                ctx.check([len(m) for m in suite.values()] == list(shape), what + ': suite modified')
                go(depth - 1, h, r, trail + [v])
            else:
                ctx.outcome(shape, th, 'none left')

    go(spec['depth'], {}, {}, [])


def run_many(spec, ctx):
    '''Clusterings of 12 and 150 medoids, until none is left.'''
    th = spec['th']
    for sizes in ((12,), (3, 12), (150, 12, 1)):
        suite = {NAMES[j].format(n): [Point(7 * j + i, i) for i in range(n)] for j, n in enumerate(sizes)}
        slots = [(name, i) for name, ms in suite.items() for i in range(len(ms))]
        s, hist, real = Stub(), {}, {}
        for k in range(2 * len(slots) + 1 if th else 40):
            v = [((i * 37 + k * 11) % 101) * 0.013 + 1e-4 * ((i + k) % 3) for i in range(len(slots))]
            s.table = dict(zip(slots, v))
            if not step(ctx, s, suite, s.table, Point(0, 0), th, real, hist, 'sizes {} threshold {} step {}'.format(sizes, th, k)):
                ctx.outcome(sizes, th, 'none left')
                break
            ctx.state('many', sizes, th, k)


def varied(t, x, y):
    '''Different series everywhere, also when scaled'''
    i = np.arange(x * y).reshape(x, y)
    k = np.arange(t)[:, None, None]
    return 280 + ((k * k * (i + 1) + 3 * k * i + 5 * i) % 211) * 0.25 + 0.125 * i


def small_world(ctx, region, kind, scaled=False):
    ctx.fresh_dir()
    fx.write_raw(varied(9, 5, 6))
    md = SpatioTemporalRegionMetadata('r', region, 2015, 2015, 1, scaled=scaled)
    n = md.x_len * md.y_len
    i = np.arange(n)
    if kind == 'plain':
        mat = np.abs(np.subtract.outer(i * i * 1.25 + i, i * i * 1.25 + i))
    else:
        mat = np.abs(np.subtract.outer(i % 3, i % 3)).astype(float)
    np.save(md.distances_filename, mat)
    d = DistanceByDTW()
    d.load_distance_matrix_2d(md.distances_filename, md.region)
    return md, d, mat


def suites(region, y_len, x_len):
    '''Suites over the points of the region (absolute coordinates), as read from an analysis.'''
    pts = [Point(region.x1 + x, region.y1 + y) for x, y in lib.points(x_len, y_len)]
    n = len(pts)
    out = []
    for a in range(n):
        b, c, e = (a + 2) % n, (a * a + 3) % n, (n - 1 - a)
        out.append({'kmedoids_k1_seed0_lite': [pts[a]], 'kmedoids_k2_seed3_lite': [pts[b], pts[c]],
                    'kmedoids_k3_seed0_lite': [pts[e], pts[b], pts[a]]})
    return out


def run_dist(spec, ctx):
    region = REGIONS[spec['i']]
    md, d, mat = small_world(ctx, region, spec['kind'])
    before = mat.copy()
    s = MedoidsChoiceMinDistance(md, d)
    points = lib.points(md.x_len, md.y_len)
    for suite in suites(region, md.y_len, md.x_len):
        for th in (0, 1, 2, 3):
            for start in range(len(points)):
                hist, real = {}, {}
                # each starting point, then the others in order: with a threshold the medoids run out
                for k in range(len(points)):
                    p = points[(start + k) % len(points)] if k % 3 else points[start]
                    row = p[0] * md.y_len + p[1]
                    pen = {(name, i): mat[row, (m.x - region.x1) * md.y_len + m.y - region.y1]
                           for name, ms in suite.items() for i, m in enumerate(ms)}
                    what = 'region {} suite {} threshold {} point {} (step {})'.format(region, suite, th, p, k)
                    if not step(ctx, s, suite, pen, Point(*p), th, real, hist, what):
                        ctx.outcome('exhausted', th, k)
                        break
                ctx.check(ident(d.distance_matrix, before), 'the distance matrix was modified')
                ctx.state(spec['i'], spec['kind'], th, start, sorted((n, i, c) for (n, i), c in hist.items()))


def error_suite(w, name, scaled, model, clusterings, tp=2, err='MSE'):
    '''Trains the solvers. Returns the suite (absolute medoids) and the expected answers of each.'''
    suite, refs, cfgs = {}, {}, {}
    for cl in clusterings:
        cfg = (name, scaled, cl, tp, err, model)
        solver = w.train(cfg)
        solver.save()
        r = sw.REGIONS[name]
        n = (r.x2 - r.x1) * (r.y2 - r.y1)
        labels = [int(v) for v in solver.partition.membership_of_point_indices(list(range(n)))]
        medoids = fx.pts(solver.partition.medoids)
        key = repr(sw.clustering(cl))
        suite[key] = [Point(x + r.x1, y + r.y1) for x, y in medoids]
        refs[key] = (sw.Expected(w.data, cfg, labels, medoids), labels)
        cfgs[key] = cfg
    return suite, refs


def error_penalties(suite, refs, p):
    pen = {}
    for key, ms in suite.items():
        e, labels = refs[key]
        for i in range(len(ms)):
            pen[(key, i)] = float(e.error(p)) if labels[p[0] * e.y + p[1]] == i else None
    return pen


def run_error(spec, ctx):
    name, scaled, model = spec['cfg']
    w = sw.world(ctx)
    for clusterings in ([('k', 2, 0), ('k', 3, 1)], [('k', 3, 1), ('k', 1, 0), ('k', 2, 3)], [('k', 4, 2), ('k', 2, 0), ('k', 3, 0)]):
        w.use()
        suite, refs = error_suite(w, name, scaled, model, clusterings)
        md = w.region(name, scaled)
        points = lib.points(md.x_len, md.y_len)
        for th in (0, 1, 2):
            s = MedoidsChoiceMinPredictionError(md, DistanceByDTW(), 'outputs', sw.MODELS[model][0], 2, 'MSE')
            hist, real = {}, {}
            for p in points + points[::2]:
                what = '{} {} threshold {} point {}'.format(spec['cfg'], clusterings, th, p)
                if not step(ctx, s, suite, error_penalties(suite, refs, p), Point(*p), th, real, hist, what):
                    ctx.outcome('none', th, p)
                ctx.state(spec['cfg'], th, sorted(hist.items()))


_turned = []


def run_others(spec, ctx):
    '''Several strategies over the same suite, used in turns: other data, other test lengths and other errors.'''
    name, scaled, model = spec['cfg']
    if not _turned:
        _turned.append(sw.World(ctx, sw.dataset()[::-1, :, ::-1].copy()))
    clusterings = [('k', 2, 0), ('k', 3, 1)]
    parts = []
    for w in (sw.world(ctx), _turned[0].use()):
        w.use()
        for tp, err in ((2, 'MSE'), (3, 'MSE'), (2, 'sMAPE')):
            suite, refs = error_suite(w, name, scaled, model, clusterings, tp, err)
            parts.append((w, suite, refs, tp, err))
    for th in (0, 2):
        used = []
        for w, suite, refs, tp, err in parts:
            os.chdir(w.dir)
            s = MedoidsChoiceMinPredictionError(w.region(name, scaled), DistanceByDTW(), 'outputs', sw.MODELS[model][0], tp, err)
            used.append((s, {}, {}))
        md = parts[0][0].region(name, scaled)
        for order in (parts, parts[::-1]):
            for p in lib.points(md.x_len, md.y_len):
                for part in order:
                    w, suite, refs, tp, err = part
                    s, hist, real = used[[q is part for q in parts].index(True)]
                    os.chdir(w.dir)
                    what = '{} {} {} of data {} threshold {} point {} in turns'.format(spec['cfg'], tp, err, parts.index(part) // 3, th, p)
                    step(ctx, s, suite, error_penalties(suite, refs, p), Point(*p), th, real, hist, what)
        ctx.state('others', spec['cfg'], th)


def write_analysis(suite_obj, suite, md, d):
    path = suite_obj.analysis_csv_filepath('outputs', md, d)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        wr = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
        wr.writerow(['clustering', 'total_cost', 'medoids'])
        for name, ms in suite.items():
            wr.writerow([name, '1.000', ''.join('({},{}) '.format(m.x, m.y) for m in ms)])


def fields(name):
    _, k, seed, mode = name.split('_')
    return ['kmedoids', k[1:], seed[4:], mode]


def check_rows(ctx, rows, md, st, suite, penalties_of, th, hist_rows, what):
    '''rows: region, type, k, seed, mode, index, x, y, series. Each row must come from a point that is not a medoid.'''
    r = md.region
    taken = {(m.x - r.x1, m.y - r.y1) for ms in suite.values() for m in ms}
    free = [p for p in lib.points(md.x_len, md.y_len) if p not in taken]
    series = {tuple('{:0.3f}'.format(v) for v in st[:, p[0], p[1]]): p for p in lib.points(md.x_len, md.y_len)}
    assert len(series) == md.x_len * md.y_len
    used, hist = [], {}
    for row in rows:
        p = series.get(tuple(row[8:]))
        ctx.check(p is not None, '{}: the series of a row is not of a point of the region'.format(what))
        ctx.check(p in free, '{}: random point {} is a medoid'.format(what, p))
        used.append(p)
        want = expected_choice(suite, penalties_of(p), th, hist)
        ctx.check(want is not None, what + ': no medoid left')
        hist[want] = hist.get(want, 0) + 1
        m = suite[want[0]][want[1]]
        ctx.check(row[:8] == [repr(md)] + fields(want[0]) + [str(want[1]), str(m.x), str(m.y)],
                  '{}: row {} for point {} instead of {} {}'.format(what, row[:8], p, want, m))
        ctx.step()
    ctx.check(len(set(used)) == len(used), what + ': repeated random points')
    ctx.check({(h[0], int(h[1])): int(h[2]) for h in hist_rows} == hist and len(hist_rows) == len(hist), what + ': histogram file')
    return used


def check_header(ctx, head, t):
    ctx.check(head == ['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y'] +
              ['s{}'.format(i) for i in range(t)], 'header {}'.format(head))


def check_medoid_file(ctx, path, md, st, suite):
    head, rows = read(path)
    check_header(ctx, head, len(st))
    want = []
    for name, ms in suite.items():
        for i, m in enumerate(ms):
            want.append([repr(md)] + fields(name) + [str(i), str(m.x), str(m.y)] +
                        ['{:0.3f}'.format(v) for v in st[:, m.x - md.region.x1, m.y - md.region.y1]])
    ctx.check(rows == want, 'medoid series file: {} instead of {}'.format(rows, want))


def run_csv(spec, ctx):
    i = spec['i']
    region = REGIONS[i % 3]
    md, d, mat = small_world(ctx, region, ('plain', 'ties')[i % 2], scaled=bool(i // 3 % 2))
    st = md.create_instance().as_numpy
    suite = suites(region, md.y_len, md.x_len)[i % (md.x_len * md.y_len)]
    so = ClusteringSuite('s{}'.format(i), 'kmedoids', k=(1, 2, 3), random_seed=(0, 3))
    write_analysis(so, suite, md, d)
    n_free = md.x_len * md.y_len - len({m for ms in suite.values() for m in ms})
    args = {'model_params': sw.StubParams(1), 'test_len': 2, 'error_type': 'MSE'}

    def pens(p):
        return {(name, j): mat[p[0] * md.y_len + p[1], (m.x - region.x1) * md.y_len + m.y - region.y1]
                for name, ms in suite.items() for j, m in enumerate(ms)}

    for count in range(1, n_free + 1):
        for seed in (0, 1, 7):
            for th in (0, 1, 2):
                t = TrainDataWithRandomPoints(md, d)
                capacity = th * 6
                what = 'region {} suite {} count {} seed {} threshold {}'.format(region, suite, count, seed, th)
                call = lambda: t.evaluate_score_of_random_points(so, count, seed, 'min_distance', th, 'outputs', **args)
                if th and count > capacity:
                    ctx.check(raises(call, ValueError), what + ': not enough medoids')
                    continue
                call()
                files = MedoidsChoiceMinDistance(md, d).csv_filepaths('outputs', so, count, seed, threshold=th)
                head, rows = read(files[0])
                check_header(ctx, head, len(st))
                ctx.check(len(rows) == count, what + ': number of rows')
                used = check_rows(ctx, rows, md, st, suite, pens, th, read(files[1])[1], what)
                ctx.outcome(i, count, seed, used)
                if count == n_free:
                    ctx.state('all', i, th)
                # the same request gives the same points
                call()
                ctx.check(read(files[0]) == (head, rows), what + ': not repeatable')
    ctx.check(raises(lambda: TrainDataWithRandomPoints(md, d).evaluate_score_of_random_points(
        so, n_free + 1, 0, 'min_distance', 0, 'outputs', **args)), 'more random points than available')
    MedoidSeriesFormatter(md, d, so).produce_csv('outputs')
    check_medoid_file(ctx, so.medoid_series_csv_filepath('outputs', md, d), md, st, suite)
    ctx.state('csv', i)


def run_random(spec, ctx):
    """Regions of many points: all of them, except medoids of clusterings with up to three digits."""
    x, y = spec['shape']
    n = x * y
    ctx.fresh_dir()
    x1, y1 = 3, 7
    i = np.arange((x + 5) * (y + 9)).reshape(x + 5, y + 9)
    data = 280 + 0.25 * i + np.arange(4)[:, None, None] * ((i * 53) % 307) * 0.125
    fx.write_raw(data)
    region = Region(x1, x1 + x, y1, y1 + y)
    md = SpatioTemporalRegionMetadata('r', region, 2015, 2015, 1, scaled=False)
    j = np.arange(n)
    mat = np.abs(np.subtract.outer((j * 37) % 311, (j * 37) % 311)).astype(float) + 0.001 * np.abs(np.subtract.outer(j, j))
    np.save(md.distances_filename, mat)
    d = DistanceByDTW()
    d.load_distance_matrix_2d(md.distances_filename, md.region)
    st = md.create_instance().as_numpy
    pts = lib.points(x, y)
    at = lambda k: Point(pts[k % n][0] + x1, pts[k % n][1] + y1)
    # a few medoids, none of them in the first column, and many medoids
    for few in (True, False):
        names = {'kmedoids_k2_seed0_lite': [at(1), at(y + 2)]} if few else \
            {'kmedoids_k120_seed101_lite': [at(k) for k in range(0, 2 * 120, 2)] if n > 240 else [at(k) for k in range(min(120, n - 5))],
             'kmedoids_k3_seed0_lite': [at(5), at(3), at(n - 1)]}
        if not few and n < 125:
            names = {'kmedoids_k60_seed101_lite': [at(k) for k in range(60)]}
        so = ClusteringSuite('s', 'kmedoids', k=(2,), random_seed=(0,))
        write_analysis(so, names, md, d)
        free = n - len({(m.x, m.y) for ms in names.values() for m in ms})
        table = {(name, c): mat[:, (m.x - x1) * y + m.y - y1] for name, ms in names.items() for c, m in enumerate(ms)}
        for seed in (0, 4):
            for th in (0, 2) if not few else (0,):
                t = TrainDataWithRandomPoints(md, d)
                count = free if not th else min(free, 50)
                t.evaluate_score_of_random_points(so, count, seed, 'min_distance', th, 'outputs',
                                                  model_params=sw.StubParams(1), test_len=2, error_type='MSE')
                files = MedoidsChoiceMinDistance(md, d).csv_filepaths('outputs', so, count, seed, threshold=th)
                head, rows = read(files[0])
                what = '{} few {} seed {} threshold {}'.format(spec, few, seed, th)
                ctx.check(len(rows) == count, what + ': number of rows')
                check_rows(ctx, rows, md, st, names, lambda p: {s: v[p[0] * y + p[1]] for s, v in table.items()}, th, read(files[1])[1], what)
                ctx.state('random', spec['shape'], few, seed, th)
        MedoidSeriesFormatter(md, d, so).produce_csv('outputs')
        check_medoid_file(ctx, so.medoid_series_csv_filepath('outputs', md, d), md, st, names)


def run_csv_error(spec, ctx):
    w = sw.world(ctx)
    name, scaled = ('wide', 'tall')[spec['i']], bool(spec['i'])
    suite, refs = error_suite(w, name, scaled, 'stub', [('k', 2, 0), ('k', 3, 1)])
    md = w.region(name, scaled)
    st = md.create_instance().as_numpy
    so = ClusteringSuite('e', 'kmedoids', k=(2, 3), random_seed=(0, 1))
    d = DistanceByDTW()
    d.load_distance_matrix_2d(md.distances_filename, md.region)
    write_analysis(so, suite, md, d)
    args = {'model_params': sw.StubParams(1), 'test_len': 2, 'error_type': 'MSE'}
    n_free = md.x_len * md.y_len - len({m for ms in suite.values() for m in ms})
    for count in range(1, n_free + 1):
        t = TrainDataWithRandomPoints(md, d)
        t.evaluate_score_of_random_points(so, count, 4, 'min_error', 0, 'outputs', **args)
        files = MedoidsChoiceMinPredictionError(md, d, 'outputs', **args).csv_filepaths('outputs', so, count, 4)
        head, rows = read(files[0])
        check_header(ctx, head, len(st))
        ctx.check(len(rows) == count, 'number of rows')
        check_rows(ctx, rows, md, st, suite, lambda p: error_penalties(suite, refs, p), 0, read(files[1])[1],
                   'errors {} count {}'.format(name, count))
        ctx.state('csv_error', name, count)


def run_program(spec, ctx):
    ctx.fresh_dir()
    big = np.zeros((365, 50, 95))
    big[:, 43:, 85:] = varied(365, 7, 10)
    fx.write_raw(big)
    md = predefined_regions()[spec['region']]
    st = md.create_instance().as_numpy
    i = np.arange(70)
    mat = np.abs(np.subtract.outer(i * 7 % 53, i * 7 % 53)).astype(float) + 0.01 * np.abs(np.subtract.outer(i, i))
    np.save(md.distances_filename, mat)
    args = argparse.Namespace(region=spec['region'], clustering_type='kmedoids', clustering='kmedoids',
                              clustering_suite='quick', silhouette=False, variance=False, random=20, bins='auto',
                              log='WARN', random_seed=3, criterion='min_distance', threshold=0, auto_arima='simple',
                              tp=8, error='sMAPE')
    partition_analysis.analyze_suite(argparse.Namespace(**dict(vars(args), random=None)), logging.getLogger('mc'))
    so = get_suite('kmedoids', 'quick')
    so.identifier = 'quick'
    d = DistanceByDTW()
    suite = so.retrieve_suite_result_csv('outputs', md, d)

    def pens(p):
        return {(name, j): mat[p[0] * 10 + p[1], (m.x - 43) * 10 + m.y - 85]
                for name, ms in suite.items() for j, m in enumerate(ms)}

    for th in (0, 9):
        args.threshold = th
        extraction_lstm.analyze_suite(args, logging.getLogger('mc'))
        files = MedoidsChoiceMinDistance(md, d).csv_filepaths('outputs', so, 20, 3, threshold=th)
        head, rows = read(files[0])
        check_header(ctx, head, 365)
        ctx.check(len(rows) == 20, 'number of rows')
        check_rows(ctx, rows, md, st, suite, pens, th, read(files[1])[1], '{} threshold {}'.format(spec['region'], th))
        check_medoid_file(ctx, so.medoid_series_csv_filepath('outputs', md, d), md, st, suite)
        ctx.state('program', spec['region'], th)
