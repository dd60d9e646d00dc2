'''
C31 queries answered through a classifier. For every assignment of medoid labels of several stored clusterings to
the points of small rectangles, the classifier is asked about the last values of each point, and the result gives
each point the forecast of the model stored for the medoid of its label, in the real values of the point, with the
error against its own test series. Histories of queries on one solver (rectangles, other regions to classify,
output directories, changing labels) are answered as by a new solver, and stored where asked.
'''
import csv
import itertools
import os
import sys
import types

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region

from mc import fx, lib
from mc import solverworld as sw
from mc.core import ident, same
from mc.checks.c27 import ints, listing, near, numbers, rows

TECHNIQUE = ('exhaustive enumeration of label assignments and query histories over stored solvers, with a controlled '
             'network in place of the neural one, vs a reference solver')
LEVEL_NOTE = ('5 labels of 3 stored clusterings, all assignments to rectangles of up to 4 points (thorough 6 with 3 labels); plain '
              'and scaled regions, 4 models, test lengths 1-3; all histories of 2 queries (thorough 3) of a menu of 9. The network '
              'is a table from normalised series to labels (the trained weights are not in the repository).')
CASE_TIMEOUT = 900

LABELS = ['3-1-2', '2-0-0', '2-3-1', '2-0-1', '3-1-0']
CLUSTERINGS = [(3, 1), (2, 0), (2, 3)]
WINDOW = 5
MANY = [(12, 1), (13, 21), (2, 1), (2, 11)]
MANY_LABELS = ['{}-{}-{}'.format(k, s, i) for k, s in MANY for i in range(k)]
CONFIGS = [('wide', False, 2, 'MSE', 'stub'), ('wide', True, 2, 'MASE', 'stub'), ('tall', True, 1, 'sMAPE', 'failing'),
           ('tall', False, 3, 'MASE', 'failing'), ('all', True, 3, 'MSE', 'stub2'), ('wide', True, 3, 'sMAPE', 'mean'),
           ('row', False, 1, 'MSE', 'mean'), ('all', False, 2, 'sMAPE', 'stub')]
RECTS = [(0, 1, 0, 1), (1, 2, 1, 3), (0, 2, 2, 3), (0, 2, 1, 3), (0, 1, 0, 3), (1, 3, 0, 2)]
HOMES = ['outputs', 'home']
# rectangle, region to classify (None: the own one), output directory, labels (offset in the list)
MENU = [((0, 1, 0, 1), None, 'outputs', 0), ((0, 1, 0, 1), None, 'home', 1), ((1, 2, 1, 3), None, 'home', 2),
        ((0, 2, 0, 2), None, 'home', 3), ((0, 1, 0, 1), 'all', 'home', 1), ((1, 2, 0, 2), 'tall', 'outputs', 0),
        ((1, 2, 0, 2), 'tall', 'home', 4), ((0, 2, 1, 2), 'all', 'home', 2), ((0, 2, 1, 2), None, 'home', 2)]


def cases(tier):
    thorough = tier != 'quick'
    for n in range(1, 6):
        yield {'m': 'net', 'n': n}
    for i, c in enumerate(CONFIGS):
        for r in RECTS:
            if r[1] <= 1 + (c[0] != 'row') + (c[0] in ('tall', 'all')) and r[3] <= (2 if c[0] == 'tall' else 3):
                n = (r[1] - r[0]) * (r[3] - r[2])
                if n == 4 and not thorough and i % 4:
                    continue
                for first in range(len(LABELS) if n > 1 else 1):
                    yield {'m': 'labels', 'cfg': c, 'rect': r, 'first': first if n > 1 else None}
    if thorough:
        for a in range(3):
            yield {'m': 'labels', 'cfg': CONFIGS[4], 'rect': (1, 3, 1, 4), 'first': a, 'few': True}
            yield {'m': 'labels', 'cfg': CONFIGS[0], 'rect': (0, 2, 0, 3), 'first': a, 'few': True}
    for i in range(len(CONFIGS[:2])):
        for a in range(len(MENU)):
            yield {'m': 'hist', 'cfg': CONFIGS[i], 'a': a, 'len': 3 if thorough else 2}
    for i, c in enumerate(CONFIGS):
        for window in range(2, sw.T + 1):
            yield {'m': 'window', 'cfg': c, 'window': window}
    yield {'m': 'files'}
    for i in (4, 7):
        yield {'m': 'many', 'cfg': CONFIGS[i]}


class Net:
    '''The network that replaces the neural one: a table from series to the position of a label.'''
    answer = None           # series of one window -> position, or None
    labels = 0
    loaded = []

    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        return lambda *args, **kwargs: None

    def load_weights(self, path, *args, **kwargs):
        Net.loaded.append(str(path))

    def predict(self, x, *args, **kwargs):
        x = np.array(x, dtype=float)
        out = np.full((len(x), Net.labels), 0.01)
        for i, s in enumerate(x.reshape(len(x), -1)):
            out[i, Net.answer(s)] = 0.9
        return out

    __call__ = predict


class Anything:
    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Net if name in ('Sequential', 'Model') else (lambda *a, **k: Net()) if name == 'load_model' else Anything


def fake_keras():
    for name in ('keras', 'keras.models', 'keras.layers', 'keras.optimizers', 'keras.utils', 'keras.callbacks'):
        m = FakeModule(name)
        m.__path__ = []
        sys.modules[name] = m
        if '.' in name:
            setattr(sys.modules['keras'], name.split('.')[1], m)


fake_keras()

from spta.classifier.dnn import ClassifierDNN, ClassifierDNNParams      # noqa: E402
from spta.classifier.model import SolverFromClassifier      # noqa: E402
from spta.clustering.kmedoids import kmedoids_metadata_generator      # noqa: E402


def l1(series):
    s = np.array(series, dtype=float)
    return s / np.abs(s).sum()


class Asked:
    '''Answers with the label of the point that has the series, and remembers what was asked.'''

    def __init__(self, table, where):
        self.table, self.asked, self.where = table, [], where

    def __call__(self, s):
        for key, series, label in self.table:
            if len(s) == len(series) and np.allclose(s, l1(series), rtol=0, atol=1e-9):
                self.asked.append(key)
                return self.where.index(label)
        raise AssertionError('the classifier is asked about a series of no point of the query: {}'.format(s))


def write_labels(path, names):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        w = csv.writer(f)
        w.writerow(['', 'label'])
        for i, n in enumerate(names):
            w.writerow([i * 10 + 3, n])


class Setup:
    def __init__(self, w, cfg, window=WINDOW, clusterings=CLUSTERINGS, labels=LABELS):
        self.window, self.labels = window, labels
        self.ks, self.seeds = sorted({k for k, _ in clusterings}), sorted({s for _, s in clusterings} | {3})
        self.w, self.cfg = w, cfg
        name, scaled, tp, err, model = cfg
        self.expected = {}
        for k, seed in clusterings:
            c = (name, scaled, ('k', k, seed), tp, err, model)
            solver = w.train(c)
            solver.save()
            e = sw.Expected(w.data, c, None, fx.pts(solver.partition.medoids))
            self.expected[(k, seed)] = e
        self.e = e
        write_labels('lstm/labels.csv', labels)
        Net.labels = len(labels)

    def solver(self):
        name, scaled, tp, err, model = self.cfg
        md = self.w.region(name, scaled)
        params, trainer = sw.MODELS[model]
        suite = kmedoids_metadata_generator(k_values=self.ks, seed_values=self.seeds)
        suite.identifier = 'quick'
        return SolverFromClassifier(region_metadata=md, distance_measure=DistanceByDTW(), clustering_suite=suite,
                                    model_trainer=trainer(params, md.x_len, md.y_len), model_params=params,
                                    classifier_params=ClassifierDNNParams('net', 'lstm/model.h5', 'lstm/labels.csv', self.window),
                                    test_len=tp, error_type=err)

    def visible(self, region):
        r = sw.REGIONS[region]
        a = self.w.data[:, r.x1:r.x2, r.y1:r.y2].astype(float)
        if self.cfg[1]:
            lo, hi = a.min(axis=0), a.max(axis=0)
            a = (a - lo) / (hi - lo)
        return a

    def query(self, ctx, solver, rect, labels, other=None, home='outputs', what=''):
        x1, x2, y1, y2 = rect
        pts = lib.points(x2 - x1, y2 - y1)
        by_point = dict(zip(pts, labels))
        seen = self.visible(other or self.cfg[0])
        table = [(p, seen[-self.window:, p[0] + x1, p[1] + y1], by_point[p]) for p in pts]
        asked = Asked(table, self.labels)
        Net.answer = asked
        out = None if other is None else self.w.region(other, self.cfg[1])
        res = solver.predict(Region(x1, x2, y1, y2), self.window, out_of_sample_region=out, output_home=home)
        ctx.check(set(asked.asked) == set(pts), '{}: the classifier was asked about {}'.format(what, asked.asked))
        self.check(ctx, res, rect, by_point, other, what)
        ctx.step()
        return res, by_point

    def reference(self, p, label):
        '''Forecast and error of the point of the region with the model of the label.'''
        k, seed, i = [int(v) for v in label.split('-')]
        e = self.expected[(k, seed)]
        f = e.raw_forecast(e.medoids[i], e.tp, False)
        if e.scaled:
            f = f * (e.hi[p] - e.lo[p]) + e.lo[p]
        return f, sw.c23.metric(e.err, f, e.test(p), e.real[:-e.tp, p[0], p[1]])

    def check(self, ctx, res, rect, by_point, other, what):
        x1, x2, y1, y2 = rect
        ctx.check(fx.pts(res) == sorted(by_point), what + ': points of the result')
        for q, label in by_point.items():
            p = (q[0] + x1, q[1] + y1)
            f, error = self.reference(p, label)
            got = res.prediction_forecast_at(Point(*q))
            ctx.check(same(got, f), '{}: forecast at {} (label {}) is {} instead of {}'.format(what, p, label, got, f))
            if other is not None:
                continue            # which observations are compared for another region is not documented
            got = res.prediction_error_at(Point(*q))
            ctx.check(same(got, error, rtol=1e-7), '{}: error at {} (label {}) is {} instead of {}'.format(what, p, label, got, error))
        text = {q: '\n'.join(res.lines_for_point(Point(*q))) for q in by_point}
        import re
        for q, label in by_point.items():
            p = (q[0] + x1, q[1] + y1)
            m = re.search(r'Point: (.*) \(label (\S+)\)', text[q])
            pos = (p[0] + self.e.r.x1, p[1] + self.e.r.y1)
            ctx.check(m and tuple(ints(m.group(1))) == pos and m.group(2) == label, '{}: lines of {}: {}'.format(what, p, text[q]))
            m = re.search(r'Test:\s*\[([^]]*)\]', text[q])
            if other is None:
                ctx.check(m and near(numbers(m.group(1)), self.e.test(p)), '{}: test series of {}: {}'.format(what, p, text[q]))

    def check_files(self, ctx, files, rect, by_point, what):
        tables = [rows(f) for f in files]
        res = [t for t in tables if 'forecast_series' in t[0]]
        summ = [t for t in tables if 'forecast_series' not in t[0]]
        ctx.check(len(res) == 1 and len(summ) == 1, '{}: files {}'.format(what, files))
        head, body = res[0][0], res[0][1:]
        ctx.check(len(body) == len(by_point), what + ': rows of the CSV file')
        for row, q in zip(body, sorted(by_point)):
            p = (q[0] + rect[0], q[1] + rect[2])
            ctx.check(len(row) == len(head), '{}: row {}'.format(what, row))
            d = dict(zip(head, row))
            f, error = self.reference(p, by_point[q])
            ctx.check(tuple(ints(d['Point'])) == (p[0] + self.e.r.x1, p[1] + self.e.r.y1), what + ': position in the CSV file')
            ctx.check(d['label'] == by_point[q], what + ': label in the CSV file')
            ctx.check(near([float(d['error'])], [error]), what + ': error in the CSV file')
            ctx.check(near(numbers(d['forecast_series']), f), '{}: forecast in the CSV file {}'.format(what, row))
            ctx.check(near(numbers(d['test_series']), self.e.test(p)), '{}: test series in the CSV file {}'.format(what, row))
        ctx.check(len(summ[0]) == 2, what + ': summary')
        d = dict(zip(*summ[0]))
        errs = [self.reference((q[0] + rect[0], q[1] + rect[2]), lab)[1] for q, lab in by_point.items()]
        errs = [v for v in errs if v == v]
        mse = sum(v * v for v in errs) / len(errs) if errs else lib.NAN
        ctx.check('kmedoids' in d['suite'] and 'quick' in d['suite'], what + ': suite of the summary')
        ctx.check(int(d['tp']) == self.e.tp and near([float(d['mse'])], [mse]), '{}: summary {}'.format(what, d))


def cfg_of(spec):
    return tuple(spec['cfg'])


def quiet(fn):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def run(spec, ctx):
    quiet(lambda: run_(spec, ctx))


def run_(spec, ctx):
    m = spec['m']
    if m == 'net':
        ctx.fresh_dir()
        n = spec['n']
        names = ['{}-{}-{}'.format(9 - i, (i * 7) % 4, (i * 3) % 5) for i in range(n)]
        for perm in itertools.permutations(names) if n < 4 else [names, names[::-1]]:
            perm = list(perm)
            write_labels('lstm/labels.csv', perm)
            Net.labels, Net.loaded = n, []
            net = ClassifierDNN(ClassifierDNNParams('net', 'lstm/weights.h5', 'lstm/labels.csv', 3))
            ctx.check('lstm/weights.h5' in Net.loaded, 'weights loaded from {}'.format(Net.loaded))
            for series in itertools.product([0.5, 2., 7.], repeat=3):
                for scale in (1., 8.):
                    for i in range(n):
                        asked = Asked([(0, series, perm[i])], perm)
                        Net.answer = asked
                        s = np.array(series) * scale
                        before = s.copy()
                        got = net.label_for_series(s)
                        ctx.check(str(got) == perm[i], 'label {} instead of {}'.format(got, perm[i]))
                        ctx.check(ident(s, before), 'the series was changed')
                        ctx.step()
            ctx.state('net', tuple(perm))
        return
    w = sw.world(ctx)
    if m == 'files':
        # all the files of different queries and solvers are different and in the directory of the query
        seen = {}
        for cfg in CONFIGS:
            for tp, err, model in itertools.product((1, 2), ('MSE', 'MASE'), ('stub', 'mean')):
                if cfg[:2] not in [('wide', True), ('wide', False), ('tall', True)]:
                    continue
                s = Setup(w, cfg[:2] + (tp, err, model))
                solver = s.solver()
                for rect in ((0, 1, 0, 1), (0, 1, 0, 2), (1, 2, 0, 1)):
                    for home in HOMES:
                        key = (cfg[:2], tp, err, model, rect, home)
                        if key in seen:
                            continue
                        labels = [LABELS[(i + len(seen)) % 5] for i in range((rect[1] - rect[0]) * (rect[3] - rect[2]))]
                        what = 'stored {}'.format(key)
                        before = {f: open(f).read() for h in HOMES for f in listing(h)}
                        res, by_point = s.query(ctx, solver, rect, labels, None, home, what)
                        res.save_as_csv()
                        new = [f for h in HOMES for f in listing(h) if f not in before]
                        ctx.check(all(open(f).read() == t for f, t in before.items()), what + ': another file was changed')
                        ctx.check(all(f.split(os.sep)[0] == home for f in new), '{}: stored as {}'.format(what, new))
                        s.check_files(ctx, new, rect, by_point, what)
                        seen[key] = new
        ctx.state('files', len(seen))
        return
    if m == 'many':
        # more than ten clusters and seeds of several digits: every label at every point of a rectangle
        s = Setup(w, cfg_of(spec), WINDOW, MANY, MANY_LABELS)
        solver = s.solver()
        for off in range(len(MANY_LABELS)):
            labels = [MANY_LABELS[(off + j) % len(MANY_LABELS)] for j in range(4)]
            s.query(ctx, solver, (1, 3, 2, 4), labels, None, 'outputs', '{} labels {}'.format(s.cfg, labels))
            ctx.state(s.cfg, labels)
        return
    s = Setup(w, cfg_of(spec), spec.get('window', WINDOW))
    if m == 'window':
        # past samples up to the whole series
        solver = s.solver()
        for rect in RECTS[:2] + [(0, 1, 1, 3)]:
            n = (rect[1] - rect[0]) * (rect[3] - rect[2])
            if rect[1] > s.e.x or rect[3] > s.e.y or s.window < 3 and n > 1:
                continue
            for off in range(len(LABELS)):
                labels = [LABELS[(off + 2 * j) % 5] for j in range(n)]
                s.query(ctx, solver, rect, labels, None, 'outputs', '{} window {} rect {} labels {}'.format(s.cfg, s.window, rect, labels))
                ctx.state(s.cfg, s.window, rect, labels)
        return
    if m == 'labels':
        rect = tuple(spec['rect'])
        n = (rect[1] - rect[0]) * (rect[3] - rect[2])
        solver = s.solver()
        names = [LABELS[0], LABELS[3], LABELS[2]] if spec.get('few') else LABELS
        for lab in itertools.product(names, repeat=n):
            if spec['first'] is not None and lab[0] != names[spec['first']]:
                continue
            s.query(ctx, solver, rect, lab, None, 'outputs', '{} rect {} labels {}'.format(s.cfg, rect, lab))
            ctx.state(s.cfg, rect, lab)
        s.query(ctx, s.solver(), rect, lab, None, 'outputs', '{} new solver'.format(s.cfg))
    else:
        for rest in itertools.product(range(len(MENU)), repeat=spec['len'] - 1):
            hist = (spec['a'],) + rest
            solver = s.solver()
            w.clean_outputs()
            results = []
            for i in hist:
                rect, other, home, off = MENU[i]
                n = (rect[1] - rect[0]) * (rect[3] - rect[2])
                labels = [LABELS[(off + j) % 5] for j in range(n)]
                res, by_point = s.query(ctx, solver, rect, labels, other, home, '{} history {}'.format(s.cfg, hist))
                results.append((i, res, by_point, [res.prediction_forecast_at(p).copy() for p in res]))
            for i, res, by_point, before in results:
                rect, other, home, _ = MENU[i]
                ctx.check(all(ident(a, res.prediction_forecast_at(p)) for a, p in zip(before, list(res))),
                          '{}: a later query changed an earlier result'.format(hist))
                s.check(ctx, res, rect, by_point, other, '{} after {}'.format(s.cfg, hist))
                old = {f: os.stat(f).st_mtime_ns for h in HOMES for f in listing(h)}
                res.save_as_csv()
                new = [f for h in HOMES for f in listing(h) if old.get(f) != os.stat(f).st_mtime_ns]
                ctx.check(new and all(f.split(os.sep)[0] == home for f in new), '{}: stored as {}'.format(hist, new))
                if other is None:
                    s.check_files(ctx, new, rect, by_point, '{} after {}'.format(s.cfg, hist))
            ctx.state(s.cfg, hist)
