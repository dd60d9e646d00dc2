'''
C45 the program of the classifier solver. Every history of requests given to the program (region, experiment, classifier,
rectangle, region to classify, error type, number of samples), over solvers stored by the training program: each point
gets the label that the requested classifier gives to the last 15 values of the point in the requested region, and the
forecast and error of the model stored for the medoid of that label with the requested error type and number of samples;
requests for solvers that were not trained fail.
'''
import itertools
import os
import re

import numpy as np

from mc import lib
from mc import programs as pg
from mc import solverworld as sw
from mc.checks import c27, c31, c37
from mc.checks.c27 import ints, near, near_text, numbers, rows

TECHNIQUE = ('exhaustive enumeration of requests and histories of program invocations over real storage, with controlled networks in '
             'place of the neural ones, vs a reference')
LEVEL_NOTE = ('The program runs in process over regions of up to 2x3 or 1x12 points of a 12x13 dataset of 26 samples; all rectangles of 9 '
              'configurations x 2 classifiers x 2 regions to classify; all ordered pairs (thorough triples) of 11 requests; each '
              'omitted option. The networks are tables, the ARIMA libraries deterministic stand-ins.')
CASE_TIMEOUT = 600

PROGRAM = 'experiments.classifier.solver_dnn'
WINDOW = 15
CLUSTERINGS = [('k', 2, 0), ('k', 3, 1), ('k', 2, 1)]
LABELS = ['3-1-2', '2-0-0', '2-1-1', '3-1-0', '2-0-1', '2-1-0', '3-1-1']
# region, experiment, test samples, error type
CONFIGS = [('wide', 'simple_kmedoids_quick', 3, 'MSE'), ('wide_scaled', 'simple_kmedoids_quick', 3, 'sMAPE'),
           ('tall', 'simple_kmedoids_quick', 2, 'MASE'), ('tall_scaled', 'simple_kmedoids_all', 5, 'MASE'),
           ('wide', 'simple_kmedoids_all', 8, 'sMAPE'), ('wide', 'simple_kmedoids_all', 3, 'MSE'),
           ('wide', 'simple_kmedoids_quick', 17, 'MSE'), ('tall_scaled', 'simple_kmedoids_all', 1, 'sMAPE'),
           ('long', 'simple_kmedoids_quick', 2, 'MSE')]
# configuration, classifier, region to classify, rectangle
REQUESTS = [(0, 'dnn', None, (0, 1, 0, 2)), (0, 'dnnRV', None, (0, 1, 0, 2)), (0, 'dnn', 'tall', (0, 1, 0, 2)),
            (0, 'dnn', None, (1, 2, 1, 3)), (1, 'dnn', None, (0, 1, 0, 2)), (2, 'dnn', None, (0, 1, 0, 2)),
            (2, 'dnnRV', 'wide', (1, 2, 0, 2)), (3, 'dnn', None, (0, 2, 0, 1)), (4, 'dnn', 'wide_scaled', (0, 1, 0, 2)),
            (5, 'dnn', None, (0, 1, 0, 2)), (6, 'dnnRV', 'tall', (0, 2, 0, 1))]


def cases(tier):
    for i in range(len(CONFIGS)):
        for which in ('dnn', 'dnnRV'):
            for other in (None, 'tall' if CONFIGS[i][0] != 'tall' else 'wide_scaled'):
                yield {'m': 'one', 'c': i, 'which': which, 'other': other}
    for a, b in itertools.product(range(len(REQUESTS)), repeat=2):
        yield {'m': 'hist', 'h': (a, b)}
        if tier != 'quick':
            for c in range(len(REQUESTS)):
                yield {'m': 'hist', 'h': (a, b, c)}
    yield {'m': 'defaults'}
    yield {'m': 'refused'}


def train(w, c):
    region, _, tp, err = CONFIGS[c]
    for cl in CLUSTERINGS:
        c37.train(w, (('arima',), region, cl, tp, err))


class Setup:
    def __init__(self, w):
        self.w = w
        c31.write_labels('lstm/labels_k-seed-ci.csv', LABELS)
        c31.Net.labels = len(LABELS)
        self.owner = {}

    def visible(self, region):
        return pg.Reference(self.w.data, region, 1, 'MSE', ('arima',)).vis

    def label_of(self, which, key):
        '''The label for a point (of the region to classify) of either network.'''
        (x, y) = key
        return LABELS[(x * 3 + y * 5 + x * y) % 7 if which == 'dnn' else (x * 2 + y + 3) % 7]

    def references(self, c):
        region, _, tp, err = CONFIGS[c]
        return {cl: c37.reference(self.w, (('arima',), region, cl, tp, err)) for cl in CLUSTERINGS}

    def answer(self, region, rect):
        seen = self.visible(region)
        asked = []

        def fn(series):
            which = {'lstm/model_lstm_wSW_label_k-seed-ci.h5': 'dnn', 'lstm/model_lstmRV_wSW_label_k-seed-ci.h5': 'dnnRV'}[c31.Net.loaded[-1]]
            for p in lib.points(rect[1] - rect[0], rect[3] - rect[2]):
                q = (p[0] + rect[0], p[1] + rect[2])
                s = seen[-WINDOW:, q[0], q[1]]
                if len(series) == WINDOW and np.allclose(series, c31.l1(s), rtol=0, atol=1e-9):
                    asked.append((which, q))
                    return LABELS.index(self.label_of(which, q))
            raise AssertionError('the classifier is asked about a series of no point of the request')
        c31.Net.answer = fn
        return asked

    def request(self, ctx, c, which, other, rect, what, omit=()):
        region, experiment, tp, err = CONFIGS[c]
        asked = self.answer(other or region, rect)
        c31.Net.loaded = []
        args = [region, experiment, which] + list(rect)
        if other:
            args += ['--out-of-sample', other]
        if 'error' not in omit:
            args += ['--error', err]
        if 'tf' not in omit:
            args += ['--tf', tp]
        args += ['--log', 'WARN'] if 'log' not in omit else []
        before = {f: open(f).read() for f in c27.listing('outputs')}
        text = pg.program(self.w, PROGRAM, args)
        points = lib.points(rect[1] - rect[0], rect[3] - rect[2])
        ctx.check(sorted(set(q for _, q in asked)) == [(p[0] + rect[0], p[1] + rect[2]) for p in points] and
                  all(a == which for a, _ in asked), '{}: classified {}'.format(what, asked))
        blocks = re.split(r'^\*+\n', text, flags=re.M)[1:]
        ctx.check(len(blocks) == len(points), '{}: {} points printed'.format(what, len(blocks)))
        refs = self.references(c)
        expected = []
        for p, block in zip(points, blocks):
            q = (p[0] + rect[0], p[1] + rect[2])
            label = self.label_of(which, q)
            k, seed, i = [int(v) for v in label.split('-')]
            e = refs[('k', k, seed)]
            raw = e.raw_forecast(e.medoids[i], tp, False)
            pos, forecast, error = (q[0] + e.r.x1, q[1] + e.r.y1), e.descale(q, raw), e.error_of(q, raw)
            expected.append((pos, label, forecast, error, e.test(q)))
            m = re.search(r'Point: (.*) \(label (\S+)\)', block)
            ctx.check(m and tuple(ints(m.group(1))) == pos and m.group(2) == label, '{}: lines of {}: {}'.format(what, pos, block))
            m = re.search(r'Forecast:\s*\[([^]]*)\]', block)
            ctx.check(m and near_text(numbers(m.group(1)), forecast), '{}: forecast at {} (label {}): {}'.format(what, pos, label, block))
            if other is not None:
                continue        # which observations are compared for another region is not documented
            m = re.search(r'Test:\s*\[([^]]*)\]', block)
            ctx.check(m and near_text(numbers(m.group(1)), e.test(q)), '{}: test series at {}: {}'.format(what, pos, block))
            m = re.search(r'Error \((\w+)\): (\S+)', block)
            ctx.check(m and m.group(1) == err and near([float(m.group(2))], [error]), '{}: error at {}: {}'.format(what, pos, block))
        now = {f: open(f).read() for f in c27.listing('outputs')}
        ctx.check(all(f in now for f in before), what + ': stored results vanished')
        files = [f for f in now if now[f] != before.get(f)]
        for f in files:
            ctx.check(self.owner.setdefault(f, (c, rect)) == (c, rect),
                      '{}: replaced the results of {}'.format(what, self.owner[f]))
        if files or other is None:
            self.check_files(ctx, files, len(before) == len(now), expected, c, other, what)
        ctx.step()

    def check_files(self, ctx, files, again, expected, c, other, what):
        region, experiment, tp, err = CONFIGS[c]
        if again and not files:
            return          # the same request as before
        ctx.check(all(f.startswith('outputs/') for f in files), '{}: stored as {}'.format(what, files))
        tables = [rows(f) for f in files]
        results = [t for t in tables if 'forecast_series' in t[0]]
        summaries = [t for t in tables if 'forecast_series' not in t[0]]
        ctx.check(len(results) <= 1 and len(summaries) <= 1 and (again or len(results) == len(summaries) == 1),
                  '{}: files {}'.format(what, files))
        for t in results:
            ctx.check(len(t) == len(expected) + 1, what + ': rows of the CSV file')
            for row, (pos, label, forecast, error, test) in zip(t[1:], expected):
                d = dict(zip(t[0], row))
                ctx.check(tuple(ints(d['Point'])) == pos and d['label'] == label and near(numbers(d['forecast_series']), forecast),
                          '{}: row {}'.format(what, row))
                if other is None:
                    ctx.check(near([float(d['error'])], [error]) and near(numbers(d['test_series']), test), '{}: row {}'.format(what, row))
        for t in summaries:
            ctx.check(len(t) == 2, what + ': summary')
            d = dict(zip(*t))
            ctx.check('kmedoids' in d['suite'] and experiment.split('_')[2] in d['suite'] and int(d['tp']) == tp, '{}: summary {}'.format(what, d))
            if other is None:
                errs = [e[3] for e in expected if e[3] == e[3]]
                mse = sum(v * v for v in errs) / len(errs) if errs else lib.NAN
                ctx.check(near([float(d['mse'])], [mse]), '{}: summary {}'.format(what, d))


def run(spec, ctx):
    w = pg.make_world(ctx)
    s = Setup(w)
    m = spec['m']
    if m == 'one':
        c, which, other = spec['c'], spec['which'], spec['other']
        train(w, c)
        e = s.references(c)[CLUSTERINGS[0]]
        limit = pg.Reference(w.data, other, 1, 'MSE', ('arima',)) if other else e
        for rect in lib.rects(min(e.x, limit.x), min(e.y, limit.y)):
            s.request(ctx, c, which, other, rect, '{} {} {} {}'.format(CONFIGS[c], which, other, rect))
            ctx.state(c, which, other, rect)
    elif m == 'hist':
        trained = set()
        for pos, r in enumerate(spec['h']):
            c, which, other, rect = REQUESTS[r]
            what = 'request {} of {}'.format(pos, [REQUESTS[i] for i in spec['h']])
            solvers = CONFIGS[c][:1] + CONFIGS[c][2:]
            if solvers not in trained:
                c37.refused(ctx, lambda: s.request(ctx, c, which, other, rect, what), what + ' before training')
                train(w, c)
                trained.add(solvers)
            s.request(ctx, c, which, other, rect, what)
            ctx.state(spec['h'][:pos + 1])
        for r in spec['h']:
            c, which, other, rect = REQUESTS[r]
            s.request(ctx, c, which, other, rect, 'again after {}'.format([REQUESTS[i] for i in spec['h']]))
    elif m == 'defaults':
        train(w, 4)
        for n in range(4):
            for omit in itertools.combinations(('error', 'tf', 'log'), n):
                for rect in ((0, 2, 0, 3), (1, 2, 0, 2)):
                    s.request(ctx, 4, 'dnn', None, rect, 'without {}'.format(omit), omit)
                ctx.state(omit)
    else:
        train(w, 0)
        full = ['wide', 'simple_kmedoids_quick', 'dnn', 0, 1, 0, 2, '--error', 'MSE', '--tf', 3]
        s.answer('wide', (0, 1, 0, 2))
        pg.program(w, PROGRAM, full)
        for i in range(7):
            for bad in (['nothing'], []):
                c37.refused(ctx, lambda: pg.program(w, PROGRAM, full[:i] + bad + full[i + 1:]), '{} for {}'.format(bad, full[i]))
                ctx.step()
        for extra in (['--error', 'nothing'], ['--tf', 'x'], ['--out-of-sample', 'nothing'], ['--error', 'MASE'], ['--tf', 2], ['--tf', 4]):
            c37.refused(ctx, lambda: pg.program(w, PROGRAM, full + extra), 'with {}'.format(extra))
            ctx.step()
        # only one of the solvers that are needed is missing
        for gone in CLUSTERINGS:
            w.use()
            c31.write_labels('lstm/labels_k-seed-ci.csv', LABELS)
            for cl in CLUSTERINGS:
                if cl != gone:
                    c37.train(w, (('arima',), 'wide', cl, 3, 'MSE'))
            for rect in lib.rects(2, 3):
                needed = {s.label_of('dnn', (x + rect[0], y + rect[2])).rsplit('-', 1)[0] for x, y in lib.points(rect[1] - rect[0], rect[3] - rect[2])}
                what = 'solver {} is missing, rectangle {}'.format(gone, rect)
                if '{}-{}'.format(gone[1], gone[2]) in needed:
                    s.answer('wide', rect)
                    c37.refused(ctx, lambda: pg.program(w, PROGRAM, full[:3] + list(rect) + full[7:]), what)
                else:
                    s.request(ctx, 0, 'dnn', None, rect, what)
                ctx.state('missing', gone, rect)
        ctx.step()
