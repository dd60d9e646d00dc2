'''
C37 solver programs. Every history of train and predict requests given to the command line programs (automatic ARIMA,
k-NN and mean of past solvers, and the programs with a model at each point), over configurations that differ in one
option: what is printed and stored is the forecast, test series, error and cluster that follow from the dataset and
the options given (or their defaults); a solver is found only by the same options; requests that cannot be served
fail and store neither solvers nor results.
'''
import itertools
import os
import re

from spta.clustering.factory import ClusteringFactory
from spta.distance.dtw import DistanceByDTW

from mc import lib
from mc import programs as pg
from mc import solverworld as sw
from mc.checks import c27

TECHNIQUE = 'exhaustive enumeration of histories of program invocations over real storage vs a reference solver'
LEVEL_NOTE = ('Five programs run in process over domains of up to 2x3, 1x12 and 11x1 points of a 12x13 dataset of 26 samples, with cheap '
              'deterministic stand-ins for the ARIMA libraries; all ordered pairs (thorough triples) of 14 '
              'configurations; all rectangles x forecast lengths 0-2 for each.')
CASE_TIMEOUT = 600

ARIMA, MEAN, KNN = 'experiments.auto_arima.solver', 'experiments.baseline.solver_mean_past', 'experiments.baseline.solver_knn_medoids'
EACH = {'arima': 'experiments.auto_arima.solver_each', 'knn': 'experiments.baseline.solver_knn_each'}
# model, region, clustering, tp, error
BASE = (('arima',), 'wide', ('k', 2, 0), 3, 'MSE')
CONFIGS = [BASE, (('mean', 4),) + BASE[1:], (('mean', 3),) + BASE[1:], (('knn', 2),) + BASE[1:], (('knn', 1),) + BASE[1:],
           BASE[:1] + ('wide_scaled',) + BASE[2:], BASE[:1] + ('tall',) + BASE[2:], BASE[:2] + (('k', 3, 0),) + BASE[3:],
           BASE[:2] + (('k', 2, 1),) + BASE[3:], BASE[:2] + (('r', 2),) + BASE[3:], BASE[:3] + (2, 'MSE'),
           BASE[:3] + (3, 'MASE'), (('mean', 4),) + BASE[1:3] + (2, 'sMAPE'), (('knn', 2), 'wide_scaled') + BASE[2:]]


def cases(tier):
    thorough = tier != 'quick'
    for c in CONFIGS:
        yield {'m': 'one', 'c': c}
    for model, cl in itertools.product((('arima',), ('mean', 3), ('knn', 2)), (('k', 2, 0), ('r', 3))):
        for region in ('wide_scaled', 'tall_scaled', 'row', 'one'):
            if (cl[1] > 1) <= (region != 'one'):
                yield {'m': 'one', 'c': (model, region, cl, 2, 'sMAPE')}
    for region, model in (('long', ('knn', 2)), ('high_scaled', ('mean', 3)), ('high', ('arima',)), ('long_scaled', ('arima',))):
        yield {'m': 'one', 'c': (model, region, ('k', 3, 1), 2, 'MSE')}
    for n, tp in ((1, 4), (2, 5), (5, 2)):
        for model in ('mean', 'knn'):
            yield {'m': 'one', 'c': ((model, n), 'wide_scaled' if tp == 4 else 'wide', ('k', 2, 0), tp, 'MSE')}
    yield {'m': 'one', 'c': (('arima',), 'wide', ('k', 2, 0), 5, 'MASE')}
    for a, b in itertools.product(range(len(CONFIGS)), repeat=2):
        yield {'m': 'hist', 'h': (a, b)}
        if thorough:
            for c in range(len(CONFIGS)):
                yield {'m': 'hist', 'h': (a, b, c)}
    for model in ('arima', 'knn'):
        for region in ('wide', 'wide_scaled', 'tall', 'tall_scaled', 'row', 'one', 'long', 'high_scaled'):
            for err in ('MASE', 'sMAPE', 'MSE') if region[0] not in 'lh' else ('MSE',):
                yield {'m': 'each', 'model': model, 'region': region, 'err': err}
    yield {'m': 'defaults'}
    yield {'m': 'refused'}


def command(c, action, extra=(), defaults=()):
    '''(program, arguments); the options named in `defaults` are omitted.'''
    model, region, cl, tp, err = c
    prog = {'arima': ARIMA, 'mean': MEAN, 'knn': KNN}[model[0]]
    args = [action, region]
    if model[0] == 'arima':
        args += ['simple']
    args += ['kmedoids' if cl[0] == 'k' else 'regular']
    if model[0] == 'knn':
        args += [model[1]]
    args += list(extra[:4]) + ['-k', cl[1]]
    if cl[0] == 'k' and 'seed' not in defaults:
        args += ['--seed', cl[2]]
    if 'tp' not in defaults:
        args += ['--tp' if model[0] == 'arima' else '--test', tp]
    if model[0] == 'mean' and 'past' not in defaults:
        args += ['--past', model[1]]
    if 'error' not in defaults:
        args += ['--error', err]
    if len(extra) > 4 and extra[4] is not None:
        args += ['--tf', extra[4]]
    return prog, args + ['--log', 'WARN']


def train(w, c, defaults=()):
    prog, args = command(c, 'train', (), defaults)
    return pg.program(w, prog, args)


_partitions = {}


def reference(w, c):
    model, region, cl, tp, err = c
    if (region, cl) not in _partitions:
        st = pg.regions(w)[region].create_instance()
        dist = DistanceByDTW()
        dist.load_distance_matrix_md(st.region_metadata)
        part = ClusteringFactory(dist).instance(sw.clustering(cl)).partition(st, with_medoids=True, pickle_home=None)
        _partitions[(region, cl)] = ([int(v) for v in part.membership_of_point_indices(list(range(st.x_len * st.y_len)))],
                                     [(int(p.x), int(p.y)) for p in part.medoids])
    labels, medoids = _partitions[(region, cl)]
    return pg.Reference(w.data, region, tp, err, model, labels, medoids)


class Printed:
    '''The blocks of text that were printed, in order, by point of the rectangle.'''

    def __init__(self, text, rect, header):
        blocks = re.split(r'^\*+\n', text, flags=re.M)
        self.blocks = [b for b in blocks[header:]]
        self.y = rect[3] - rect[2]

    def lines_for_point(self, p):
        return self.blocks[p.x * self.y + p.y].rstrip('\n').split('\n')


def csvs():
    return {f: open(f).read() for f in c27.listing('outputs') if '/query-' in f}


def predict(ctx, w, c, rect, tf, what, defaults=()):
    e = reference(w, c)
    before = csvs()
    prog, args = command(c, 'predict', tuple(rect) + (None if tf == 0 and 'tf' in defaults else tf,), defaults)
    text = pg.program(w, prog, args)
    printed = Printed(text, rect, 3)
    ctx.check(len(printed.blocks) == (rect[1] - rect[0]) * (rect[3] - rect[2]), '{}: {} points printed'.format(what, len(printed.blocks)))
    c27.check_lines(ctx, printed, e, rect, tf, what)
    return changed_files(ctx, before, e, c, rect, tf, what)


def changed_files(ctx, before, e, c, rect, tf, what):
    now = csvs()
    ctx.check(all(f in now for f in before), what + ': stored results vanished')
    files = [f for f in now if f not in before or now[f] != before[f]]
    if not files:       # the same request again
        return
    c27.check_files(ctx, files, e, (None, None, c[2]), rect, tf, what)


def refused(ctx, f, what):
    before = stored()
    try:
        f()
    except pg.Failed:
        ctx.check(stored() == before, what + ': failed, but storage changed')
        return
    ctx.check(False, what + ': accepted')


def stored():
    '''Solvers and results; partitions and plots may be left behind by requests that fail later.'''
    return {f: open(f, 'rb').read() for top in ('outputs', 'pickle') for b, _, fs in os.walk(top) for f in
            [os.path.join(b, n) for n in fs if not n.startswith('partition_') and not n.endswith('.pdf')]}


def run(spec, ctx):
    w = pg.make_world(ctx)
    if spec['m'] == 'one':
        c = spec['c']
        refused(ctx, lambda: predict(ctx, w, c, (0, 1, 0, 1), 0, 'x'), '{}: predict before train'.format(c))
        train(w, c)
        e = reference(w, c)
        for rect in lib.rects(e.x, e.y):
            for tf in (0, 1, 2):
                before = len(csvs())
                predict(ctx, w, c, rect, tf, '{} {} {}'.format(c, rect, tf))
                ctx.check(len(csvs()) == before + 2, 'files of {} {}'.format(rect, tf))
                ctx.step()
                ctx.state(c, rect, tf)
    elif spec['m'] == 'hist':
        rects = [(0, 1, 0, 2), (0, 2, 1, 2)]
        trained = []
        for i in spec['h']:
            train(w, CONFIGS[i])
            trained.append(i)
            for j in sorted(set(spec['h'])):
                what = 'history {}: predict with {} after training {}'.format(
                    [CONFIGS[k] for k in spec['h']], CONFIGS[j], [CONFIGS[k] for k in trained])
                if j in trained:
                    for tf in (0, 2):
                        predict(ctx, w, CONFIGS[j], rects[tf // 2], tf, what)
                else:
                    refused(ctx, lambda: predict(ctx, w, CONFIGS[j], rects[0], 0, what), what)
                ctx.step()
            ctx.state(spec['h'], tuple(trained))
    elif spec['m'] == 'each':
        name, region, err = spec['model'], spec['region'], spec['err']
        model = ('arima',) if name == 'arima' else ('knn', 2)
        r = sw.REGIONS[region.replace('_scaled', '')]
        for rect in lib.rects(r.x2 - r.x1, r.y2 - r.y1):
            for tf in (2, 3):
                what = '{} at each point of {} {}, length {}'.format(name, region, rect, tf)
                e = pg.Reference(w.data, region, tf, err, model)
                before = csvs()
                args = [region, 'simple' if name == 'arima' else 2] + list(rect) + ['--error', err, '--tf', tf, '--log', 'WARN']
                text = pg.program(w, EACH[name], args)
                printed = Printed(text, rect, 1)
                ctx.check(len(printed.blocks) == (rect[1] - rect[0]) * (rect[3] - rect[2]), what + ': points printed')
                c27.check_lines(ctx, printed, e, rect, 0, what)
                changed_files(ctx, before, e, None or (None, None, None), rect, 0, what)
                ctx.check(len(csvs()) == len(before) + 2, what + ': files')
                ctx.step()
                ctx.state(name, region, rect, tf)
    elif spec['m'] == 'defaults':
        full = (('arima',), 'wide', ('k', 2, 1), 8, 'sMAPE')
        for c in (full, (('mean', 10),) + full[1:], (('knn', 2),) + full[1:]):
            opts = ['seed', 'tp', 'error', 'tf'] + (['past'] if c[0][0] == 'mean' else [])
            for n in range(len(opts) + 1):
                for some in itertools.combinations(opts, n):
                    w.use()
                    train(w, c, some)
                    predict(ctx, w, c, (0, 2, 0, 2), 0, 'all options given after training without {}'.format(some))
                    w.use()
                    train(w, c)
                    predict(ctx, w, c, (0, 2, 0, 2), 0, 'all options given')
                    predict(ctx, w, c, (0, 2, 0, 2), 0, 'options {} omitted'.format(some), some)
                    ctx.step()
                    ctx.state(c, some)
        for name in ('arima', 'knn'):
            model = ('arima',) if name == 'arima' else ('knn', 2)
            text = pg.program(w, EACH[name], ['wide', 'simple' if name == 'arima' else 2, 0, 1, 0, 1])
            c27.check_lines(ctx, Printed(text, (0, 1, 0, 1), 1), pg.Reference(w.data, 'wide', 8, 'sMAPE', model), (0, 1, 0, 1), 0,
                            name + ' with default options')
    else:
        for c in CONFIGS[:5]:
            w.use()
            prog, args = command(c, 'train')
            for i, a in enumerate(args):
                if a in ('--log', 'WARN', '--tp', '--test', '--seed', '--error', '--past', '-k') or i == 0:
                    continue
                for bad in ('nothing', '-1x'):
                    if args[i - 1] == '--log':
                        continue
                    refused(ctx, lambda: pg.program(w, prog, args[:i] + [bad] + args[i + 1:]), 'train with {} for {}'.format(bad, a))
                    ctx.step()
            k = args.index('-k')
            refused(ctx, lambda: pg.program(w, prog, args[:k] + args[k + 2:]), 'train without k')
            refused(ctx, lambda: pg.program(w, prog, ['forget'] + args[1:]), 'unknown action')
            train(w, c)
            prog, args = command(c, 'predict', (0, 1, 0, 1, 0))
            for i in range(args.index('-k') - 4, args.index('-k')):
                for bad in (['x'], ['1.5'], []):
                    refused(ctx, lambda: pg.program(w, prog, args[:i] + bad + args[i + 1:]), 'predict with {} for {}'.format(bad, args[i]))
                    ctx.step()
            ctx.state(c)
