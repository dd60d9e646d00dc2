'''
C41 programs over clustering suites. Every request to the command line programs that analyse the partitions of a suite
(with the silhouette and variance options), find the elbow of its costs, store the distances between medoids, extract
training data for a classifier and calculate the centroid of a region, over regions and suites; and every history of
two requests (thorough: three) over the same storage: each file and printed line is the one that follows from the
dataset, a request that needs a missing analysis fails, and requests do not depend on what was requested before.
'''
import csv
import glob
import itertools
import os
import re
import shutil

import numpy as np

import experiments.metadata.clustering as metadata_clustering
from spta.clustering.kmedoids import kmedoids_metadata_generator
from spta.clustering.regular import regular_metadata_generator
from spta.clustering.factory import ClusteringFactory
from spta.classifier.train_input import MedoidsChoiceMinDistance, MedoidsChoiceMinPredictionError
from spta.distance.dtw import DistanceByDTW
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from experiments.metadata.arima import predefined_auto_arima

from mc import figs, fx, lib
from mc import programs as pg
from mc import solverworld as sw
from mc.checks import c28, c38

TECHNIQUE = 'exhaustive enumeration of program requests and their histories over real storage vs a reference analysis'
LEVEL_NOTE = ('Five programs run in process over domains of 1 to 12 points at an offset of a 12x13 dataset; five suites (of k '
              'in several orders and 2 seeds, or regular), all options; all ordered pairs (thorough: triples) of a menu of 16 requests.')
CASE_TIMEOUT = 600

PARTITION, ELBOW = 'experiments.clustering.partition_analysis', 'experiments.clustering.find_elbows'
MEDOIDS, EXTRACT = 'experiments.clustering.medoid_distances', 'experiments.clustering.extraction_lstm'
CENTROID, SOLVER = 'experiments.region.centroid', 'experiments.auto_arima.solver'

KMEDOIDS = {'quick': ((2, 3), (0, 1)), 'deep': ((1, 2, 3, 4), (0, 3)), 'spread': ((4, 1, 2), (1,)), 'gaps': ((1, 3, 4), (2, 0)), 'one': ((1,), (0,))}
REGULAR = {'quick': (2, 3), 'deep': (3, 1, 2), 'one': (1,)}


def suites(kind):
    if kind == 'kmedoids':
        return {n: kmedoids_metadata_generator(k_values=ks, seed_values=seeds) for n, (ks, seeds) in KMEDOIDS.items()}
    return {n: regular_metadata_generator(k_values=ks) for n, ks in REGULAR.items()}


def members(kind, name):
    if kind == 'kmedoids':
        return [('k', k, s) for k in KMEDOIDS[name][0] for s in KMEDOIDS[name][1]]
    return [('r', k) for k in REGULAR[name]]


REGIONS = ['wide', 'wide_scaled', 'tall', 'tall_scaled', 'row', 'row_scaled']
MENU = [['partition', 'wide', 'kmedoids', 'quick', ()], ['partition', 'wide', 'regular', 'quick', ()],
        ['partition', 'wide', 'kmedoids', 'spread', ()], ['partition', 'wide_scaled', 'kmedoids', 'quick', ()],
        ['partition', 'tall', 'kmedoids', 'quick', ('--variance', '--random', '0')],
        ['partition', 'wide', 'kmedoids', 'quick', ('--silhouette',)],
        ['elbow', 'wide', 'kmedoids', 'deep', ()], ['elbow', 'wide_scaled', 'kmedoids', 'deep', ()],
        ['medoids', 'wide', 'kmedoids', 'quick', ()], ['medoids', 'wide', 'regular', 'quick', ()], ['medoids', 'tall', 'kmedoids', 'quick', ()],
        ['extract', 'wide', 'kmedoids', 'quick', (2, 0, 0)], ['extract', 'wide', 'kmedoids', 'quick', (1, 3, 1)],
        ['extract', 'wide_scaled', 'kmedoids', 'quick', (2, 0, 0)], ['centroid', 'wide', None, None, ()], ['extract', 'tall', 'kmedoids', 'quick', (1, 0, 0)]]


def cases(tier):
    options = [(), ('--silhouette',), ('--variance',), ('--variance', '--random', '0'), ('--variance', '--random', '2', '--silhouette'),
               ('--variance', '--bins', '4')]
    for region in REGIONS:
        for kind, table in (('kmedoids', KMEDOIDS), ('regular', REGULAR)):
            for suite in sorted(table):
                for o in options:
                    if '--silhouette' in o and suite != 'quick':
                        continue    # one cluster has no silhouette
                    if '--variance' in o and suite != 'quick':
                        continue    # the grid of histograms is for at least two clusters
                    yield {'m': 'one', 'req': ['partition', region, kind, suite, o]}
                yield {'m': 'one', 'req': ['medoids', region, kind, suite, ()]}
                if kind == 'kmedoids':
                    yield {'m': 'extract', 'region': region, 'suite': suite}
                    yield {'m': 'errors', 'region': region, 'suite': suite} if suite in ('quick', 'spread') else {'m': 'one', 'req': ['centroid', region, None, None, ()]}
        for suite in ('deep', 'spread', 'gaps'):
            yield {'m': 'one', 'req': ['elbow', region, 'kmedoids', suite, ()]}
    for region in ('long', 'high', 'high_scaled'):
        for kind in ('kmedoids', 'regular'):
            yield {'m': 'one', 'req': ['partition', region, kind, 'quick', ()]}
            yield {'m': 'one', 'req': ['partition', region, kind, 'quick', ('--variance',)]}
            yield {'m': 'one', 'req': ['medoids', region, kind, 'quick', ()]}
        yield {'m': 'one', 'req': ['elbow', region, 'kmedoids', 'deep', ()]}
        yield {'m': 'one', 'req': ['centroid', region, None, None, ()]}
        yield {'m': 'extract', 'region': region, 'suite': 'quick'}
        yield {'m': 'errors', 'region': region, 'suite': 'quick'}
    yield {'m': 'one', 'req': ['partition', 'one', 'kmedoids', 'one', ()]}
    yield {'m': 'one', 'req': ['partition', 'one', 'regular', 'one', ()]}
    yield {'m': 'one', 'req': ['medoids', 'one', 'kmedoids', 'one', ()]}
    yield {'m': 'refused'}
    for shape in ((2, 60), (60, 2), (3, 49), (11, 12)):
        yield {'m': 'big', 'shape': shape}
    for a in range(len(MENU)):
        yield {'m': 'replaced', 'a': a}
    n = len(MENU)
    for a in range(n):
        if tier == 'quick':
            yield {'m': 'hist', 'a': a, 'b': None}
        else:
            for b in range(n):
                yield {'m': 'hist', 'a': a, 'b': b}


def csv_rows(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


def names_of(w):
    # each program takes what it needs from the metadata
    return {'predefined_regions': lambda: pg.regions(w)}


def run_program(w, prog, args, **extra):
    import importlib
    mod = importlib.import_module(prog)
    names = names_of(w)
    for n, f in (('kmedoids_suites', lambda: suites('kmedoids')), ('regular_suites', lambda: suites('regular'))):
        if hasattr(mod, n):
            names[n] = f
    with pg.patched(metadata_clustering, kmedoids_suites=lambda: suites('kmedoids'), regular_suites=lambda: suites('regular')):
        return pg.program(w, prog, args, **names)


def request(w, req):
    kind, region, ctype, suite, o = req
    if kind == 'partition':
        return run_program(w, PARTITION, [region, ctype, suite] + list(o) + ['--log', 'WARN'])
    if kind == 'elbow':
        return run_program(w, ELBOW, [region, suite, '--log', 'WARN'])
    if kind == 'medoids':
        return run_program(w, MEDOIDS, [region, ctype, suite, '--log', 'WARN'])
    if kind == 'centroid':
        return run_program(w, CENTROID, [region, '--log', 'WARN'])
    count, seed, threshold = o[:3]
    more = ['min_distance']
    if len(o) > 3:
        more = ['min_error', '--tp', o[3], '--error', o[4], '--auto-arima', 'simple']
    return run_program(w, EXTRACT, [region, ctype, suite, more[0], '--random', count, '--random-seed', seed, '--threshold', threshold,
                                    '--log', 'WARN'] + more[1:])


class Want:
    '''The analysis of one clustering, from the dataset.'''

    def __init__(self, w, region, cl):
        self.ref = pg.Reference(w.data, region, 8, 'MSE', None)
        self.m = lib.dtw_matrix(lib.series_of(self.ref.vis))
        self.labels, self.medoids = c38.partition(w, region, cl)
        self.at = [x * self.ref.y + y for x, y in self.medoids]
        self.absolute = [(x + self.ref.r.x1, y + self.ref.r.y1) for x, y in self.medoids]
        self.cost = sum(self.m[self.at[l], i] for i, l in enumerate(self.labels))


def place(w, region):
    return os.path.join('outputs', repr(pg.regions(w)[region]))


def check_partition(ctx, w, req, what):
    _, region, kind, suite, _ = req
    found = [f for f in glob.glob(place(w, region) + '/**/clustering__*.csv', recursive=True)
             if os.path.basename(f) == 'clustering__{}-{}.csv'.format(kind, suite)]
    ctx.check(len(found) == 1, '{}: files {}'.format(what, found))
    table = csv_rows(found[0])
    ctx.check(table[0] == ['clustering', 'total_cost', 'medoids'], '{}: header {}'.format(what, table[0]))
    cls = members(kind, suite)
    ctx.check(len(table) == 1 + len(cls), '{}: {} rows'.format(what, len(table)))
    result = suites(kind)[suite]
    result.identifier = suite
    read = result.retrieve_suite_result_csv('outputs', pg.regions(w)[region], DistanceByDTW())
    for row, cl in zip(table[1:], cls):
        e = Want(w, region, cl)
        name = repr(sw.clustering(cl))
        ctx.check(row[0] == name, '{}: row of {} instead of {}'.format(what, row[0], name))
        ctx.check(c38.near(row[1], e.cost), '{}: cost of {} is {} instead of {}'.format(what, name, row[1], e.cost))
        got = [tuple(int(v) for v in p.split(',')) for p in re.findall(r'\((-?\d+,-?\d+)\)', row[2])]
        ctx.check(got == e.absolute, '{}: medoids of {} are {} instead of {}'.format(what, name, got, e.absolute))
        ctx.check([(p.x, p.y) for p in read[name]] == e.absolute, '{}: medoids of {} read as {}'.format(what, name, read[name]))
        ctx.step()


def check_figures(ctx, w, req, log, what):
    _, region, kind, suite, o = req
    cls = [repr(sw.clustering(c)) for c in members(kind, suite)]
    shots = figs.saved(log)
    names = [f.name for f in shots]
    ctx.check(len(set(names)) == len(names), '{}: figures with the same name {}'.format(what, names))
    ctx.check(all(n.startswith(place(w, region) + '/') for n in names), '{}: figures {}'.format(what, names))
    silhouettes = [n for n in names if 'silhouette' in os.path.basename(n)]
    ctx.check(len(silhouettes) == (len(cls) if '--silhouette' in o else 0), '{}: silhouettes {}'.format(what, silhouettes))
    others = [f for f in shots if f.name not in silhouettes]
    ctx.check(len(others) == (len(cls) if '--variance' in o else 0), '{}: histograms {}'.format(what, [f.name for f in others]))
    for f, cl, name in zip(others, members(kind, suite), cls):
        ctx.check(name in f.name, '{}: figure {} of {}'.format(what, f.name, name))
        e = Want(w, region, cl)
        drawn = [a for a in f.axes if a.patches]
        ctx.check(len(drawn) == cl[1], '{}: {} histograms of {}'.format(what, len(drawn), name))
        # each histogram counts the members of a cluster, or those and as many points as requested
        for c, a in enumerate(drawn):
            size = e.labels.count(c)
            total = sum(p[3] for p in a.patches)
            outside = len(e.labels) - size
            extra = 0
            if '--random' in o:
                n = int(o[o.index('--random') + 1])
                extra = min(n or size, outside)
            ctx.check(round(total) == size + extra, '{}: histogram {} of {} counts {} instead of {}+{}'.format(what, c, name, total, size, extra))
            if '--bins' in o:
                ctx.check(len(a.patches) == int(o[o.index('--bins') + 1]), '{}: {} bins'.format(what, len(a.patches)))
        ctx.step()


def check_elbow(ctx, w, req, printed, what):
    _, region, _, suite, _ = req
    ks, seeds = KMEDOIDS[suite]
    parts = re.split(r'\*+ Seed (\d+) \*+', printed)
    got = {int(parts[i]): parts[i + 1] for i in range(1, len(parts), 2)}
    ctx.check(sorted(got) == sorted(seeds), '{}: seeds {}'.format(what, sorted(got)))
    order = sorted(ks)
    for s in seeds:
        text = got[s]
        listed = re.search(r'Values of k: \[([\d, ]*)\]', text)
        ctx.check(listed and [int(v) for v in listed.group(1).split(',')] == order, '{}: values of k in {}'.format(what, text))
        costs = [Want(w, region, ('k', k, s)).cost for k in order]
        second = {}
        for i in range(1, len(order) - 1):
            left = (costs[i] - costs[i - 1]) / (order[i] - order[i - 1])
            right = (costs[i + 1] - costs[i]) / (order[i + 1] - order[i])
            second[order[i]] = 2 * (right - left) / (order[i + 1] - order[i - 1])
        best = max(second.values())
        names = [str(sw.clustering(('k', k, s))) for k, v in second.items() if v >= best - 1e-9] + \
                [repr(sw.clustering(('k', k, s))) for k, v in second.items() if v >= best - 1e-9]
        said = re.search(r'Elbow found for k=(.*)', text)
        ctx.check(said and said.group(1).strip() in names, '{}: elbow of seed {}: {} of {}'.format(what, s, text, second))
        ctx.step()


def check_medoids(ctx, w, req, what):
    _, region, kind, suite, _ = req
    for cl in members(kind, suite):
        e = Want(w, region, cl)
        name = repr(sw.clustering(cl))
        found = [f for f in glob.glob(place(w, region) + '/**/medoid_distances.csv', recursive=True) if name in f.split('/')]
        ctx.check(len(found) == 1, '{}: files of {}: {}'.format(what, name, found))
        table = csv_rows(found[0])
        k = cl[1]
        ctx.check(table[0] == ['k'] + [str(i) for i in range(k)] and len(table) == 1 + k, '{}: table {}'.format(what, table))
        for i in range(k):
            row = table[1 + i]
            ctx.check(row[0] == str(i) and len(row) == 1 + k and all(c38.near(row[1 + j], e.m[e.at[i], e.at[j]]) for j in range(k)),
                      '{}: distances of medoid {} of {}: {}'.format(what, i, name, row))
        ctx.step()


def suite_result(w, region, suite):
    return {repr(sw.clustering(cl)): [c28.Point(*p) for p in Want(w, region, cl).absolute] for cl in members('kmedoids', suite)}


def distance_penalties(w, region, suite):
    es = {repr(sw.clustering(cl)): Want(w, region, cl) for cl in members('kmedoids', suite)}

    def of(p):
        return {(name, j): e.m[p[0] * e.ref.y + p[1], a] for name, e in es.items() for j, a in enumerate(e.at)}
    return of


def error_penalties(w, region, suite, tp, err):
    out = {}
    for cl in members('kmedoids', suite):
        e = Want(w, region, cl)
        out[repr(sw.clustering(cl))] = (pg.Reference(w.data, region, tp, err, ('arima',), e.labels, e.medoids), e)

    def of(p):
        return {(name, j): r.error(p) if e.labels[p[0] * e.ref.y + p[1]] == j else None
                for name, (r, e) in out.items() for j in range(len(e.at))}
    return of


def check_extract(ctx, w, req, what):
    _, region, _, name, o = req
    md = pg.regions(w)[region]
    ref = pg.Reference(w.data, region, 8, 'MSE', None)
    so = suites('kmedoids')[name]
    so.identifier = name
    count, seed, threshold = o[:3]
    suite = suite_result(w, region, name)
    d = DistanceByDTW()
    d.load_distance_matrix_2d(md.distances_filename, md.region)
    if len(o) > 3:
        strategy = MedoidsChoiceMinPredictionError(md, d, 'outputs', model_params=predefined_auto_arima()['simple'], test_len=o[3], error_type=o[4])
        pens = error_penalties(w, region, name, o[3], o[4])
    else:
        strategy = MedoidsChoiceMinDistance(md, d)
        pens = distance_penalties(w, region, name)
    files = strategy.csv_filepaths('outputs', so, count, seed, threshold=threshold)
    head, rows = c28.read(files[0])
    c28.check_header(ctx, head, len(ref.vis))
    ctx.check(len(rows) == count, '{}: {} rows'.format(what, len(rows)))
    c28.check_rows(ctx, rows, md, ref.vis, suite, pens, threshold, c28.read(files[1])[1], what)
    c28.check_medoid_file(ctx, so.medoid_series_csv_filepath('outputs', md, d), md, ref.vis, suite)


def possible(w, req, analysed):
    '''Whether the request can be answered after the analyses made.'''
    if req[0] != 'extract':
        return True
    if (req[1], req[3]) not in analysed:
        return False
    return enough(w, req)


def free(w, region, suite):
    e = [Want(w, region, cl) for cl in members('kmedoids', suite)]
    return len(e[0].labels) - len({a for x in e for a in x.at})


def enough(w, req):
    _, region, _, suite, o = req
    capacity = sum(cl[1] for cl in members('kmedoids', suite)) * o[2] if o[2] else 99
    return o[0] <= min(free(w, region, suite), capacity)


def check_answer(ctx, w, req, printed, log, what):
    kind = req[0]
    if kind == 'partition':
        check_partition(ctx, w, req, what)
        if log is not None:
            check_figures(ctx, w, req, log, what)
    elif kind == 'elbow':
        check_elbow(ctx, w, req, printed, what)
    elif kind == 'medoids':
        check_medoids(ctx, w, req, what)
    elif kind == 'extract':
        check_extract(ctx, w, req, what)


def ask(ctx, w, req, analysed, what):
    ok = possible(w, req, analysed)
    with figs.recorded() as log:
        try:
            printed = request(w, req)
        except pg.Failed:
            if ok:
                raise
            ctx.outcome('refused', str(req))
            return None
    ctx.check(ok, what + ': answered without the analysis of the suite')
    if req[0] == 'partition' and req[2] == 'kmedoids':
        analysed.add((req[1], req[3]))
    return printed, log


def run(spec, ctx):
    w = pg.make_world(ctx)
    globals()['run_' + spec['m']](spec, ctx, w)


def run_one(spec, ctx, w):
    req = spec['req']
    for again in range(2):
        what = '{}{}'.format('again ' if again else '', req)
        printed, log = ask(ctx, w, req, set(), what)
        check_answer(ctx, w, req, printed, log, what)
    ctx.state(str(req))


def run_extract(spec, ctx, w):
    region, suite = spec['region'], spec['suite']
    w.use()
    analysed, answered = set(), []
    ask(ctx, w, ['extract', region, 'kmedoids', suite, (1, 0, 0)], analysed, 'without analysis')
    request(w, ['partition', region, 'kmedoids', suite, ()])
    analysed.add((region, suite))
    for count in range(1, free(w, region, suite) + 2):
        for seed, threshold in itertools.product((0, 3), (0, 1, 2)):
            req = ['extract', region, 'kmedoids', suite, (count, seed, threshold)]
            answer = ask(ctx, w, req, analysed, str(req))
            if answer:
                check_answer(ctx, w, req, answer[0], None, str(req))
                answered.append(req)
            ctx.state(str(req))
    # no request replaced what another one wrote
    for req in answered:
        check_extract(ctx, w, req, 'in the end, {}'.format(req))


def run_errors(spec, ctx, w):
    region, suite = spec['region'], spec['suite']
    for tp, err in ((3, 'MSE'), (8, 'sMAPE'), (2, 'MASE')):
        w.use()
        answered = []
        req = ['extract', region, 'kmedoids', suite, (1, 0, 0, tp, err)]
        request(w, ['partition', region, 'kmedoids', suite, ()])
        if not free(w, region, suite):
            ctx.outcome('no points left')
            return
        for i, cl in enumerate(members('kmedoids', suite)):
            try:
                request(w, req)
                ctx.check(False, '{}: answered without the solvers'.format(req))
            except pg.Failed:
                pass
            pg.program(w, SOLVER, ['train', region, 'simple', 'kmedoids', '-k', cl[1], '--seed', cl[2], '--tp', tp, '--error', err, '--log', 'WARN'])
        for count, seed, threshold in itertools.product(range(1, free(w, region, suite) + 1), (0, 3), (0, 1)):
            req = ['extract', region, 'kmedoids', suite, (count, seed, threshold, tp, err)]
            try:
                request(w, req)
            except pg.Failed:
                # with a threshold the medoids of a cluster may run out
                ctx.check(threshold, '{}: refused'.format(req))
                continue
            check_extract(ctx, w, req, str(req))
            answered.append(req)
            ctx.state(str(req))
        for req in answered:
            check_extract(ctx, w, req, 'in the end, {}'.format(req))


def run_replaced(spec, ctx, w):
    '''The dataset is replaced between requests.'''
    if 'p2' not in sw._worlds:
        sw._worlds['p2'] = sw.World(ctx, np.ascontiguousarray(pg.dataset()[::-1, ::-1, ::-1] + 0.5))
    other = sw._worlds['p2']
    req = MENU[spec['a']]
    if 'p3' not in sw._worlds:     # many points at the same distances
        t, x, y = np.indices((pg.T, 5, 6))
        sw._worlds['p3'] = sw.World(ctx, 20.0 + 24 * (y - y % 2) + 8 * (y % 2) + 4 * x + (t * t) % 5 * 0.5)
    orders = [(w, other, w), (other, w)] + ([(w, sw._worlds['p3'])] if req[0] != 'extract' and not req[1].endswith('_scaled') else [])
    for order in orders:
        for i, world in enumerate(order):
            world.use()
            what = '{} with dataset {} of {}'.format(req, i, len(order))
            analysed = set()
            if req[0] == 'extract':
                ask(ctx, world, ['partition', req[1], 'kmedoids', req[3], ()], analysed, what)
            answer = ask(ctx, world, req, analysed, what)
            if answer:
                check_answer(ctx, world, req, answer[0], answer[1], what)
        ctx.state('replaced', str(req), orders.index(order))


def run_big(spec, ctx, w):
    """A region of more than 100 points, with clusterings of up to 120 clusters, at coordinates of several digits."""
    x, y = spec['shape']
    ctx.fresh_dir()
    x1, y1 = 9, 98
    data = np.zeros((5, x + 11, y + 101))
    i = np.arange(x * y).reshape(x, y)
    data[:, x1:x1 + x, y1:y1 + y] = 280 + ((i * 53 + i * i) % 307) * 0.5 + 0.01 * i + 0.25 * np.arange(5)[:, None, None]
    fx.write_raw(data)
    md = SpatioTemporalRegionMetadata('r', Region(x1, x1 + x, y1, y1 + y), 2015, 2015, 1, scaled=False)
    mat = lib.dtw_matrix(lib.series_of(data[:, x1:x1 + x, y1:y1 + y]))
    np.save(md.distances_filename, mat)
    ks, seeds = (2, 100, 120), (0, 101)
    table = {'kmedoids': {'big': kmedoids_metadata_generator(k_values=ks, seed_values=seeds)}, 'regular': {'big': regular_metadata_generator(k_values=(2, 1, 6))}}
    for kind in ('kmedoids', 'regular'):
        with pg.patched(metadata_clustering, kmedoids_suites=lambda: table['kmedoids'], regular_suites=lambda: table['regular']):
            pg.program(None, PARTITION, ['big', kind, 'big', '--log', 'WARN'], predefined_regions=lambda: {'big': md})
        so = table[kind]['big']
        so.identifier = 'big'
        d = DistanceByDTW()
        read = so.retrieve_suite_result_csv('outputs', md, d)
        d.load_distance_matrix_2d(md.distances_filename, md.region)
        members = [sw.clustering(('k', k, s)) for k in ks for s in seeds] if kind == 'kmedoids' else [sw.clustering(('r', k)) for k in (2, 1, 6)]
        ctx.check(list(read) == [repr(c) for c in members], '{}: clusterings {}'.format(spec, list(read)))
        for c in members:
            part = ClusteringFactory(d).instance(c).partition(md.create_instance())
            want = [(p.x + x1, p.y + y1) for p in part.medoids]
            ctx.check([(p.x, p.y) for p in read[repr(c)]] == want, '{}: medoids of {} read as {}'.format(spec, c, read[repr(c)]))
            found = [r for r in csv_rows(so.analysis_csv_filepath('outputs', md, d))[1:] if r[0] == repr(c)]
            cost = sum(mat[p.x * y + p.y, i] for i in range(x * y) for p in [part.medoids[int(part.membership_of_point_indices([i])[0])]])
            ctx.check(len(found) == 1 and c38.near(found[0][1], cost), '{}: cost of {}: {} instead of {}'.format(spec, c, found, cost))
            ctx.step()
            ctx.state('big', spec['shape'], repr(c))


def run_refused(spec, ctx, w):
    w.use()
    for prog, args in ((PARTITION, ['wide', 'kmedoids', 'missing']), (PARTITION, ['nowhere', 'kmedoids', 'quick']), (PARTITION, ['wide', 'dbscan', 'quick']),
                       (ELBOW, ['wide', 'missing']), (ELBOW, ['wide', 'quick']), (MEDOIDS, ['nowhere', 'regular', 'quick']), (EXTRACT, ['wide', 'kmedoids', 'quick', 'best']),
                       (PARTITION, ['wide', 'kmedoids']), (CENTROID, ['nowhere'])):
        try:
            run_program(w, prog, args)
            ctx.check(False, '{} {} is answered'.format(prog, args))
        except pg.Failed:
            pass
        ctx.step()
        left = [f for b, _, fs in os.walk('outputs') for f in fs]
        ctx.check(not left, '{} {} leaves {}'.format(prog, args, left))
        shutil.rmtree('outputs', ignore_errors=True)
        ctx.state(prog, str(args))


def run_hist(spec, ctx, w):
    tails = itertools.product(MENU) if spec['b'] is None else itertools.product([MENU[spec['b']]], MENU)
    for tail in tails:
        w.use()
        history = [MENU[spec['a']]] + list(tail)
        analysed, answers = set(), []
        for i, req in enumerate(history):
            what = 'history {}'.format(history[:i + 1])
            answer = ask(ctx, w, req, analysed, what)
            if answer:
                answers.append((req, answer))
                check_answer(ctx, w, req, answer[0], answer[1], what)
        # nothing written before is altered by later requests
        for req, (printed, _) in answers:
            check_answer(ctx, w, req, printed, None, 'end of history {}: {}'.format(history, req))
        ctx.state(str(history))
