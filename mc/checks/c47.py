'''
C47 predefined requests. The real tables of experiments/metadata: every request that a program offers (every region and
every experiment it lists) is accepted and resolves to the region, suite and parameters that its name says, whatever was
requested (or changed in a previous answer) before. Suites of ARIMA orders: all small lists of p, d and q.
Centroids: all tables of known centroids and histories of requests over tiny regions.
'''
import contextlib
import importlib
import io
import itertools
import logging
import sys

import numpy as np

from experiments.metadata import arima as md_arima
from experiments.metadata import arima_clustering as md_ac
from experiments.metadata import centroid as md_centroid
from experiments.metadata import classifier as md_classifier
from experiments.metadata import clustering as md_clustering
from experiments.metadata import region as md_region
from experiments.metadata import silhouette as md_silhouette
from spta.clustering.factory import ClusteringMetadataFactory
from spta.clustering.suite import OrganizeClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.region import Point
from spta.region.metadata import SpatioTemporalRegionMetadata

from mc import programs as pr
from mc import solverworld as sw
from mc.core import raises

TECHNIQUE = 'exhaustive enumeration of the requests that the programs offer, and of histories of requests'
LEVEL_NOTE = ('All regions x experiments of the tables through the parsers of 18 programs; all ordered pairs of requests to a table; '
              'all lists over 3 values of p, d and q; all subsets of known centroids with histories of 2 (thorough 3) requests.')
CASE_TIMEOUT = 600

TYPES = {'kmedoids': md_clustering.kmedoids_suites, 'regular': md_clustering.regular_suites}


class Captured(Exception):
    pass


def prepare(tier):
    a = np.random.RandomState(0).rand(4, 2, 2)
    from spta.region.temporal import SpatioTemporalRegion
    DistanceByDTW().compute_distance_matrix(SpatioTemporalRegion(a))


def programs():
    '''program, arguments after the region, expected kind of answer'''
    kmedoids, regular = sorted(md_clustering.kmedoids_suites()), sorted(md_clustering.regular_suites())
    both = [('kmedoids', i) for i in kmedoids] + [('regular', i) for i in regular]
    autos = sorted(md_ac.auto_arima_clustering_experiments())
    yield 'experiments.arima.training_error_analysis', [[i] for i in sorted(md_ac.experiments_for_arima_with_clusters())], 'arima'
    yield 'experiments.auto_arima.training_error_analysis', [[i] for i in autos], 'auto'
    yield 'experiments.auto_arima.distance_errors', [[i] for i in autos], 'auto'
    yield 'experiments.auto_arima.error_between_medoids', [[i] for i in autos], 'auto'
    yield 'experiments.clustering.partition_analysis', [list(b) for b in both], 'suite'
    yield 'experiments.clustering.medoid_distances', [list(b) for b in both], 'suite'
    yield 'experiments.clustering.extraction_lstm', [list(b) + ['min_distance'] for b in both], 'suite'
    yield 'experiments.clustering.find_elbows', [[i] for i in kmedoids], 'elbow'
    yield 'experiments.classifier.solver_dnn', [[i, c] + '0 1 0 1'.split() for i in autos for c in sorted(md_classifier.classifier_experiments())], 'dnn'
    algorithms = [['kmedoids', '-k', k, '--seed', seed] for k in '2 7 150'.split() for seed in '0 1 5'.split()] + [['kmedoids', '-k', '4']] + \
        [['regular', '-k', k] for k in '2 6 97'.split()]
    for mode, rect in (('train', []), ('predict', '0 1 2 3'.split())):
        for name, model in (('experiments.auto_arima.solver', ['simple']), ('experiments.baseline.solver_knn_medoids', ['3']), ('experiments.baseline.solver_mean_past', [])):
            yield name, [[mode] + (model if a == 'simple' else []) + alg[:1] + (model if a == '3' else []) + rect + alg[1:]
                         for alg in algorithms for a in (model or [''])], 'solver'
    yield 'experiments.auto_arima.solver_each', [['simple'] + '0 1 2 3'.split()], 'region'
    yield 'experiments.baseline.solver_knn_each', [[k] + '0 1 2 3'.split() for k in '1 4'.split()], 'region'
    yield 'experiments.region.centroid', [[]], 'region'
    yield 'experiments.region.distance', [['dtw']], 'region'
    yield 'experiments.arima.forecast', [[i] for i in sorted(md_arima.predefined_arima_suites())], 'region'
    yield 'experiments.clustering.silhouette', [['save']], 'region'


def cases(tier):
    thorough = tier != 'quick'
    for name in sorted(md_region.predefined_regions()):
        yield {'m': 'regions', 'name': name}
    yield {'m': 'references'}
    for name in sorted(md_ac.experiments_for_arima_with_clusters()):
        yield {'m': 'experiment', 'name': name}
    for first in itertools.product(TYPES, ('quick', 'large', 'all', 'part1', 'part2', 'none')):
        yield {'m': 'suites', 'first': list(first)}
    for kind in ('arima', 'auto', 'ac', 'aac', 'classifier', 'regions', 'silhouette'):
        yield {'m': 'tables', 'kind': kind}
    lists = [list(l) for n in (1, 2, 3) for l in itertools.permutations((0, 1, 3), n)] + [[2, 2], []]
    for ps in lists:
        yield {'m': 'orders', 'p': ps, 'lists': lists}
    for name, arguments, kind in programs():
        for region in sorted(md_region.predefined_regions()):
            yield {'m': 'program', 'name': name, 'arguments': arguments, 'kind': kind, 'region': region}
    menu = [(r, d) for r in ('wide', 'wide_scaled', 'tall', 'row_scaled', 'one') for d in ('DistanceByDTW',)]
    for known in itertools.product((0, 1), repeat=5):
        for h in itertools.product(range(5), repeat=3 if thorough else 2):
            yield {'m': 'centroid', 'known': list(known), 'history': list(h), 'menu': [list(m) for m in menu]}


def label(md, scaled=None):
    return '{}_{}_{}_{}spd{}'.format(md.name, md.year_start, md.year_end, md.spd, '_scaled' if md.scaled else '')


def run_regions(spec, ctx):
    table = md_region.predefined_regions()
    md = table[spec['name']]
    ctx.check(label(md) == spec['name'], 'region {} is {}'.format(spec['name'], label(md)))
    r = md.region
    ctx.check(0 <= r.x1 < r.x2 and 0 <= r.y1 < r.y2, '{} has no points: {}'.format(spec['name'], r))
    ctx.check((md.x_len, md.y_len) == (r.x2 - r.x1, r.y2 - r.y1), 'size of ' + spec['name'])
    ctx.check(1979 <= md.year_start <= md.year_end <= 2015 and md.spd in (1, 4), 'interval of ' + spec['name'])
    for other, o in table.items():
        if o.name == md.name:
            ctx.check(tuple(o.region) == tuple(r), '{} and {} have the same name and different places'.format(other, spec['name']))
        if other != spec['name']:
            ctx.check(o.dataset_filename != md.dataset_filename and o.distances_filename != md.distances_filename, 'files of {} and {}'.format(other, spec['name']))
        ctx.step()
    ctx.state('region', spec['name'])


def members(suite):
    return [repr(m) for m in suite]


def check_suite(suite, kind, sid, ctx):
    what = 'suite {} {}'.format(kind, sid)
    reprs = members(suite)
    ctx.check(reprs and suite.metadata_name == kind and all(r.startswith(kind + '_') for r in reprs), what + ' has other clusterings')
    ctx.check(len(set(reprs)) == len(reprs), what + ' repeats a clustering')
    factory = ClusteringMetadataFactory()
    for m, r in zip(suite, reprs):
        ctx.check(repr(factory.from_repr(r)) == r and type(factory.from_repr(r)) is type(m), what + ': {} is not found by name'.format(r))
    ks = sorted({m.k for m in suite})
    ctx.check(ks[0] >= 2, what + ' has one cluster')
    if kind == 'kmedoids':
        seeds = sorted({m.random_seed for m in suite})
        ctx.check({(m.k, m.random_seed) for m in suite} == set(itertools.product(ks, seeds)), what + ' does not have all the seeds of each k')
        by_seed = OrganizeClusteringSuite().organize_kmedoids_suite(suite)
        ctx.check(sorted(by_seed) == seeds and all([m.k for m in by_seed[s]] == ks for s in seeds), what + ' by seed')
    ctx.step(len(reprs))


def run_references(spec, ctx):
    '''what an experiment names exists'''
    autos = md_arima.predefined_auto_arima()
    for i, e in md_ac.auto_arima_clustering_experiments().items():
        ctx.check(e.auto_arima_id in autos, '{}: no auto ARIMA {}'.format(i, e.auto_arima_id))
        ctx.check('{}_{}_{}'.format(e.auto_arima_id, e.clustering_type, e.clustering_suite_id) == i, '{} is {}'.format(i, e))
        check_suite(md_clustering.get_suite(e.clustering_type, e.clustering_suite_id), e.clustering_type, i, ctx)
        ctx.check(e.distance == 'dtw', 'distance of ' + i)
    for i, e in md_classifier.classifier_experiments().items():
        ctx.check(e.model_path.endswith('/model_{}.h5'.format(e.name)), 'classifier {} is {}'.format(i, e))
    ctx.check(md_clustering.suite_options() == {i for f in TYPES.values() for i in f()}, 'suite options')
    ctx.state('references')


def run_experiment(spec, ctx):
    i = spec['name']
    e = md_ac.experiments_for_arima_with_clusters()[i]
    ctx.check(e.arima_suite_id in md_arima.predefined_arima_suites(), '{}: no ARIMA suite {}'.format(i, e.arima_suite_id))
    ctx.check(e.distance == 'dtw', 'distance of ' + i)
    ctx.check(e.clustering_suite_id in TYPES[e.clustering_type](), '{}: no clustering suite {}'.format(i, e.clustering_suite_id),
              key='{}:{}:{}'.format(i, e.clustering_type, e.clustering_suite_id))
    check_suite(md_clustering.get_suite(e.clustering_type, e.clustering_suite_id), e.clustering_type, i, ctx)
    ctx.state('experiment', i)


def run_suites(spec, ctx):
    '''a suite after another one was asked for (and named, or changed)'''
    kind0, sid0 = spec['first']
    for change in (False, True):
        for kind, table in TYPES.items():
            for sid in sorted(table()):
                try:
                    first = md_clustering.get_suite(kind0, sid0)
                    ctx.check(sid0 in TYPES[kind0](), 'there is a suite {} {}'.format(kind0, sid0))
                    if change:
                        first.identifier = 'other'
                        del first.metadatas[1:]
                except (KeyError, ValueError):
                    ctx.check(sid0 not in TYPES[kind0](), 'suite {} {} is refused'.format(kind0, sid0))
                suite = md_clustering.get_suite(kind, sid)
                check_suite(suite, kind, sid, ctx)
                ctx.check(members(suite) == members(table()[sid]), 'suite {} {} after {} {}'.format(kind, sid, kind0, sid0))
                ctx.state('suite', kind0, sid0, kind, sid, change)
    ctx.check(raises(lambda: md_clustering.get_suite('dbscan', sid0)), 'suite of another type')
    ctx.check(raises(lambda: md_clustering.get_suite(kind0, 'nothing')), 'unknown suite')


def content(v):
    if hasattr(v, 'metadatas'):
        return members(v)
    if isinstance(v, SpatioTemporalRegionMetadata):
        return repr(v), tuple(v.region), v.dataset_dir
    return repr(v)


def run_tables(spec, ctx):
    '''changing an answer changes no later answer'''
    table = {'arima': md_arima.predefined_arima_suites, 'auto': md_arima.predefined_auto_arima,
             'ac': md_ac.experiments_for_arima_with_clusters, 'aac': md_ac.auto_arima_clustering_experiments,
             'classifier': md_classifier.classifier_experiments, 'regions': md_region.predefined_regions,
             'silhouette': lambda: {n: md_silhouette.silhouette_metadata_by_name(n) for n in ('brian', 'midregion', 'nordeste_small', 'whole_brazil')}}[spec['kind']]

    def snapshot(t):
        if spec['kind'] == 'silhouette':
            return {k: tuple(repr(f) for f in v if not hasattr(f, 'distance_matrix')) for k, v in t.items()}
        return {k: content(v) for k, v in t.items()}
    start = snapshot(table())
    ctx.check(start, 'nothing is predefined')
    for key in start:
        for other in start:
            t = table()
            v = t[key]
            if isinstance(v, SpatioTemporalRegionMetadata):
                v.scaled, v.name, v.year_start = not v.scaled, 'other', 1900
            t.pop(other)
            t[key] = None
            ctx.check(snapshot(table()) == start, '{}: the answer for {} changed'.format(spec['kind'], key))
            ctx.step()
            ctx.state(spec['kind'], key, other)


def run_orders(spec, ctx):
    ps = spec['p']
    for ds in spec['lists']:
        for qs in spec['lists']:
            for form in (list, tuple):
                table = {'one': [form(ps), form(ds), form(qs)], 'other': [form([9]), form([8]), form([7])]}
                with pr.patched(md_arima, predefined_arima_suites=lambda: table):
                    suite = md_arima.arima_suite_by_name('one')
                    other = md_arima.arima_suite_by_name('other')
                want = [(p, d, q) for p in ps for d in ds for q in qs]
                for again in range(2):
                    got = [(o.p, o.d, o.q) for o in suite.arima_params_gen()]
                    ctx.check(got == want, 'orders of {} {} {}: {}'.format(ps, ds, qs, got))
                    if again == 0:
                        next(suite.arima_params_gen(), None)
                        ctx.check([tuple(o) for o in other.arima_params_gen()] == [(9, 8, 7)], 'other suite')
                ctx.step(3)
            ctx.state('orders', ps, ds, qs)


def capture(module, argv):
    '''what a request resolves to: (regions that were read, answer of metadata_from_args)'''
    seen = {}

    def create_instance(self):
        seen['region'] = self
        raise Captured()

    def resolved(args):
        seen['answer'] = original(args)
        raise Captured()
    original = getattr(module, 'metadata_from_args', None)
    entry = getattr(module, 'processRequest', None) or module.call_parser
    root = logging.getLogger()
    level, handlers, old = root.level, list(root.handlers), sys.argv
    names = {'metadata_from_args': resolved} if original else {}
    sys.argv = ['program'] + argv
    try:
        with pr.patched(module, **names), pr.patched(SpatioTemporalRegionMetadata, create_instance=create_instance), \
                contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            entry()
    except Captured:
        pass
    except SystemExit:
        seen['refused'] = True
    finally:
        sys.argv = old
        root.setLevel(level)
        root.handlers[:] = handlers
    return seen


def run_program(spec, ctx):
    ctx.fresh_dir()
    module = importlib.import_module(spec['name'])
    kind, region = spec['kind'], spec['region']
    want_region = md_region.predefined_regions()[region]
    for rest in spec['arguments']:
        if kind == 'region' and spec['name'].endswith('silhouette') and raises(lambda: md_silhouette.silhouette_metadata_by_name(want_region.name)):
            ctx.outcome('no silhouette', want_region.name)
            continue
        if kind == 'arima':
            e = md_ac.experiments_for_arima_with_clusters()[rest[0]]
            if e.clustering_suite_id not in TYPES[e.clustering_type]():
                continue    # reported by its 'experiment' case
        seen = capture(module, rest[:1] + [region] + rest[1:] if kind == 'solver' else [region] + rest)
        what = '{} {} {}'.format(spec['name'], region, ' '.join(rest))
        ctx.check('refused' not in seen, what + ': refused')
        if kind == 'region':
            got = seen['answer'][0] if 'answer' in seen else seen.get('region')
            ctx.check(got is not None and content(got) == content(want_region), what + ': {}'.format(seen))
        elif kind == 'solver':
            if 'answer' in seen:
                answer = list(seen['answer'])
                k = rest[rest.index('-k') + 1]
                seed = rest[rest.index('--seed') + 1] if '--seed' in rest else '1'
                want = 'kmedoids_k{}_seed{}_lite'.format(k, seed) if 'kmedoids' in rest else 'regular_k{}'.format(k)
                ctx.check(content(answer[0]) == content(want_region), what + ': region {!r}'.format(answer[0]))
                ctx.check(repr(answer[1]) == want, what + ': clustering {!r}'.format(answer[1]))
                if 'simple' in rest:
                    ctx.check(md_arima.predefined_auto_arima()['simple'] in answer, what + ': {}'.format(answer))
            else:
                ctx.check(content(seen.get('region')) == content(want_region), what + ': {}'.format(seen))
        elif 'answer' in seen:
            answer = list(seen['answer'])
            ctx.check(content(answer[0]) == content(want_region), what + ': region {!r}'.format(answer[0]))
            if kind in ('auto', 'dnn'):
                e = md_ac.auto_arima_clustering_experiments()[rest[0]]
                suite = e.clustering_type, e.clustering_suite_id
                ctx.check(md_arima.predefined_auto_arima()[e.auto_arima_id] in answer, what + ': parameters {}'.format(answer[2:]))
            elif kind == 'arima':
                e = md_ac.experiments_for_arima_with_clusters()[rest[0]]
                suite = e.clustering_type, e.clustering_suite_id
                p, d, q = md_arima.predefined_arima_suites()[e.arima_suite_id]
                ctx.check([tuple(o) for o in answer[2].arima_params_gen()] == list(itertools.product(p, d, q)), what + ': orders')
                ctx.check(answer[2].name == e.arima_suite_id, what + ': name {}'.format(answer[2].name))
            else:
                suite = ('kmedoids', rest[0]) if kind == 'elbow' else tuple(rest[:2])
            ctx.check(members(answer[1]) == members(TYPES[suite[0]]()[suite[1]]), what + ': suite {}'.format(members(answer[1])[:3]))
            if kind in ('elbow', 'dnn') or kind == 'suite' and not spec['name'].endswith('medoid_distances'):
                ctx.check(answer[1].identifier == suite[1], what + ': suite is called {}'.format(answer[1].identifier))
            if kind == 'dnn':
                ctx.check(md_classifier.classifier_experiments()[rest[1]] in answer, what + ': classifier')
        ctx.step()
        ctx.state(spec['name'], region, *rest)


def region_of(name):
    return (name[:-7], True) if name.endswith('_scaled') else (name, False)


_best = {}


def run_centroid(spec, ctx):
    w = pr.make_world(ctx)
    menu = [tuple(m) for m in spec['menu']]
    known = {m: Point(90 + i, 7) for i, m in enumerate(menu) if spec['known'][i]}
    others = {(m[0], d): Point(70, 70) for m in menu for d in ('DistanceByRMSE', 'DistanceByDTWSpatial', 'dtw')}
    others.update({('nordeste_small_2015_2015_1spd', 'DistanceByDTW'): Point(60, 60)})
    for i in spec['history']:
        name = menu[i][0]
        if menu[i] in known:
            want = (90 + i, 7)
        else:
            if name not in _best:
                r = w.region(*region_of(name)).create_instance()
                m = DistanceByDTW().compute_distance_matrix(r)
                totals = np.sum(m, axis=1)
                j = int(np.argmin(totals))
                assert np.sum(totals <= totals[j] + 1e-9) == 1
                _best[name] = (j // r.y_len, j % r.y_len)
            want = _best[name]
        with pr.patched(md_centroid, predefined_regions=lambda: pr.regions(w), precalculated_centroids=lambda: {**others, **known}):
            got = md_centroid.centroid_by_region_and_distance(name, DistanceByDTW())
        ctx.check(got is not None and (int(got.x), int(got.y)) == want, 'centroid of {} with {} known: {} instead of {}'.format(name, sorted(known), got, want))
        ctx.step()
    ctx.state('centroid', spec['known'], spec['history'])


def run(spec, ctx):
    globals()['run_' + spec['m']](spec, ctx)
