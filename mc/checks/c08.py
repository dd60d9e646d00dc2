'''
C08 configuration identity. Every clustering configuration of a parameter box (type, k, seed, mode,
initial medoids, tolerance, iterations), every region metadata of a box, distance measure, model
parameters, solver query: equality and hashing coincide with equality of parameters, the text
representation recovers the configuration, different configurations never share a storage path,
equal ones always do. Suites enumerate exactly the product of their parameters, repeatedly.
'''
import itertools
import os

from experiments.metadata.clustering import get_suite, kmedoids_suites, regular_suites
from experiments.metadata.region import predefined_regions
from spta.arima import ArimaSuiteParams, AutoArimaParams
from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata, kmedoids_metadata_generator
from spta.clustering.regular import RegularClusteringMetadata, regular_metadata_generator
from spta.clustering.suite import ClusteringSuite, OrganizeClusteringSuite
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.distance.rmse import DistanceByRMSE
from spta.model.knn import KNNParams
from spta.model.mean import MeanOfPastParams
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.solver.metadata import SolverMetadataBuilder

TECHNIQUE = 'exhaustive enumeration of configuration pairs (identity, representation, storage paths)'
LEVEL_NOTE = ('Pairs of ~700 clustering configurations, ~150 region configurations, 5 measures, 11 models; '
              'names without underscores followed by digits; all suite parameter lists up to 3x3 values.')


YEARS = ((2014, 2014), (2014, 2015), (2015, 2015), (1899, 1899), (1900, 2015), (1979, 1979), (1979, 2015), (1999, 1999), (1999, 2000),
         (2000, 2000), (2079, 2079), (201, 415), (20, 1415))


def kmed_params(big):
    ks = (1, 2, 3, 11, 12, 21) if not big else tuple(range(1, 26))
    seeds = (0, 1, 2, 11, 12) if not big else tuple(range(0, 14))
    for k in ks:
        for seed in seeds:
            for mode in ('lite', 'robust'):
                yield dict(k=k, random_seed=seed, mode=mode)
                for extra in (dict(initial_medoids=[1, 2]), dict(initial_medoids=[2, 1]),
                              dict(initial_medoids=[12]), dict(tol=0.1), dict(tol=0.01), dict(max_iter=10),
                              dict(max_iter=1), dict(max_iter=10, tol=0.1), dict(tol=1e-05), dict(tol=2.5),
                              dict(tol=0.0), dict(max_iter=120, tol=1e-12)):
                    yield dict(k=k, random_seed=seed, mode=mode, **extra)


def fingerprint(p):
    return (p['k'], p['random_seed'], p['mode'], tuple(p.get('initial_medoids') or ()),
            p.get('tol', 0.001), p.get('max_iter', 1000))


def regions(big):
    for name in ('small', 'smaller', 'whole_brazil'):
        for (y1, y2) in YEARS:
            for spd in (1, 4):
                for scaled in (False, True):
                    yield (name, y1, y2, spd, scaled)


def measures():
    return [('dtw', DistanceByDTW), ('rmse', DistanceByRMSE), ('s0.5', lambda: DistanceBySpatialDTW(0.5)),
            ('s0.25', lambda: DistanceBySpatialDTW(0.25)), ('s2', lambda: DistanceBySpatialDTW(2))]


def models():
    out = [AutoArimaParams(*t) for t in [(1, 1, 3, 3, None, True), (1, 1, 3, 3, 1, True),
                                         (1, 1, 3, 3, None, False), (0, 1, 3, 3, None, True),
                                         (1, 0, 3, 3, None, True), (1, 1, 2, 3, None, True),
                                         (1, 1, 3, 2, None, True)]]
    out += [MeanOfPastParams(p) for p in (1, 8, 18)]
    out += [KNNParams(k, d()) for k in (1, 2, 12) for d in (DistanceByDTW, DistanceByRMSE)]
    return out


def cases(tier):
    big = tier != 'quick'
    for part in ('kmedoids', 'regular', 'paths', 'regionpaths', 'solver', 'label', 'predefined', 'arima'):
        yield {'part': part, 'big': big}
    vals = [1, 2, 3, 10]
    for nk in (1, 2, 3):
        for ks in itertools.permutations(vals, nk):
            for ns in (0, 1, 2, 3):
                for seeds in itertools.combinations([0, 1, 5], ns):
                    yield {'part': 'suite', 'ks': ks, 'seeds': seeds}


def distinct_map(ctx, pairs, what):
    '''pairs: (config, value): value equal iff config equal.'''
    seen, back = {}, {}
    for cfg, val in pairs:
        ctx.check(val not in back or back[val] == cfg,
                  '{}: {} and {} share {!r}'.format(what, back.get(val), cfg, val))
        ctx.check(cfg not in seen or seen[cfg] == val,
                  '{}: {} is identified by {!r} and {!r}'.format(what, cfg, seen.get(cfg), val))
        seen[cfg] = val
        back[val] = cfg
        ctx.step()
        ctx.state(what, cfg)


def run(spec, ctx):
    part = spec['part']
    big = spec.get('big')
    factory = ClusteringMetadataFactory()
    if part == 'kmedoids':
        params = list(kmed_params(big))
        ms = [(fingerprint(p), KmedoidsClusteringMetadata(**p)) for p in params]
        ms2 = [(fingerprint(p), factory.instance('kmedoids', p['k'], **{a: b for a, b in p.items() if a != 'k'}))
               for p in params]
        distinct_map(ctx, [(f, repr(m)) for f, m in ms] + [(f, repr(m)) for f, m in ms2], 'kmedoids repr')
        other = [RegularClusteringMetadata(k) for k in (1, 2, 3)]
        d = {}
        for f, m in ms:
            d[m] = f
        ctx.check(len(d) == len(set(f for f, _ in ms)), 'configurations collide as keys')
        for f, m in ms2:
            ctx.check(d.get(m) == f, 'an equal configuration is not found: {!r}'.format(m))
        sample = ms if big is False else ms[::3]
        for f1, m1 in sample[::2]:
            for f2, m2 in ms2[::3]:
                ctx.check((m1 == m2) == (f1 == f2), 'equality of {!r} and {!r}'.format(m1, m2))
                ctx.step()
            for o in other:
                ctx.check(m1 != o and o != m1, 'k-medoids equals regular')
        for (f, m), p in zip(ms, params):
            if 'initial_medoids' in p:
                continue
            back = factory.from_repr(repr(m))
            ctx.check(type(back) is type(m) and back == m and repr(back) == repr(m) and
                      fingerprint(vars(back)) == f, 'from_repr({!r})'.format(m))
            back = KmedoidsClusteringMetadata.from_repr(repr(m))
            ctx.check(fingerprint(vars(back)) == f, 'from_repr({!r})'.format(m))
            ctx.step()
            dd = m.as_dict()
            ctx.check((dd['type'], dd['k'], dd['seed'], dd['mode']) == ('kmedoids',) + f[:3], 'as_dict')
        return
    if part == 'regular':
        ks = range(1, 200)
        distinct_map(ctx, [(k, repr(RegularClusteringMetadata(k))) for k in ks], 'regular repr')
        for k in ks:
            m = RegularClusteringMetadata(k)
            for back in (factory.from_repr(repr(m)), RegularClusteringMetadata.from_repr(repr(m)),
                         factory.instance('regular', k, random_seed=3)):
                ctx.check(back == m and back.k == k and hash(back) == hash(m), 'regular {}'.format(k))
            ctx.check(m.as_dict()['k'] == k and m.as_dict()['type'] == 'regular', 'as_dict')
        return
    if part == 'label':
        for k in range(1, 160, 1 if big else 3):
            for seed in range(0, 12):
                for mode in ('lite', 'robust'):
                    for index in (0, k - 1):
                        m = KmedoidsClusteringMetadata.from_classifier_label(
                            '{}-{}-{}'.format(k, seed, index), mode=mode)
                        ctx.check(m == KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode) and
                                  m.k == k and m.random_seed == seed and m.mode == mode,
                                  'label {}-{}-{}'.format(k, seed, index))
                        ctx.step()
                ctx.state('label', k, seed)
        return
    if part in ('paths', 'regionpaths'):
        mds = [(r, SpatioTemporalRegionMetadata(r[0], Region(0, 2, 1, 4), r[1], r[2], r[3], scaled=r[4]))
               for r in regions(big)]
        if part == 'regionpaths':
            for attr in ('dataset_filename', 'distances_filename', 'scaled_min_filename', 'scaled_max_filename'):
                distinct_map(ctx, [(r, getattr(m, attr)) for r, m in mds], attr)
            allnames = [getattr(m, attr) for r, m in mds for attr in (
                'dataset_filename', 'distances_filename', 'scaled_min_filename', 'scaled_max_filename')]
            ctx.check(len(set(allnames)) == len(allnames), 'files of different kinds share a name')
            for home in ('pickle', '/tmp/other'):
                for fn in ('pickle_filename', 'pickle_dir', 'output_dir'):
                    distinct_map(ctx, [((home, r), getattr(m, fn)(home)) for r, m in mds], fn + home)
                    ctx.check(all(os.path.normpath(getattr(m, fn)(home)).startswith(home) for _, m in mds), 'home')
            return
        cl = [(('k',) + fingerprint(p), KmedoidsClusteringMetadata(**p)) for p in list(kmed_params(False))[::7]]
        cl += [(('r', k), RegularClusteringMetadata(k)) for k in (1, 2, 11, 12)]
        out, pick, pdir = [], [], []
        for r, m in mds[::2 if not big else 1]:
            for name, mk in measures():
                for rep in range(2):
                    dist = mk()
                    for f, c in cl:
                        algo = ClusteringFactory(dist).instance(c)
                        for home in ('a', 'b/c'):
                            cfg = (home, r, name, f)
                            out.append((cfg, algo.output_dir(home, m)))
                            pick.append((cfg, algo.pickle_full_path(m, home)))
                            pdir.append((cfg, c.pickle_dir(m, dist, home)))
                            ctx.check(pick[-1][1].startswith(home + os.sep), 'saved outside its home')
        distinct_map(ctx, out, 'output dir')
        distinct_map(ctx, pick, 'partition file')
        distinct_map(ctx, pdir, 'pickle dir')
        return
    if part == 'solver':
        mds = [(r, SpatioTemporalRegionMetadata(r[0], Region(0, 9, 1, 9), r[1], r[2], r[3], scaled=r[4]))
               for r in list(regions(False))[::5]]
        dirs, csvs, files, csvdirs = [], [], [], []
        for r, m in mds:
            for params in models():
                mid = (type(params).__name__, repr(tuple(map(repr, params))))
                for tp in (1, 8, 18):
                    for err in ('sMAPE', 'MASE'):
                        b = SolverMetadataBuilder(m, params, tp, err).build()
                        for home in ('o', 'p'):
                            dirs.append(((home, r, mid), b.output_dir(home)))
                        for prefix in ('each', 'medoids'):
                            for whole in (True, False):
                                cfg = (prefix, mid, tp, whole)
                                files.append((cfg, b.trained_model_region_filename(prefix, whole)))
                        for c in (KmedoidsClusteringMetadata(2, random_seed=3), KmedoidsClusteringMetadata(3, random_seed=3),
                                  RegularClusteringMetadata(2)):
                            for name, mk in measures()[:3]:
                                bc = SolverMetadataBuilder(m, params, tp, err).with_clustering(c, mk()).build()
                                dirs.append((('o', r, mid, name, repr(c)), bc.output_dir('o')))
                                for rect in (Region(0, 1, 0, 1), Region(0, 11, 0, 1), Region(0, 1, 1, 2)):
                                    csvdirs.append((('o', r, mid, name, repr(c), rect), bc.csv_dir('o', rect)))
                                    for tf in (0, 1, 8):
                                        for prefix in ('query', 'query_summary'):
                                            csvs.append(((prefix, repr(c), rect, tp, tf, err),
                                                         bc.csv_filename(prefix, rect, tf)))
        distinct_map(ctx, dirs, 'solver output dir')
        distinct_map(ctx, csvs, 'query file')
        distinct_map(ctx, csvdirs, 'query dir')
        distinct_map(ctx, files, 'trained model file')
        return
    if part == 'predefined':
        for kind, suites in (('kmedoids', kmedoids_suites()), ('regular', regular_suites())):
            for name in suites:
                s = get_suite(kind, name)
                items = list(s)
                ctx.check(len(set(items)) == len(items) and len(items) == len(list(s)), 'suite ' + name)
                ctx.check(all(i.name == kind for i in items), 'suite type')
                for i in items:
                    ctx.check(factory.from_repr(repr(i)) == i, 'suite member {!r}'.format(i))
                    ctx.step()
                    ctx.state(kind, name, repr(i))
        for key, md in predefined_regions().items():
            ctx.check(repr(md) == key, 'predefined region {} is {!r}'.format(key, md))
        return
    if part == 'arima':
        for np_ in range(1, 4):
            for nd in range(1, 4):
                for nq in range(1, 4):
                    P, D, Q = range(np_), [5 * i for i in range(nd)], tuple(range(10, 10 + nq))
                    s = ArimaSuiteParams(P, D, Q)
                    want = list(itertools.product(P, D, Q))
                    for _ in range(2):
                        got = [(a.p, a.d, a.q) for a in s.arima_params_gen()]
                        ctx.check(sorted(got) == sorted(want), 'arima suite {} {} {}'.format(P, D, Q))
                    ctx.step()
                    ctx.state('arima', np_, nd, nq)
        return

    # suites
    ks, seeds = spec['ks'], spec['seeds']
    for kconv in (tuple, list, set):
        kk = kconv(ks)
        if seeds:
            variants = [tuple(seeds), list(seeds), set(seeds)] + ([seeds[0]] if len(seeds) == 1 else [])
            for mode in ('lite', 'robust'):
                for sv in variants:
                    want = set((k, s, mode) for k in ks for s in seeds)
                    s1 = ClusteringSuite('quick', 'kmedoids', k=kk, random_seed=sv, mode=mode)
                    s2 = ClusteringSuite('slow', 'kmedoids', k=[4], random_seed=[9])
                    s3 = kmedoids_metadata_generator(kk, sv if not isinstance(sv, int) else [sv], mode=mode)
                    for s in (s1, s3):
                        first = [(m.k, m.random_seed, m.mode) for m in s]
                        ctx.check(len(first) == len(want) and set(first) == want,
                                  'suite k={} seeds={}: {}'.format(kk, sv, first))
                        nested = [[(m.k, m.random_seed, m.mode) for m in s] for _ in s]
                        ctx.check(all(n == first for n in nested), 'nested iteration over a suite')
                        org = OrganizeClusteringSuite().organize_kmedoids_suite(s)
                        ctx.check(set(org) == set(seeds), 'organized seeds')
                        for seed, items in org.items():
                            ctx.check([m.k for m in items] == sorted(ks) and
                                      all(m.random_seed == seed for m in items), 'organized by k')
                    ctx.check([(m.k, m.random_seed) for m in s2] == [(4, 9)], 'suites interfere')
                    ctx.check(repr(s1) == 'kmedoids-quick' and repr(s2) == 'kmedoids-slow', 'suite name')
                    ctx.step()
        else:
            for s in (ClusteringSuite('q', 'regular', k=kk), regular_metadata_generator(kk)):
                got = [m.k for m in s]
                ctx.check(sorted(got) == sorted(ks) and [m.k for m in s] == got, 'regular suite {}'.format(kk))
                ctx.step()
    ctx.state('suite', ks, seeds)
    ctx.outcome(len(ks), len(seeds))
