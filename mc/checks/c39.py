'''
C39 silhouette analysis. Every small region, suite of clusterings (k, seeds, mode, initial medoids) and both
implementations of the analysis; and every history of commands (save, distances, clustering, show distances) over two
regions: the best clustering is one with the highest silhouette of the suite, computed from the distances of that
region; each clustering has a figure that shows its clusters and the silhouette of each of their points.
'''
import itertools
import os
import shutil

import numpy as np

from spta.clustering.kmedoids import kmedoids_metadata_generator
from spta.clustering.silhouette import SilhouetteAnalysis
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids.kmedoids import run_kmedoids
from spta.kmedoids.silhouette import KmedoidsWithSilhouette, do_silhouette_analysis, silhouette_default_metadata
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion

from mc import figs, fx, lib
from mc import programs as pg
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of suites and command histories vs a reference silhouette'
LEVEL_NOTE = ('Regions of 3 to 9 points (2 data sets), all distances in {1, 2, 5} and in {1, 1.0003, 2} between 4 points, all suites of 1-2 values of k and 1-2 seeds; all histories of 3 '
              '(thorough 4) commands over two regions with different shape, with and without stored distances.')
CASE_TIMEOUT = 300

T = 8
REGIONS = {'a': Region(0, 2, 1, 4), 'b': Region(1, 4, 0, 2), 'c': Region(0, 3, 0, 3), 'd': Region(2, 3, 0, 4), 'e': Region(0, 3, 2, 3)}
COMMANDS = ['save', 'distances', 'kmedoids', 'show_distances']


def data(kind):
    a = np.zeros((T, 4, 4))
    s = np.arange(T)
    for x, y in lib.points(4, 4):
        i = x * 4 + y
        group = (x + 2 * y) % 3 if kind == 0 else (x * y) % 2
        a[:, x, y] = 10 + 8 * group * (1 + np.sin(s * (group + 1))) + 0.9 * np.cos(i * 1.7 + s * 0.5) + 0.13 * i
    return a


def region(name, scaled):
    return SpatioTemporalRegionMetadata(name, REGIONS[name], 2015, 2015, 1, scaled=scaled)


def cases(tier):
    for kind, name, scaled in itertools.product((0, 1), sorted(REGIONS), (False, True)):
        yield {'m': 'suites', 'kind': kind, 'region': name, 'scaled': scaled}
    yield {'m': 'program'}
    values = (1, 2, 5) if tier == 'quick' else (1, 2, 3, 5)
    for v in (values, (1, 1.0003, 2)):
        for first in itertools.product(v, repeat=3):
            yield {'m': 'matrix', 'first': first, 'values': v}
    n = 3 if tier == 'quick' else 4
    for first in itertools.product(COMMANDS, ('a', 'b')):
        for second in itertools.product(COMMANDS, ('a', 'b')):
            yield {'m': 'hist', 'first': [first, second], 'len': n}


def silhouettes(m, labels):
    n = len(labels)
    out = []
    for i in range(n):
        own = [m[i][j] for j in range(n) if labels[j] == labels[i] and j != i]
        if not own:
            out.append(0.0)
            continue
        a = np.mean(own)
        b = min(np.mean([m[i][j] for j in range(n) if labels[j] == l]) for l in set(labels) if l != labels[i])
        out.append((b - a) / max(a, b))
    return out


def visible(d, md):
    r = md.region
    a = d[:, r.x1:r.x2, r.y1:r.y2]
    return (a - a.min(axis=0)) / (a.max(axis=0) - a.min(axis=0)) if md.scaled else a


class Expected:
    def __init__(self, d, md):
        self.vis = visible(d, md)
        self.m = lib.dtw_matrix(lib.series_of(self.vis))
        self.shape = self.vis.shape[1:]

    def clustering(self, k, seed, mode='lite', initial=None):
        dist = DistanceByDTW()
        dist.distance_matrix = np.array(self.m)
        X = np.array(lib.series_of(self.vis))
        r = run_kmedoids(X, k, dist, initial_medoids=initial, random_seed=seed, mode=mode, verbose=False)
        labels = [int(v) for v in r.labels]
        values = silhouettes(self.m, labels)
        return labels, values, float(np.mean(values)), [int(v) for v in r.medoids]


def check_figure(ctx, f, labels, values, shape, title, what):
    ctx.check(title in f.title, '{}: figure title {}'.format(what, f.title))
    two = [a for a in f.axes if a.images]
    sil = [a for a in f.axes if a.collections]
    ctx.check(len(sil) == 1, what + ': silhouette plot')
    if two:
        ctx.check(len(two[0].images[0]) == shape[0] and figs.same_groups(two[0].images[0], labels), '{}: clusters shown {} {}'.format(what, two[0].images[0].tolist(), labels))
    ctx.check('{:1.3f}'.format(np.mean(values)) in sil[0].title, '{}: score in {} instead of {}'.format(what, sil[0].title, np.mean(values)))
    k = len(set(labels))
    ctx.check(sil[0].texts == [str(i) for i in range(k)] and len(sil[0].collections) == k, what + ': clusters in the silhouette')
    for i in range(k):
        xs = sil[0].collections[i][:, 0]
        mine = sorted(v for v, l in zip(values, labels) if l == i)
        ys = sil[0].collections[i][:, 1]
        got = [xs[(ys == y)] for y in sorted(set(ys))]
        ctx.check(len(got) == len(mine) and all(min(abs(g - v)) < 1e-5 for g, v in zip(got, mine)), '{}: silhouette of cluster {}'.format(what, i))
    ctx.check(same(float(sil[0].lines[0][0][0]), float(np.mean(values)), rtol=1e-5), what + ': line of the average')


def suites(n, kind):
    ks = list(range(2, n))
    sets = [(k,) for k in ks] + [p for p in itertools.permutations(ks[:4], 2)]
    seeds = [(0,), (1, 0)] if kind == 0 else [(2, 1)]
    return list(itertools.product(sets, seeds))


def check_best(ctx, e, all_of, k, seed, what):
    '''(k, seed) is one of those with the highest score'''
    scores = {c: v[2] for c, v in all_of.items()}
    ctx.check((k, seed) in scores, '{}: best is {}'.format(what, (k, seed)))
    ctx.check(scores[(k, seed)] >= max(scores.values()) - 1e-6, '{}: best is {} of {}'.format(what, (k, seed), scores))


def run_suites(spec, ctx):
    d = data(spec['kind'])
    ctx.fresh_dir()
    fx.write_raw(d)
    md = region(spec['region'], spec['scaled'])
    e = Expected(d, md)
    n = e.shape[0] * e.shape[1]
    np.save(md.distances_filename, e.m)
    made = {}

    def expected(k, seed, mode='lite', initial=None):
        key = (k, seed, mode, str(initial))
        if key not in made:
            made[key] = e.clustering(k, seed, mode, initial)
        return made[key]
    st = md.create_instance()
    for ks, seeds in suites(n, spec['kind']):
        want = {(k, s): expected(k, s) for s in seeds for k in ks}
        what = '{} k={} seeds={}'.format(md, ks, seeds)
        # over stored clusterings
        for again in (False, True):
            with figs.recorded() as log:
                suite = kmedoids_metadata_generator(k_values=ks, seed_values=seeds)
                suite.identifier = 'test'
                score, best = SilhouetteAnalysis(md, DistanceByDTW(), suite).perform_analysis('outputs', 'pickle')
            check_best(ctx, e, want, best.metadata.k, best.metadata.random_seed, what)
            ctx.check(same(float(score), max(v[2] for v in want.values()), rtol=1e-5), '{}: score {}'.format(what, score))
            shots = figs.saved(log)
            ctx.check(len(shots) == len(want), '{}: {} figures'.format(what, len(shots)))
            names = set()
            for f, m in zip(shots, suite):
                labels, values, _, _ = want[(m.k, m.random_seed)]
                check_figure(ctx, f, labels, values, e.shape, str(m), '{} {}'.format(what, m))
                ctx.check(repr(m) in os.path.basename(f.name) and f.name.startswith('outputs') and repr(md) in f.name, what + ': name ' + f.name)
                names.add(f.name)
            ctx.check(len(names) == len(want), what + ': figures with the same name')
            ctx.step()
        shutil.rmtree('pickle', ignore_errors=True)
        # direct
        for mode, initial, show in (('lite', None, True), ('robust', None, False), ('lite', list(range(n))[::-1], True)):
            want = {(k, s): expected(k, s, mode, initial and initial[:k]) for s in seeds for k in ks}
            dist = DistanceByDTW()
            if show:
                dist.distance_matrix = np.array(e.m)
            m = silhouette_default_metadata(ks, seeds, kmedoids_mode=mode, distance_measure=dist, initial_medoids=initial,
                                            show_graphs=show, save_graphs='sil', verbose=False)
            with figs.recorded() as log:
                k, s, medoids, labels = do_silhouette_analysis(st, m)
            check_best(ctx, e, want, k, s, '{} {} {}'.format(what, mode, initial))
            ctx.check(same([int(v) for v in labels], want[(k, s)][0]), '{}: labels of the best'.format(what))
            ctx.check([int(v) for v in medoids] == want[(k, s)][3], '{}: medoids of the best'.format(what))
            shots = figs.saved(log)
            ctx.check(sorted(f.name for f in shots) == sorted('sil_k{}_seed{}.eps'.format(*c) for c in want), '{}: figures {}'.format(what, [f.name for f in shots]))
            for f in shots:
                for c, v in want.items():
                    if f.name == 'sil_k{}_seed{}.eps'.format(*c):
                        check_figure(ctx, f, v[0], v[1], e.shape, 'k={}, seed={}'.format(*c), '{} {}'.format(what, c))
            ctx.step()
        ctx.state(what)


def run_matrix(spec, ctx):
    '''All distances between 4 points: also suites where no clustering is good.'''
    ctx.fresh_dir()
    st = SpatioTemporalRegion(lib.distinct3d(3, 2, 2))
    X = st.as_2d
    fx.write_raw(lib.distinct3d(3, 2, 2))
    stored = SpatioTemporalRegionMetadata('four', Region(0, 2, 0, 2), 2015, 2015, 1)
    for rest in itertools.product(spec['values'], repeat=3):
        m = np.zeros((4, 4))
        m[np.triu_indices(4, 1)] = tuple(spec['first']) + rest
        m = m + m.T
        want = {}
        for k in (2, 3):
            dist = DistanceByDTW()
            dist.distance_matrix = np.array(m)
            r = run_kmedoids(X, k, dist, random_seed=0, mode='lite', verbose=False)
            labels = [int(v) for v in r.labels]
            values = silhouettes(m, labels)
            want[(k, 0)] = (labels, values, float(np.mean(values)), [int(v) for v in r.medoids])
        for ks in ((2,), (3,), (2, 3)):
            mine = {(k, 0): want[(k, 0)] for k in ks}
            dist = DistanceByDTW()
            dist.distance_matrix = np.array(m)
            md = silhouette_default_metadata(ks, (0,), distance_measure=dist, show_graphs=False, save_graphs=None, verbose=False)
            with figs.recorded():
                k, s, medoids, labels = do_silhouette_analysis(st, md)
            what = 'distances {} k={}'.format(m.tolist(), ks)
            check_best(ctx, None, mine, k, s, what)
            ctx.check(same([int(v) for v in labels], mine[(k, s)][0]) and [int(v) for v in medoids] == mine[(k, s)][3], what + ': labels of the best')
            ctx.step()
            # over stored distances
            np.save(stored.distances_filename, m)
            shutil.rmtree('pickle', ignore_errors=True)
            with figs.recorded():
                suite = kmedoids_metadata_generator(k_values=ks, seed_values=(0,))
                suite.identifier = 'test'
                score, best = SilhouetteAnalysis(stored, DistanceByDTW(), suite).perform_analysis('outputs', 'pickle')
            check_best(ctx, None, mine, best.metadata.k, best.metadata.random_seed, what + ' (stored)')
            ctx.check(same(float(score), max(v[2] for v in mine.values()), rtol=1e-6), '{}: score {}'.format(what, score))
            ctx.step()
        ctx.outcome(tuple(sorted(round(v[2], 2) for v in want.values())))
        ctx.state(m.tolist())


def run_history(spec, ctx):
    d = data(0)
    mds = {'a': region('a', False), 'b': region('b', True)}
    es = {n: Expected(d, md) for n, md in mds.items()}
    want = {n: {(k, s): e.clustering(k, s) for k in (2, 3) for s in (0, 1)} for n, e in es.items()}
    rest = list(itertools.product(itertools.product(COMMANDS, ('a', 'b')), repeat=spec['len'] - len(spec['first'])))
    for tail in rest:
        history = [tuple(c) for c in spec['first']] + list(tail)
        ctx.fresh_dir()
        fx.write_raw(d)
        os.makedirs('plots', exist_ok=True)
        analyses = {n: KmedoidsWithSilhouette(mds[n], silhouette_default_metadata((2, 3), (0, 1), plot_name=n, verbose=False)) for n in mds}
        saved, distances = set(), set()
        for i, (command, n) in enumerate(history):
            what = 'history {}'.format(history[:i + 1])
            e = es[n]
            ok = command == 'save' or n in saved
            if command == 'show_distances':
                ok = ok and n in distances
            try:
                with figs.recorded() as log:
                    analyses[n].execute_command(command)
                done = True
            except Exception as ex:
                if ok:
                    raise
                done = False
            ctx.step()
            if not ok:
                ctx.check(not done, what + ': nothing stored to work on')
                break
            if command == 'save':
                saved.add(n)
                ctx.check(same(np.load(mds[n].dataset_filename), e.vis, rtol=1e-12), what + ': saved region')
            elif command == 'distances':
                distances.add(n)
                ctx.check(same(np.load(mds[n].distances_filename), e.m, rtol=1e-6), what + ': saved distances')
            elif command == 'show_distances':
                x, y = e.shape
                shots = {f.name: f for f in figs.saved(log)}
                for name, p in (('0_0', 0), ('center', (x // 2) * y + y // 2)):
                    f = [v for k, v in shots.items() if name in k and '_' + n in k]
                    ctx.check(len(f) == 1 and same(f[0].axes[0].images[0].astype(float), e.m[p].reshape(x, y), rtol=1e-6), '{}: distances to {}'.format(what, name))
            else:
                shots = figs.saved(log)
                names = ['plots/{}_k{}_seed{}.eps'.format(n, *c) for c in want[n]]
                ctx.check(sorted(f.name for f in shots) == sorted(names), '{}: figures {}'.format(what, [f.name for f in shots]))
                for c, v in want[n].items():
                    f = [f for f in shots if f.name.endswith('{}_k{}_seed{}.eps'.format(n, *c))]
                    check_figure(ctx, f[0], v[0], v[1], e.shape, 'k={}, seed={}'.format(*c), '{} {}'.format(what, c))
                last = [f for f in log if f.kind == 'show' and 'Best' in f.title][-1]
                best = [c for c in want[n] if 'k={}'.format(c[0]) in last.title]
                top = max(v[2] for v in want[n].values())
                fits = [c for c in best if want[n][c][2] >= top - 1e-6]
                ctx.check(fits, '{}: the best is {}'.format(what, last.title))
                check_figure(ctx, last, want[n][fits[0]][0], want[n][fits[0]][1], e.shape, '', what + ' best')
            ctx.state(tuple(history[:i + 1]))


def run_program(ctx):
    '''The command line program, each command in turn for each region.'''
    w = pg.make_world(ctx)
    os.makedirs('plots', exist_ok=True)
    for name, md in sorted(pg.regions(w).items()):
        if md.x_len * md.y_len < 4:
            continue
        e = Expected(w.data, md)
        want = {(k, s): e.clustering(k, s) for k in (2, 3) for s in (0, 2)}
        with figs.recorded() as log:
            for command in COMMANDS:
                del log[:]
                pg.program(w, 'experiments.clustering.silhouette', [name, command],
                           silhouette_metadata_by_name=lambda n: silhouette_default_metadata((2, 3), (0, 2), plot_name=n + '_x', verbose=False))
                if command == 'save':
                    ctx.check(same(np.load(md.dataset_filename), e.vis, rtol=1e-12), name + ': saved region')
                elif command == 'distances':
                    ctx.check(same(np.load(md.distances_filename), e.m, rtol=1e-6), name + ': saved distances')
                elif command == 'kmedoids':
                    last = [f for f in log if f.kind == 'show' and 'Best' in f.title][-1]
                    top = max(v[2] for v in want.values())
                    ctx.check('{:1.3f}'.format(top) in last.axes[1].title, '{}: best score {}'.format(name, last.axes[1].title))
                ctx.step()
        os.remove(md.dataset_filename)
        ctx.state(name)


def run(spec, ctx):
    if spec['m'] == 'program':
        run_program(ctx)
    elif spec['m'] == 'suites':
        run_suites(spec, ctx)
    elif spec['m'] == 'matrix':
        run_matrix(spec, ctx)
    else:
        run_history(spec, ctx)
