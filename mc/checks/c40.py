'''
C40 figures. Every partition of small regions with every rectangle and mark; the figure of every query to a solver;
every figure of the analysis programs over regions, clusterings, errors and failing models; distance maps and groups of
series: what is drawn is the data the figure is about, and each figure is saved under its own name.
'''
import itertools
import os
import re

import numpy as np
from matplotlib import pyplot as plt

from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region
from spta.region.partition import PartitionRegionCrisp
from spta.region.spatial import SpatialRegion
from spta.util import plot as plot_util

from mc import fakearima, figs, lib
from mc import programs as pg
from mc import solverworld as sw
from mc.checks import c38
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of figures, whose drawn elements are compared with the data'
LEVEL_NOTE = ('All partitions into up to 3 clusters of regions up to 2x3 with every rectangle; all rectangles of 5 solvers; '
              'all figures of 3 programs over 4 regions, 3 errors, 3 sets of failing models.')
CASE_TIMEOUT = 600


def cases(tier):
    big = tier != 'quick'
    for x, y in [(1, 1), (1, 3), (2, 2), (3, 1), (2, 3)] + ([(3, 2), (1, 5), (3, 3)] if big else []):
        for k in (1, 2, 3):
            if k <= x * y:
                for part in range(3):
                    yield {'m': 'partition', 'x': x, 'y': y, 'k': k, 'part': part}
    for k in (9, 16, 17, 20, 30):
        yield {'m': 'many', 'k': k}
    for c in range(len(SOLVERS)):
        yield {'m': 'solver', 'c': c}
    for region, err, fail in itertools.product(('wide', 'wide_scaled', 'tall', 'tall_scaled'), c38.ERRORS, c38.FAILS):
        yield {'m': 'program', 'req': ['pdq', region, 'arima_two_quick', err, None, fail]}
        yield {'m': 'program', 'req': ['auto', region, 'simple_kmedoids_quick', err, None, fail]}
        yield {'m': 'program', 'req': ['auto', region, 'simple_regular_quick', err, None, fail]}
        for exp in ('simple_kmedoids_quick', 'simple_regular_quick'):
            yield {'m': 'program', 'req': ['dist', region, exp, err, 3, fail]}
    for region in ('wide', 'tall_scaled', 'row', 'one', 'row_scaled'):
        yield {'m': 'distances', 'region': region}
    for n, t in itertools.product((1, 2, 3, 7), (1, 2, 5)):
        yield {'m': 'series', 'n': n, 't': t}


SOLVERS = [('wide', False, ('k', 2, 0), 3, 'MSE', 'stub'), ('tall', True, ('k', 3, 1), 2, 'MASE', 'mean'), ('row', False, ('r', 2), 3, 'MSE', 'stub'),
           ('wide', True, ('r', 3), 2, 'sMAPE', 'stub2'), ('one', False, ('k', 1, 0), 3, 'MSE', 'mean')]

BLACK = (0., 0., 0., 1.)


def check_partition(ctx, ax, x, y, labels, rect, marks, what):
    ctx.check(len(ax.images) == 1 and ax.images[0].shape == (x, y, 4) and figs.same_groups(ax.images[0], labels), what + ': clusters')
    got = {}
    for xs, ys, marker, color in ax.lines:
        ctx.check(len(xs) == 1 and marker == 'x', what + ': marks')
        got[(int(ys[0]), int(xs[0]))] = color
    ctx.check(len(ax.lines) == len(marks) and sorted(got) == sorted((int(p[0]), int(p[1])) for p in marks), '{}: marks at {}'.format(what, sorted(got)))
    for (i, j), color in got.items():
        black = tuple(ax.images[0][i, j]) == BLACK
        ctx.check(color == ('w' if black else 'k'), '{}: mark at {} cannot be seen'.format(what, (i, j)))
    if rect is None:
        ctx.check(not ax.patches, what + ': rectangle')
    else:
        x1, x2, y1, y2 = rect
        ctx.check(len(ax.patches) == 1 and same(list(ax.patches[0]), [y1 - 0.5, x1 - 0.5, y2 - y1, x2 - x1]), '{}: rectangle {}'.format(what, ax.patches))


def run_partition(spec, ctx):
    x, y, k = spec['x'], spec['y'], spec['k']
    canon = set(lib.rgs(x * y, k))
    for n, lab in enumerate(lib.surjections(x * y, k)):
        if n % 3 != spec['part']:
            continue
        canonical = lab in canon
        part = PartitionRegionCrisp(np.array(lab).reshape(x, y), k)
        firsts = [lab.index(c) for c in range(k)]
        medoids = [Point(i // y, i % y) for i in firsts]
        for rect in [None] + lib.rects(x, y):
            r = None if rect is None else Region(*rect)
            for own in (False, True):
                for marks in ((), medoids):
                    if own and not canonical and rect is not None or not canonical and rect is not None and rect[0]:
                        continue
                    what = '{} {} {} {}'.format(lab, rect, own, marks)
                    with figs.recorded() as log:
                        if own:
                            plot_util.plot_partition(part, title='the title', rectangle_region=r, mark_points=marks or None)
                        else:
                            fig, ax = plt.subplots(1, 1)
                            plot_util.plot_partition(part, title='the title', subplot=ax, rectangle_region=r, mark_points=marks or None)
                        f = figs.Figure('end', None, plt.gcf())
                    ctx.check(len(f.axes) == 1 and f.axes[0].title == 'the title', what + ': axes and title')
                    check_partition(ctx, f.axes[0], x, y, lab, rect, marks, what)
                    if own:
                        ctx.check(log and log[-1].kind == 'show', what + ': shown')
                        check_partition(ctx, log[-1].axes[0], x, y, lab, rect, marks, what + ' (as shown)')
                    ctx.step()
        # labels given as a list
        with figs.recorded() as log:
            fig, ax = plt.subplots(1, 1)
            plot_util.plot_2d_clusters(np.array(lab), (x, y), title='t', subplot=ax)
            check_partition(ctx, figs.Figure('end', None, fig).axes[0], x, y, lab, None, (), 'labels {}'.format(lab))
        ctx.state(lab, x, y)


def run_many(spec, ctx):
    '''More clusters than usual, still told apart.'''
    k = spec['k']
    for x, y in ((5, 6), (3, 10), (10, 3), (6, 5)):
        lab = [(i * 7 + i // k) % k if i >= k else i for i in range(x * y)]
        for shift in (0, 1, k - 1):
            labels = [(v + shift) % k for v in lab]
            part = PartitionRegionCrisp(np.array(labels).reshape(x, y), k)
            medoids = [Point(*divmod(labels.index(c), y)) for c in range(k)]
            for rect, marks in itertools.product((None, (0, 2, 1, 3)), ((), medoids)):
                with figs.recorded():
                    fig, ax = plt.subplots(1, 1)
                    plot_util.plot_partition(part, title='t', subplot=ax, rectangle_region=rect and Region(*rect), mark_points=marks or None)
                    f = figs.Figure('end', None, fig)
                what = '{} clusters of {}x{} {} {}'.format(k, x, y, rect, bool(marks))
                check_partition(ctx, f.axes[0], x, y, labels, rect, marks, what)
                ctx.step()
            with figs.recorded():
                fig, ax = plt.subplots(1, 1)
                plot_util.plot_2d_clusters(np.array(labels), (x, y), title='t', subplot=ax)
                check_partition(ctx, figs.Figure('end', None, fig).axes[0], x, y, labels, None, (), '{} labels of {}x{}'.format(k, x, y))
            ctx.state(k, x, y, shift)


def run_solver(spec, ctx):
    cfg = SOLVERS[spec['c']]
    w = sw.world(ctx)
    w.train(cfg).save()
    solver = w.load(cfg)
    r = sw.REGIONS[cfg[0]]
    x, y = r.x2 - r.x1, r.y2 - r.y1
    labels = [int(v) for v in solver.partition.membership_of_point_indices(list(range(x * y)))]
    medoids = [(int(p.x), int(p.y)) for p in solver.partition.medoids]
    names = {}
    for rect in lib.rects(x, y):
        for flen, home in ((0, 'outputs'), (2, 'home')):
            with figs.recorded() as log:
                solver.predict(Region(*rect), flen, output_home=home)
            what = '{} {} {}'.format(cfg, rect, flen)
            f = figs.saved(log)
            ctx.check(len(f) == 1, what + ': one figure')
            f = f[0]
            ctx.check(f.name.startswith(home + os.sep) and repr(w.region(cfg[0], cfg[1])) in f.name and repr(sw.clustering(cfg[2])) in f.name, what + ': name ' + f.name)
            names.setdefault(f.name, set()).add((home, rect))
            check_partition(ctx, f.axes[0], x, y, labels, rect, medoids, what)
            corners = {(int(a), int(b)) for a, b in re.findall(r'\((\d+), (\d+)\)', f.axes[0].title)}
            want = set(itertools.product((r.x1 + rect[0], r.x1 + rect[1]), (r.y1 + rect[2], r.y1 + rect[3])))
            ctx.check(corners == want and str(sw.clustering(cfg[2])) in f.axes[0].title, '{}: title {}'.format(what, f.axes[0].title))
            ctx.step()
        ctx.state(cfg, rect)
    ctx.check(all(len(v) == 1 for v in names.values()), 'figures with the same name: {}'.format(names))


def run_program(spec, ctx):
    req = spec['req']
    kind, region, exp, err, flen, fail = req
    w = pg.make_world(ctx)
    tp = flen or 8
    with figs.recorded() as log:
        printed = c38.request(w, req, ['--plots'])
    what = str(req)
    c38.check(ctx, w, req, printed, what + ' with plots')
    ref = pg.Reference(w.data, region, tp, err, ('arima',))
    bad = c38.failing(w, region, fail)
    shots = figs.saved(log)
    ctx.check(len({f.name for f in shots}) == len(shots), '{}: figures with the same name {}'.format(what, [f.name for f in shots]))
    left = list(shots)
    for cl in c38.CLUSTERINGS[exp]:
        labels, medoids = c38.partition(w, region, cl)
        name = repr(sw.clustering(cl))
        for c, order in itertools.product(range(cl[1]), c38.ORDERS[exp] if kind == 'pdq' else [None]):
            m = medoids[c]
            if m in bad:
                continue
            members = c38.members_of(ref, labels, c)
            a = c38.Analysis(w, region, tp, err, order, members, bad)
            o = order or fakearima.auto_order(ref.vis[:-tp, m[0], m[1]])
            tail = 'p{}-d{}-q{}.pdf'.format(*o)
            want = sorted((round(lib.dtw(ref.vis[:, m[0], m[1]], ref.vis[:, p[0], p[1]]), 5), round(a.error_at(m, p), 5)) for p in members)
            found = []
            for f in left:
                if f.name.endswith(tail) and '__{}__'.format(name) in f.name and '__{}__'.format(err) in f.name and repr(pg.regions(w)[region]) in f.name:
                    xs, ys = f.axes[0].lines[0][:2]
                    got = sorted((round(float(i), 5), round(float(j), 5)) for i, j in zip(xs, ys))
                    if len(got) == len(want) and np.allclose(np.array(got), np.array(want), atol=1e-4, equal_nan=True):
                        found.append(f)
            ctx.check(found, '{}: no figure for cluster {} of {} {}'.format(what, c, name, o))
            left.remove(found[0])
            ax = found[0].axes[0]
            ctx.check(err in ax.ylabel and str(o) in ' '.join(ax.texts), '{}: labels {} {}'.format(what, ax.ylabel, ax.texts))
            ctx.step()
    ctx.state(what)


def run_distances(spec, ctx):
    w = pg.make_world(ctx)
    os.makedirs('plots', exist_ok=True)
    region = spec['region']
    ref = pg.Reference(w.data, region, 8, 'MSE', None)
    m = lib.dtw_matrix(lib.series_of(ref.vis))
    with figs.recorded() as log:
        pg.program(w, c38.MATRIX, [region, 'dtw', '--plots'])
    shots = {f.name: f for f in figs.saved(log)}
    x, y = ref.x, ref.y
    for name, p in (('0_0', 0), ('center', (x // 2) * y + y // 2)):
        f = [v for k, v in shots.items() if name in k]
        ctx.check(len(f) == 1 and same(f[0].axes[0].images[0].astype(float), m[p].reshape(x, y), rtol=1e-6), '{}: distances to {}'.format(region, name))
        ctx.step()
    ctx.state(region)


def run_series(spec, ctx):
    n, t = spec['n'], spec['t']
    group = [lib.distinct3d(t, 1, n)[:, 0, i] for i in range(n)]
    for colors in [None] + list(itertools.product(range(2), repeat=n))[:16]:
        with figs.recorded() as log:
            if colors is None:
                plot_util.plot_series_group(group, t)
            else:
                plot_util.plot_series_group_by_color(group, t, colors)
        f = log[-1]
        ctx.check(len(f.axes[0].lines) == n, 'lines')
        for s, line in zip(group, f.axes[0].lines):
            ctx.check(same(list(line[0]), [float(i) for i in range(t)]) and same(list(line[1]), list(s)), 'series drawn')
        if colors is not None:
            ctx.check([line[3] for line in f.axes[0].lines] == [plot_util.PALETTE[c] for c in colors], 'colours')
        ctx.step()
        ctx.state(n, t, colors)


def run(spec, ctx):
    globals()['run_' + spec['m']](spec, ctx)
