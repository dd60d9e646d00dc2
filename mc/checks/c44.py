'''
C44 distance histograms. Every distance matrix of small regions over {0, 1, 2} (ties and zero distances included) and
a set of larger ones, every partition, every point of interest: the statistics of the members, of the points outside
when all of them are requested, the maximum distance with every bound. Figures: the bars, the common scale, the
position of each cluster and the name of the file, for every partition of small regions, every choice of centroids,
bins and requested points.
'''
import itertools
import os

import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib import pyplot as plt

from spta.clustering.regular import RegularClusteringAlgorithm, RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.distance.variance import DistanceHistogram, DistanceHistogramClusters, DistanceHistogramWithRandomPointsOtherClusters
from spta.region import Point
from spta.region.temporal import SpatioTemporalRegion

from mc import figs, fx, lib
from mc.core import ident, raises, same

TECHNIQUE = 'exhaustive enumeration of distance matrices, partitions, centroids and figure options on the real code'
LEVEL_NOTE = ('All symmetric matrices over {0,1,2} of 2-3 points (4 points: over {0,1}; thorough {0,1,2}) with all partitions and points; '
              'figures of all partitions of 4 regions into 2-3 (thorough 4) clusters with all centroids.')
CASE_TIMEOUT = 300
FIGURE_SHAPES = ((1, 4), (2, 2), (3, 1), (2, 3))


def cases(tier):
    for x, y in ((1, 2), (1, 3), (3, 1)):
        yield {'m': 'stats', 'x': x, 'y': y, 'alphabet': [0, 1, 2], 'first': -1}
    for first in ((0, 1) if tier == 'quick' else (0, 1, 2)):
        yield {'m': 'stats', 'x': 2, 'y': 2, 'alphabet': [0, 1] if tier == 'quick' else [0, 1, 2], 'first': first}
    for kind in ('tiny', 'large', 'near', 'huge', 'asymmetric', 'float32'):
        yield {'m': 'values', 'kind': kind}
    for x, y in FIGURE_SHAPES:
        yield {'m': 'region', 'x': x, 'y': y}
        for k in (2, 3) if tier == 'quick' else (2, 3, 4):
            if k <= x * y:
                for lab in lib.rgs(x * y, k):
                    yield {'m': 'figure', 'x': x, 'y': y, 'lab': lab, 'tier': tier}
    for x, y in ((4, 6), (6, 4), (4, 4), (2, 7)) + (((6, 6), (5, 8)) if tier != 'quick' else ()):
        yield {'m': 'grid', 'x': x, 'y': y}


def expected_text(region, members, dist):
    d = sorted(float(v) for v in dist)
    second = d[1] if len(d) > 1 else float('nan')
    mean = sum(d) / len(d)
    sigma = (sum((v - mean) ** 2 for v in d) / len(d)) ** .5
    h = len(d) // 2
    median = d[h] if len(d) % 2 else (d[h - 1] + d[h]) / 2
    return [str(region), 'n = {}'.format(len(members)), 'min = {:.2f}'.format(second), 'max =  {:.2f}'.format(d[-1]),
            'x\u0305 = {:.2f}'.format(mean), 's = {:.2f}'.format(sigma), 'M = {:.2f}'.format(median)]


def close_text(got, want):
    '''Equal lines, where the last digit may be rounded differently.'''
    if len(got) != len(want) or got[0] != want[0]:
        return False
    for g, w in zip(got[1:], want[1:]):
        gk, gv = g.split('=')
        wk, wv = w.split('=')
        if gk.strip() != wk.strip() or not (gv == wv or abs(float(gv) - float(wv)) <= 0.0101 and '.' in gv and len(gv.split('.')[1]) == 2):
            return False
    return True


def spec_cluster(ctx, d, mat, cluster, c, lab, y, what):
    n = len(lab)
    members = [i for i in range(n) if lab[i] == c]
    outside = [i for i in range(n) if lab[i] != c]
    for m in range(n):
        point = Point(*divmod(m, y))
        h = DistanceHistogram(cluster, d)
        dist = h.distances_to_point(point)
        want = mat[m, members]
        w = '{} cluster {} point {}'.format(what, c, m)
        ctx.check(same(dist, want), w + ': distances {} instead of {}'.format(dist, want))
        top = float(want.max())
        ctx.check(h.max_distance(dist) == top, w + ': maximum {}'.format(h.max_distance(dist)))
        for bound in (top - 1, top + 1, 0, top):
            ctx.check(h.max_distance(dist, bound) == max(top, bound), w + ': maximum with {}'.format(bound))
        text = h.statistics(dist)
        expect = expected_text(cluster, members, want)
        ctx.check(close_text(text.split('\n'), expect), w + ': statistics {} instead of {}'.format(text, expect))
        if outside:
            # all the points outside: no choice is left
            r = DistanceHistogramWithRandomPointsOtherClusters(DistanceHistogram(cluster, d), len(outside))
            both = r.distances_to_point(point)
            ctx.check(same(both[0], want), w + ': distances of the cluster')
            ctx.check(sorted(map(float, both[1])) == sorted(map(float, mat[m, outside])), w + ': distances of the points outside')
            far = max(top, float(mat[m, outside].max()))
            ctx.check(r.max_distance(both) == far and r.max_distance(both, far + 1) == far + 1 and r.max_distance(both, far - 1) == far, w + ': maximum of both')
            text = r.statistics(both).split('\n')
            inside = sum(1 for v in mat[m, outside] if float(v) < top)
            ctx.check(close_text(text[:-2], expect), w + ': statistics {} instead of {}'.format(text, expect))
            ctx.check(text[-2:] == ['#rand = {}'.format(len(outside)), '\u2229rand = {}'.format(inside)], w + ': {}'.format(text[-2:]))
        ctx.step(2)
    ctx.outcome(what.split(' ')[0], len(members), len(outside))


def matrices(n, alphabet, first=-1):
    pairs = list(itertools.combinations(range(n), 2))
    for values in itertools.product(alphabet, repeat=len(pairs)):
        if first >= 0 and values[0] != first:
            continue
        mat = np.zeros((n, n))
        for (i, j), v in zip(pairs, values):
            mat[i, j] = mat[j, i] = v
        yield mat


def measure(mat):
    d = DistanceByDTW()
    d.distance_matrix = mat.copy()
    return d


def run(spec, ctx):
    return globals()['run_' + spec['m']](spec, ctx)


def partitions(n):
    for k in range(1, n + 1):
        yield from lib.rgs(n, k)


def run_stats(spec, ctx):
    x, y = spec['x'], spec['y']
    n = x * y
    st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
    parts = [(lab, fx.partition(lab, x, y).create_all_spt_clusters(st)) for lab in partitions(n)]
    for mat in matrices(n, spec['alphabet'], spec['first']):
        d = measure(mat)
        for lab, clusters in parts:
            for c, cluster in enumerate(clusters):
                spec_cluster(ctx, d, mat, cluster, c, lab, y, 'matrix {} partition {}'.format(mat.tolist(), lab))
        # the whole region
        whole = DistanceHistogram(st, d)
        for m in range(n):
            dist = whole.distances_to_point(Point(*divmod(m, y)))
            ctx.check(same(dist, mat[m]) and close_text(whole.statistics(dist).split('\n'), expected_text(st, range(n), mat[m])),
                      'whole region, matrix {} point {}'.format(mat.tolist(), m))
        ctx.check(ident(d.distance_matrix, mat), 'distance matrix modified')
        ctx.state(mat.tolist())


def values(kind, n):
    i = np.arange(n)
    base = np.abs(np.subtract.outer(i * i * 1.25 + i, i * i * 1.25 + i))
    if kind == 'tiny':
        return base * 0.004
    if kind == 'large':
        return base * 123456.789
    if kind == 'near':
        return np.where(base > 0, 5 + base * 2.0 ** -30, 0)
    if kind == 'huge':        # nearly equal, the squares lose the differences
        return np.where(base > 0, 1e9 + base, 0)
    if kind == 'asymmetric':
        return base + 0.5 * (np.subtract.outer(i, i) > 0)
    return base.astype(np.float32)


def run_values(spec, ctx):
    for x, y in ((2, 3), (4, 1), (1, 5)):
        n = x * y
        mat = values(spec['kind'], n)
        st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
        d = measure(mat)
        for k in (1, 2, 3):
            for lab in lib.rgs(n, k):
                for c, cluster in enumerate(fx.partition(lab, x, y).create_all_spt_clusters(st)):
                    spec_cluster(ctx, d, mat, cluster, c, lab, y, '{} partition {}'.format(spec['kind'], lab))
                ctx.state(spec['kind'], x, y, lab)
        ctx.check(ident(d.distance_matrix, mat), 'distance matrix modified')


def bars(container):
    return [p.get_x() for p in container], [p.get_height() for p in container]


def same_bars(ax_patches, data, bins):
    '''The drawn bars are those of the histogram of the data.'''
    counts, edges = np.histogram(data, bins=bins)
    got_x, got_h = [p[0] for p in ax_patches], [p[3] for p in ax_patches]
    return same(got_h, counts) and same(got_x, edges[:-1])


def statistics_of(ax):
    return ax.texts[0].split('\n') if len(ax.texts) == 1 else []


def menu(n):
    i = np.arange(n)
    yield np.abs(np.subtract.outer(i * i * 1.25 + i, i * i * 1.25 + i))
    yield np.where(np.eye(n) > 0, 0, 1.0 + (np.add.outer(i, i) % 3))
    yield np.where(np.eye(n) > 0, 0, 1.0)
    yield np.zeros((n, n))


def run_region(spec, ctx):
    x, y = spec['x'], spec['y']
    n = x * y
    ctx.fresh_dir()
    for mi, mat in enumerate(menu(n)):
        d = measure(mat)
        for m in range(n):
            for bins in ('auto', 3, 'sturges'):
                for name in (None, 'a.pdf', 'dir/b.pdf') if bins == 'auto' else (None,):
                    st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
                    st.centroid = Point(*divmod(m, y))
                    os.makedirs('dir', exist_ok=True)
                    with figs.recorded() as log:
                        h = DistanceHistogram.histogram_to_centroid(st, d, bins=bins, plot_name=name)
                    what = 'histogram {}x{} matrix {} centroid {} bins {} name {}'.format(x, y, mi, m, bins, name)
                    saved, shown = figs.saved(log), [f for f in log if f.kind == 'show']
                    ctx.check([f.name for f in saved] == ([name] if name else []), what + ': saved {}'.format([f.name for f in saved]))
                    ctx.check(len(shown) == 1 and len(shown[0].axes) == 1, what + ': shown')
                    for f in saved + shown:
                        ax = f.axes[0]
                        ctx.check(same_bars(ax.patches, mat[m], bins), what + ': bars {}'.format(ax.patches))
                        ctx.check(close_text(statistics_of(ax), expected_text(st, range(n), mat[m])), what + ': {}'.format(ax.texts))
                        if mat[m].max() > 0:
                            ctx.check(same(ax.xlim, (0, mat[m].max())), what + ': scale {}'.format(ax.xlim))
                    ctx.check(same(h.distances_to_point(st.centroid), mat[m]), what + ': returned histogram')
                    ctx.step()
            ctx.state(x, y, mi, m)
        ctx.check(raises(lambda: DistanceHistogram.histogram_to_centroid(SpatioTemporalRegion(lib.distinct3d(2, x, y)), d)), 'no centroid')
        ctx.check(raises(lambda: DistanceHistogram(st, DistanceByDTW())), 'no distances')
        ctx.check(ident(d.distance_matrix, mat), 'distance matrix modified')


def check_figure(ctx, fig, clusters, lab, y, mat, medoids, rp, bins, what, statistics=True):
    n, k = len(lab), len(clusters)
    ctx.check(len(fig.axes) == k, what + ': {} subplots'.format(len(fig.axes)))
    scales = set(tuple(np.round(a.xlim, 9)) for a in fig.axes)
    drawn = []
    for c, ax in enumerate(fig.axes):
        members = [i for i in range(n) if lab[i] == c]
        outside = [i for i in range(n) if lab[i] != c]
        dist = mat[medoids[c], members]
        w = '{} cluster {}'.format(what, c)
        own = len(np.histogram(dist, bins=bins)[0])
        ctx.check(same_bars(ax.patches[:own], dist, bins), w + ': bars of the members {}'.format(ax.patches[:own]))
        drawn.append(dist.max())
        rest = ax.patches[own:]
        text = statistics_of(ax)
        if rp is None:
            ctx.check(rest == [], w + ': more bars than those of its members')
        else:
            size = min(rp or len(members), len(outside))
            far = mat[medoids[c], outside]
            ctx.check(int(round(sum(p[3] for p in rest))) == size, w + ': {} points outside instead of {}'.format(rest, size))
            if size == len(outside):
                ctx.check(same_bars(rest, far, bins), w + ': bars of the points outside')
                drawn.append(far.max())
            else:
                ctx.check(rest[0][0] >= far.min() - 0.5 - 1e-9 and rest[-1][0] + rest[-1][2] <= far.max() + 0.5 + 1e-9, w + ': bars of the points outside')
                last = [p for p in rest if p[3]][-1]
                drawn.append(min(v for v in far if last[0] - 1e-9 <= v <= last[0] + last[2] + 1e-9))
            if statistics:
                ctx.check(text[-2:-1] == ['#rand = {}'.format(size)] and text[-1].startswith('\u2229rand = '), w + ': statistics {}'.format(text))
                text = text[:-2]
            ctx.check('random' in ax.legend, w + ': legend {}'.format(ax.legend))
        if statistics:
            ctx.check(close_text(text, expected_text(clusters[c], members, dist)), w + ': statistics {}'.format(text))
        else:
            ctx.check(ax.texts == [], w + ': statistics not requested')
    if max(drawn) > 0:
        ctx.check(len(scales) == 1, what + ': different scales {}'.format(scales))
        lo, hi = list(scales)[0]
        ctx.check(lo == 0 and hi >= max(drawn) - 1e-6, what + ': the scale {} leaves out distances, up to {}'.format((lo, hi), max(drawn)))
        if rp is None or all(len(np.where(np.array(lab) != c)[0]) <= (rp or lab.count(c)) for c in range(k)):
            ctx.check(abs(hi - max(drawn)) < 1e-6, what + ': scale {} instead of {}'.format(hi, max(drawn)))


def run_figure(spec, ctx):
    x, y, lab = spec['x'], spec['y'], tuple(spec['lab'])
    n, k = x * y, max(spec['lab']) + 1
    ctx.fresh_dir()
    st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
    members = [[i for i in range(n) if lab[i] == c] for c in range(k)]
    for mi, mat in enumerate(menu(n)):
        d = measure(mat)
        algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), d)
        for number, medoids in enumerate(itertools.product(*members)):
            clusters = fx.partition(lab, x, y).create_all_spt_clusters(st, medoids=[Point(*divmod(m, y)) for m in medoids])
            if mi and number and spec['tier'] == 'quick':
                break
            options = [(None, 'auto', True, 'out'), (n, 'auto', True, None)] if number or mi else \
                [(rp, bins, stat, out) for rp in (None, 0, 1, n) for bins in ('auto', 3) for stat in (True, False) for out in (None, 'out')]
            for rp, bins, stat, out in options:
                os.makedirs('out', exist_ok=True)
                what = 'figure {}x{} {} matrix {} medoids {} random {} bins {} statistics {} in {}'.format(x, y, lab, mi, medoids, rp, bins, stat, out)
                with figs.recorded() as log:
                    DistanceHistogramClusters.cluster_histograms(clusters, algo, random_points=rp, bins=bins, with_statistics=stat, plot_dir=out)
                saved, shown = figs.saved(log), [f for f in log if f.kind == 'show']
                ctx.check(len(shown) == 1, what + ': shown {}'.format(len(shown)))
                tail = '' if rp is None else '__random{}'.format(rp)
                ctx.check([f.name for f in saved] == (['out/variance-histograms__{!r}{}.pdf'.format(algo, tail)] if out else []),
                          what + ': saved {}'.format([f.name for f in saved]))
                for f in saved + shown:
                    check_figure(ctx, f, clusters, lab, y, mat, medoids, rp, bins, what, stat)
                ctx.step()
                ctx.outcome(k, rp, bins, stat, out)
            for rp in (None, n):
                h = DistanceHistogramClusters(clusters, algo, rp)
                top = max(mat[medoids[c], i] for c in range(k) for i in range(n) if rp or lab[i] == c)
                ctx.check(h.max_distance() == top, 'maximum distance {} instead of {}'.format(h.max_distance(), top))
        ctx.check(ident(d.distance_matrix, mat), 'distance matrix modified')
        ctx.state(x, y, lab, mi)
    bad = fx.partition(lab, x, y).create_all_spt_clusters(st)
    ctx.check(raises(lambda: DistanceHistogramClusters(bad, algo)), 'clusters without centroid')


def run_grid(spec, ctx):
    '''Regular partitions: the histogram of each cluster is where the cluster is in the region.'''
    x, y = spec['x'], spec['y']
    n = x * y
    ctx.fresh_dir()
    st = SpatioTemporalRegion(lib.distinct3d(2, x, y))
    i = np.arange(n)
    mat = np.abs(np.subtract.outer(i * i * 1.25 + i, i * i * 1.25 + i))
    d = measure(mat)
    for k in range(2, n + 1):
        algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), d)
        try:
            part = algo.partition(st, with_medoids=True)
            clusters = part.create_all_spt_clusters(st, medoids=part.medoids)
            sizes = [part.cluster_len(c) for c in range(k)]
        except Exception:
            continue
        if min(sizes) == 0:
            continue
        lab = [int(v) for v in part.membership_of_point_indices(list(range(n)))]
        medoids = [int(p.x) * y + int(p.y) for p in part.medoids]
        with figs.recorded() as log:
            DistanceHistogramClusters.cluster_histograms(clusters, algo)
        what = 'regular {}x{} k={}'.format(x, y, k)
        f = [f for f in log if f.kind == 'show'][0]
        check_figure(ctx, f, clusters, lab, y, mat, medoids, None, 'auto', what)
        cols, rows = sorted({round(a.at[0], 6) for a in f.axes}), sorted({round(a.at[1], 6) for a in f.axes}, reverse=True)
        ctx.check(len(cols) * len(rows) == k, what + ': grid {}x{}'.format(len(rows), len(cols)))
        for a, ax in enumerate(f.axes):
            r, c = rows.index(round(ax.at[1], 6)), cols.index(round(ax.at[0], 6))
            for b, bx in enumerate(f.axes):
                r2, c2 = rows.index(round(bx.at[1], 6)), cols.index(round(bx.at[0], 6))
                pa, pb = min(i for i in range(n) if lab[i] == a), min(i for i in range(n) if lab[i] == b)
                if r < r2:
                    ctx.check(pa // y < pb // y, what + ': cluster {} is drawn above {}'.format(a, b))
                if c < c2:
                    ctx.check(pa % y < pb % y, what + ': cluster {} is drawn left of {}'.format(a, b))
        ctx.step()
        ctx.state(x, y, k)
