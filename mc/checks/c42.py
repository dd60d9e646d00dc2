'''
C42 density clustering. Every graph of neighbours between 6 points (given as distances), every placement of up to 11
points over a few levels of real series, and histories with stored partitions: the groups are those of a reference
density clustering (five points within 0.7), points that belong to no group are in group 0.
'''
import itertools
import os

import numpy as np

from spta.clustering.dbscan import DbscanClusteringAlgorithm, DbscanClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import ident

TECHNIQUE = 'exhaustive enumeration of neighbour graphs and point placements vs a reference density clustering'
LEVEL_NOTE = ('All 32768 neighbour graphs of 6 points (2x3), at distances on both sides of the limit (also by 2^-30); up to 40 groups, 130 and 257; all multisets of 7 to 9 '
              '(thorough 11) points over 5 levels in 3 orders; stored partitions of two regions.')
CASE_TIMEOUT = 600
EPS, NEIGHBOURS = 0.7, 5
LEVELS = [0.0, 0.7, 1.25, 5.0, 5.5]


def cases(tier):
    for chunk in range(64):
        yield {'m': 'graphs', 'chunk': chunk}
    for n, x, y in [(7, 1, 7), (8, 2, 4), (9, 3, 3)] + ([(10, 5, 2), (11, 11, 1)] if tier != 'quick' else []):
        for first in range(n + 1):
            yield {'m': 'levels', 'n': n, 'x': x, 'y': y, 'first': first}
    yield {'m': 'stored'}
    for g in [130, 257] + list(range(0, 41 if tier == 'quick' else 301)):
        yield {'m': 'many', 'g': g}


def reference(m):
    '''(core points of each group, noise, groups that each other point may join)'''
    n = len(m)
    near = [[j for j in range(n) if m[i][j] <= EPS] for i in range(n)]
    core = [i for i in range(n) if len(near[i]) >= NEIGHBOURS]
    groups, seen = [], set()
    for c in core:
        if c in seen:
            continue
        group, todo = set(), [c]
        while todo:
            i = todo.pop()
            if i in group:
                continue
            group.add(i)
            todo.extend(j for j in near[i] if j in core)
        seen |= group
        groups.append(group)
    border = {i: [g for g, group in enumerate(groups) if any(j in group for j in near[i])] for i in range(n) if i not in seen}
    return groups, border


def check(ctx, labels, m, what):
    groups, border = reference(m)
    labels = [int(v) for v in labels]
    names = []
    for group in groups:
        got = set(labels[i] for i in group)
        ctx.check(len(got) == 1 and 0 not in got, '{}: group {} in {}'.format(what, group, labels))
        names.append(got.pop())
    ctx.check(len(set(names)) == len(names), '{}: groups {} together in {}'.format(what, groups, labels))
    for i, options in border.items():
        allowed = [names[g] for g in options] or [0]
        ctx.check(labels[i] in allowed, '{}: point {} in group {} instead of {}'.format(what, i, labels[i], allowed))
    ctx.check(set(labels) <= {0} | set(range(1, len(groups) + 1)), '{}: labels {}'.format(what, labels))
    ctx.step()
    ctx.outcome(tuple(labels))


def labels_of(partition, x, y):
    assert partition.shape == (x, y), partition.shape
    a = [int(partition.membership_of_point_indices([i])[0]) for i in range(x * y)]
    assert a == [int(v) for v in np.array(partition.as_numpy).reshape(-1)]
    return a


def run(spec, ctx):
    globals()['run_' + spec['m']](spec, ctx)


def run_graphs(spec, ctx):
    st = SpatioTemporalRegion(lib.distinct3d(3, 2, 3))
    pairs = list(itertools.combinations(range(6), 2))
    for bits in range(spec['chunk'] * 512, spec['chunk'] * 512 + 512):
        m = np.zeros((6, 6))
        for b, (i, j) in enumerate(pairs):
            m[i, j] = m[j, i] = (0.7 if b % 2 else 0.25) if bits >> b & 1 else (0.75, 3.0, 0.7 + 2.0 ** -30)[b % 3]
        before = m.copy()
        d = DistanceByDTW()
        d.distance_matrix = m
        p = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), d).partition(st, with_medoids=False)
        check(ctx, labels_of(p, 2, 3), before, 'graph {}'.format(bits))
        ctx.check(ident(m, before), 'distances altered')
        ctx.state(bits)


def run_levels(spec, ctx):
    n, x, y = spec['n'], spec['x'], spec['y']
    rest = n - spec['first']
    for cut in itertools.combinations_with_replacement(range(len(LEVELS) - 1), rest):
        values = [0] * spec['first'] + [c + 1 for c in cut]
        for order in range(3):
            v = values if order == 0 else values[::-1] if order == 1 else values[::2] + values[1::2]
            data = np.array([LEVELS[i] for i in v]).reshape(1, x, y)
            st = SpatioTemporalRegion(data)
            m = np.abs(np.subtract.outer(data.reshape(-1), data.reshape(-1)))
            d = DistanceByDTW()
            if order:
                d.compute_distance_matrix(st)
            p = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), d).partition(st, with_medoids=False)
            check(ctx, labels_of(p, x, y), m, 'levels {} {}x{}'.format(v, x, y))
            ctx.state(x, y, tuple(v))


def run_many(spec, ctx):
    '''g groups, of which each fourth has too few points'''
    g = spec['g']
    for sizes in ((5, 6, 5, 4), (5,), (7, 3)):
        levels = [10.0 * c + 0.1 * j for c in range(g) for j in range(sizes[c % len(sizes)])] + [-50.0]
        n = len(levels)
        for order in (0, 1):
            v = np.array([levels[(i * 2 + i * 2 // n * (n % 2 == 0)) % n] for i in range(n)] if order else levels)
            x, y = (n, 1) if order else (1, n)
            st = SpatioTemporalRegion(v.reshape(1, x, y))
            m = np.abs(np.subtract.outer(v, v))
            d = DistanceByDTW()
            d.distance_matrix = m.copy()
            p = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), d).partition(st, with_medoids=False)
            check(ctx, labels_of(p, x, y), m, '{} groups of {} points'.format(g, sizes))
            ctx.state('many', g, sizes, order)


def run_stored(spec, ctx):
    ctx.fresh_dir()
    data = np.zeros((2, 5, 6))
    data[:] = np.array([LEVELS[(i * i + i // 7) % 5] for i in range(30)]).reshape(5, 6) * 0.5
    fx.write_raw(data)
    mds = {n: SpatioTemporalRegionMetadata(n, r, 2015, 2015, 1) for n, r in (('a', Region(1, 4, 2, 5)), ('b', Region(0, 4, 1, 5)))}
    for names in itertools.product(sorted(mds), repeat=3):
        for homes in itertools.product((None, 'pickle', 'home'), repeat=3):
            for i, (name, home) in enumerate(zip(names, homes)):
                md = mds[name]
                st = md.create_instance()
                series = lib.series_of(np.array(st.as_numpy))
                if homes[0] == 'pickle':
                    np.save(md.distances_filename, lib.dtw_matrix(series))
                elif os.path.exists(md.distances_filename):
                    os.remove(md.distances_filename)
                p = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), DistanceByDTW()).partition(st, with_medoids=False, pickle_home=home)
                check(ctx, labels_of(p, md.x_len, md.y_len), lib.dtw_matrix(series), 'stored {} {} at {}'.format(names, homes, i))
            ctx.state(names, homes)
