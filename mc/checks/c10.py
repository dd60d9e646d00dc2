'''
C10 distances. All pairs of short series over a small alphabet (with missing values and different
lengths) against a textbook DTW / RMSE; the distance matrix of every tiny region against pairwise
reference distances; every row and cluster sub-row look-up; loading matrices of right and wrong
dimensions, in every order of load / compute / look-up operations.
'''
import itertools
import math
import os

import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.distance.rmse import DistanceByRMSE
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'exhaustive enumeration of series pairs, regions and load/compute/look-up histories vs reference DTW'
LEVEL_NOTE = ('All pairs of series up to length 3 (thorough 4) over 4 values; matrices for all shapes '
              'up to 9 points (some up to 35, one of 272); steps and impulses at all positions of series up to 50 (thorough 130); all histories of 3 (thorough 4) operations over '
              'two regions and three files.')


def cases(tier):
    maxlen = 3 if tier == 'quick' else 4
    alpha = [-1.5, 0.0, 2.0, 'nan']
    series = [s for n in range(1, maxlen + 1) for s in itertools.product(alpha, repeat=n)
              if s.count('nan') <= 1]
    for s in series:
        yield {'m': 'pairs', 's': list(s), 'maxlen': maxlen}
    for (x, y) in lib.shapes(3, 3) + [(1, 7), (7, 1), (5, 7), (6, 4)]:
        for kind in ('plain', 'neg', 'const', 'nan', 'int'):
            for t in ([1, 2, 5] if x * y <= 9 else [9]):
                yield {'m': 'matrix', 'x': x, 'y': y, 'kind': kind, 't': t}
    for n in ((9, 24, 50) if tier == 'quick' else (9, 16, 24, 33, 50, 80, 130)):
        for shape in range(len(WAVES)):
            yield {'m': 'long', 'n': n, 'shape': shape}
    yield {'m': 'many'}
    for (x, y) in lib.shapes(3, 4):
        for i in range(1, 41):
            yield {'m': 'dims', 'x': x, 'y': y, 'i': i}
    for h in itertools.product(range(len(OPS)), repeat=3 if tier == 'quick' else 4):
        yield {'m': 'hist', 'h': list(h)}


WAVES = [lambda n, i: [0.0] * i + [1.0] * (n - i),                              # step at i
         lambda n, i: [5.0 if j == i else 0.5 for j in range(n)],                # impulse at i
         lambda n, i: [300.0 + 0.001 * ((j * (i + 3)) % 7) for j in range(n)]]    # small differences


def run_long(spec, ctx):
    '''Longer series, that need a warping of any width.'''
    n, wave = spec['n'], WAVES[spec['shape']]
    at = range(n) if n <= 24 else list(range(0, n, max(1, n // 12))) + [n - 1]
    series = [np.array(wave(n, i)) for i in at]
    d, r = DistanceByDTW(), DistanceByRMSE()
    for a in series:
        for b in series + [series[0][:n // 2], series[-1][n // 3:]]:
            ctx.check(same(d.measure(a, b), lib.dtw(a, b), atol=1e-7), 'DTW of {} and {}'.format(list(a), list(b)))
            if len(a) == len(b):
                ctx.check(same(r.measure(a, b), math.sqrt(((a - b) ** 2).mean())), 'RMSE of {} and {}'.format(list(a), list(b)))
            ctx.step()
        ctx.state(spec['n'], spec['shape'], a.tobytes())
    ctx.outcome(spec['n'], spec['shape'])


def run_many(spec, ctx):
    '''Matrices of more than 256 points.'''
    x, y = 17, 16
    a = np.zeros((2, x, y))
    i = np.arange(x * y).reshape(x, y)
    a[0], a[1] = i, (i * 7) % 31
    st = SpatioTemporalRegion(a)
    d = DistanceByDTW()
    want = ref_matrix(a)
    m = d.compute_distance_matrix(st)
    ctx.check(same(m, want, atol=1e-7), 'matrix of 272 points')
    lab = [v % 13 for v in range(x * y)]
    clusters = fx.partition(lab, x, y).create_all_spt_clusters(st)
    for c, cl in enumerate(clusters):
        idx = [v for v in range(x * y) if lab[v] == c]
        got = cl.all_point_indices
        ctx.check([int(v) for v in got] == idx, 'point indices of cluster {}'.format(c))
        for v in idx:
            row = d.distances_to_point(cl, Point(v // y, v % y), got)
            ctx.check(same(row, want[v][idx], atol=1e-7), 'distances to point {} in cluster {}'.format(v, c))
            ctx.step()
        ctx.state('many', c)


def val(v):
    return lib.NAN if v == 'nan' else v


def ref_matrix(a):
    s = lib.series_of(a)
    n = len(s)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if np.isnan(s[i]).any() or np.isnan(s[j]).any():
                m[i, j] = np.nan
            else:
                m[i, j] = lib.dtw(s[i], s[j]) if i != j else 0.0
    return m


# ---- histories over one measure object, regions A (2x2 at an offset) and B (1x3)
OPS = ['loadA', 'loadB', 'compA', 'compB', 'lookA', 'lookB', 'badfile', 'missing', 'tryA', 'tryB',
       'looseA', 'savedA']


def run_hist(spec, ctx):
    ctx.fresh_dir()
    A = lib.distinct3d(3, 2, 2)
    B = lib.distinct3d(3, 1, 3, 'neg')
    mdA = SpatioTemporalRegionMetadata('ra', Region(3, 5, 1, 3), 2015, 2015, 1, scaled=False)
    mdB = SpatioTemporalRegionMetadata('rb', Region(0, 1, 2, 5), 2015, 2015, 1, scaled=False)
    regA, regB = SpatioTemporalRegion(A, mdA), SpatioTemporalRegion(B, mdB)
    refA, refB = ref_matrix(A), ref_matrix(B)
    # saved matrices deliberately differ from the computed ones, to see which one is used
    fileA, fileB = refA + 100 * (1 - np.eye(4)), refB + 200 * (1 - np.eye(3))
    os.makedirs('raw')
    np.save(mdA.distances_filename, fileA)
    np.save(mdB.distances_filename, fileB)
    np.save('raw/bad.npy', np.zeros((3, 4)))
    d = DistanceByDTW()
    cur = None       # (region name, matrix)
    for step, o in enumerate(spec['h']):
        op = OPS[o]
        what = 'history {} step {}'.format([OPS[i] for i in spec['h']], step)
        if op in ('loadA', 'loadB', 'tryA', 'tryB'):
            reg, m = (regA, fileA) if op[-1] == 'A' else (regB, fileB)
            got = d.load_distance_matrix_md(reg.region_metadata) if op[:4] == 'load' \
                else d.try_load_distance_matrix(reg)
            ctx.check(same(got, m) and same(d.distance_matrix, m), what + ': loaded matrix wrong')
            cur = (op[-1], m)
        elif op in ('compA', 'compB'):
            reg, m = (regA, refA) if op[-1] == 'A' else (regB, refB)
            got = d.compute_distance_matrix(reg)
            ctx.check(same(got, m) and same(d.distance_matrix, m), what + ': computed matrix wrong')
            cur = (op[-1], m)
        elif op in ('lookA', 'lookB', 'looseA'):
            reg, m, n = (regA, fileA, op[-1]) if op[-1] == 'A' else (regB, fileB, op[-1])
            if cur is None:
                cur = (n, m)    # loaded on demand
            if cur[0] != n:
                continue        # the object holds the matrix of the other region: not defined
            for p, _ in reg:
                kw = {'only_if_precalculated': False} if op == 'looseA' else {}
                idx = np.arange(reg.x_len * reg.y_len)
                got = d.distances_to_point(reg, p, idx, **kw)
                ctx.check(same(got, cur[1][p.x * reg.y_len + p.y]), what + ': look-up wrong')
        elif op == 'badfile':
            before = None if d.distance_matrix is None else d.distance_matrix.copy()
            ctx.check(raises(lambda: d.load_distance_matrix_2d('raw/bad.npy', Region(0, 1, 0, 3)),
                             ValueError), what + ': matrix of wrong dimensions accepted')
            ctx.check(raises(lambda: d.load_distance_matrix_2d(mdA.distances_filename,
                                                               Region(0, 2, 0, 3)), ValueError),
                      what + ': matrix of another region accepted')
            ctx.check((before is None and d.distance_matrix is None) or
                      same(before, d.distance_matrix), what + ': refused load changed the matrix')
        elif op == 'missing':
            before = None if d.distance_matrix is None else d.distance_matrix.copy()
            ctx.check(d.load_distance_matrix_2d('raw/none.npy', Region(0, 1, 0, 1)) is None,
                      what + ': missing file')
            ctx.check((before is None and d.distance_matrix is None) or
                      same(before, d.distance_matrix), what + ': missing file changed the matrix')
            fresh = DistanceByDTW()
            other = SpatioTemporalRegion(A)
            ctx.check(raises(lambda: fresh.distances_to_point(other, Point(0, 0), np.arange(4)),
                             ValueError), what + ': matrix required but not demanded')
            got = fresh.distances_to_point(other, Point(0, 1), np.arange(4),
                                           only_if_precalculated=False)
            ctx.check(same(got, refA[1]), what + ': on-demand computation wrong')
            # a region with metadata, whose matrix was never saved
            mdC = SpatioTemporalRegionMetadata('rc', Region(1, 3, 2, 4), 2015, 2015, 1, scaled=False)
            other = SpatioTemporalRegion(A, mdC)
            fresh = DistanceByDTW()
            ctx.check(raises(lambda: fresh.distances_to_point(other, Point(0, 0), np.arange(4)),
                             ValueError), what + ': matrix required, its file is missing')
            got = fresh.distances_to_point(other, Point(1, 0), np.arange(4), only_if_precalculated=False)
            ctx.check(same(got, refA[2]), what + ': on-demand computation without the file wrong')
        elif op == 'savedA':
            # a saved matrix reloads identically
            if cur and cur[0] == 'A':
                np.save('raw/again.npy', d.distance_matrix)
                e = DistanceByDTW()
                ctx.check(same(e.load_distance_matrix_2d('raw/again.npy', Region(1, 3, 4, 6)), cur[1]),
                          what + ': reload')
        ctx.step()
        ctx.state(tuple(spec['h'][:step + 1]))
    ctx.outcome(None if cur is None else cur[0], None if cur is None else cur[1].sum())


def run_dims(spec, ctx):
    '''Stored matrices of every dimensions (i, j) for one region at an offset.'''
    ctx.fresh_dir()
    x, y, i = spec['x'], spec['y'], spec['i']
    n = x * y
    md = SpatioTemporalRegionMetadata('r', Region(2, 2 + x, 3, 3 + y), 2015, 2015, 1, scaled=False)
    reg = SpatioTemporalRegion(lib.distinct3d(2, x, y), md)
    os.makedirs('raw')
    for j in sorted({1, 2, 3, n - 1, n, n + 1, i, 2 * n, n * n} | ({n * n // i} if n * n % i == 0 else set())):
        if j < 1:
            continue
        m = np.arange(i * j, dtype=float).reshape(i, j)
        np.save(md.distances_filename, m)
        for load in (lambda d: d.load_distance_matrix_2d(md.distances_filename, md.region),
                     lambda d: d.load_distance_matrix_md(md), lambda d: d.try_load_distance_matrix(reg)):
            d = DistanceByDTW()
            if (i, j) == (n, n):
                ctx.check(same(load(d), m), 'matrix of the right dimensions not loaded')
            else:
                ctx.check(raises(lambda: load(d), ValueError),
                          'matrix ({}, {}) accepted for a {}x{} region'.format(i, j, x, y))
                ctx.check(d.distance_matrix is None, 'refused matrix was kept')
            ctx.step()
        ctx.state('dims', x, y, i, j)


def run(spec, ctx):
    if spec['m'] == 'hist':
        return run_hist(spec, ctx)
    if spec['m'] == 'dims':
        return run_dims(spec, ctx)
    if spec['m'] in ('long', 'many'):
        return (run_long if spec['m'] == 'long' else run_many)(spec, ctx)
    d = DistanceByDTW()
    if spec['m'] == 'pairs':
        a = np.array([val(v) for v in spec['s']])
        r = DistanceByRMSE()
        alpha = [-1.5, 0.0, 2.0, 'nan']
        for n in range(1, spec['maxlen'] + 1):
            for s in itertools.product(alpha, repeat=n):
                if s.count('nan') > 1:
                    continue
                b = np.array([val(v) for v in s])
                a0, b0 = a.copy(), b.copy()
                got = d.measure(a, b)
                want = lib.NAN if np.isnan(a).any() or np.isnan(b).any() else lib.dtw(a, b)
                ctx.check(same(got, want, atol=1e-7), 'DTW({}, {}) = {} expected {}'.format(a, b, got, want))
                if n == len(a):
                    got = r.measure(a, b)
                    want = lib.NAN if np.isnan(a).any() or np.isnan(b).any() else \
                        math.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)) / n)
                    ctx.check(same(got, want), 'RMSE({}, {}) = {}'.format(a, b, got))
                ctx.check(same(a, a0) and same(b, b0), 'measuring altered a series')
                ctx.step()
        vals = np.array([abs(v) for v in a if v == v])
        if len(vals):
            ctx.check(same(d.combine(vals), vals.sum()), 'DTW combine')
            ctx.check(same(r.combine(vals), math.sqrt((vals ** 2).mean())), 'RMSE combine')
        ctx.state(tuple(spec['s']))
        ctx.outcome(tuple(spec['s']))
        return
    x, y, kind, t = spec['x'], spec['y'], spec['kind'], spec['t']
    a = lib.distinct3d(t, x, y, kind)
    st = SpatioTemporalRegion(a.copy())
    want = ref_matrix(a.astype(float))
    m = d.compute_distance_matrix(st)
    ctx.check(tuple(m.shape) == (x * y, x * y), 'matrix shape {}'.format(m.shape))
    ctx.check(same(m, want, atol=1e-7), 'matrix of region {} differs from pairwise distances'.format((x, y)))
    ctx.check(same(st.as_numpy, a), 'region altered')
    d2 = DistanceByDTW()
    m2 = d2.compute_distance_matrix(st.as_2d)
    ctx.check(same(m2, want, atol=1e-7), 'matrix of series array differs')
    ctx.check(same(m, m.T), 'matrix not symmetric')
    # look-ups
    part_lab = [(i * 3 + i // 2) % 3 for i in range(x * y)]
    labs = sorted(set(part_lab))
    lab = [labs.index(v) for v in part_lab]
    part = fx.partition(lab, x, y)
    regions = [(st, list(range(x * y)))] + \
        [(c, [i for i in range(x * y) if lab[i] == ci])
         for ci, c in enumerate(part.create_all_spt_clusters(st))] + \
        [(fx.scale(st), list(range(x * y)))]
    for reg, idx in regions:
        got_idx = reg.all_point_indices
        ctx.check([int(i) for i in got_idx] == idx, 'point indices of region/cluster')
        for p, _ in reg:
            row = d.distances_to_point(reg, p, got_idx)
            ctx.check(same(row, want[p.x * y + p.y][idx], atol=1e-7),
                      'distances to {} are {} expected {}'.format(p, row, want[p.x * y + p.y][idx]))
            ctx.step()
    ctx.state(x, y, kind, t)
    ctx.outcome(round(float(np.nansum(want)), 6))
