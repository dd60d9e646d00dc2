'''
C12 spatial weighting of distances. Every history of load / compute / weight / look-up operations on
a spatially weighted DTW object: whenever weights have been requested for the current matrix, the
matrix is DTW + weight * euclidean distance between the points, exactly once.
'''
import itertools
import os

import numpy as np

from spta.distance.dtw import DistanceBySpatialDTW
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.temporal import SpatioTemporalRegion
from spta.clustering.kmedoids import KmedoidsClusteringMetadata, KmedoidsClusteringAlgorithm
from spta.clustering.regular import RegularClusteringMetadata, RegularClusteringAlgorithm

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'explicit-state exploration of operation histories vs a weight-once model'
LEVEL_NOTE = ('All histories of 4 (thorough 5) operations over two regions at offsets, three weights, '
              'plus weighted matrices of all shapes up to 5x7 and some up to 300 points.')

OPS = ['loadA', 'loadB', 'tryA', 'compA', 'compB', 'weight', 'look', 'missing', 'partA']


def cases(tier):
    for w in (0, 0.5, -1.25, 3):
        for (x, y) in lib.shapes(4, 4) + [(5, 7), (7, 5), (1, 9), (9, 1), (17, 18), (1, 300), (300, 1), (2, 49), (49, 2), (3, 98), (3, 107)]:
            yield {'m': 'shape', 'x': x, 'y': y, 'w': w}
    depth = 4 if tier == 'quick' else 5
    for h in itertools.product(range(len(OPS)), repeat=depth):
        yield {'m': 'hist', 'h': list(h)}


def euclid(x, y):
    p = lib.points(x, y)
    return np.array([[np.hypot(a[0] - b[0], a[1] - b[1]) for b in p] for a in p])


def run(spec, ctx):
    if spec['m'] == 'shape':
        x, y, w = spec['x'], spec['y'], spec['w']
        n = x * y
        base = np.array([[abs(i - j) * 1.5 + (i * j) % 4 for j in range(n)] for i in range(n)])
        base = (base + base.T) / 2
        ctx.fresh_dir()
        np.save('m.npy', base)
        for off in ((0, 0), (4, 9)):
            d = DistanceBySpatialDTW(w)
            reg = Region(off[0], off[0] + x, off[1], off[1] + y)
            got = d.load_distance_matrix_2d('m.npy', reg)
            want = base + w * euclid(x, y)
            ctx.check(same(got, want), 'weighted matrix for {} weight {}'.format((x, y), w))
            ctx.check(same(d.weight_distance_matrix(reg), want), 'weights applied twice')
            ctx.check(same(d.distance_matrix, want), 'stored matrix differs')
            ctx.step(2)
        ctx.state(x, y, w)
        ctx.outcome(round(float(want.sum()), 6))
        return
    A = lib.distinct3d(3, 2, 2)
    B = lib.distinct3d(3, 1, 3, 'neg')
    if not os.path.exists('raw/done'):
        pass
    ctx.fresh_dir()
    rA, rB = Region(3, 5, 1, 3), Region(0, 1, 2, 5)
    mdA = SpatioTemporalRegionMetadata('ra', rA, 2015, 2015, 1, scaled=False)
    mdB = SpatioTemporalRegionMetadata('rb', rB, 2015, 2015, 1, scaled=False)
    regs = {'A': SpatioTemporalRegion(A, mdA), 'B': SpatioTemporalRegion(B, mdB)}
    rr = {'A': rA, 'B': rB}
    ref = {'A': lib.dtw_matrix(lib.series_of(A)), 'B': lib.dtw_matrix(lib.series_of(B))}
    eu = {'A': euclid(2, 2), 'B': euclid(1, 3)}
    os.makedirs('raw')
    files = {'A': ref['A'] + 10 * (1 - np.eye(4)), 'B': ref['B'] + 20 * (1 - np.eye(3))}
    np.save(mdA.distances_filename, files['A'])
    np.save(mdB.distances_filename, files['B'])
    w = 0.75
    d = DistanceBySpatialDTW(w)
    cur = None     # (region, plain matrix, weighted?)
    for step, o in enumerate(spec['h']):
        op = OPS[o]
        what = 'history {} step {}'.format([OPS[i] for i in spec['h']], step)
        if op in ('loadA', 'loadB', 'tryA'):
            r = op[-1]
            got = d.load_distance_matrix_md(regs[r].region_metadata) if op[:4] == 'load' else \
                d.try_load_distance_matrix(regs[r])
            cur = (r, files[r], True)
            ctx.check(same(got, files[r] + w * eu[r]), what + ': loaded matrix wrong')
        elif op in ('compA', 'compB'):
            r = op[-1]
            got = d.compute_distance_matrix(regs[r])
            cur = (r, ref[r], False)
            ctx.check(same(got, ref[r], atol=1e-7), what + ': computed matrix wrong')
        elif op == 'weight':
            if cur is None:
                ctx.check(raises(lambda: d.weight_distance_matrix(rA), ValueError),
                          what + ': weights without matrix')
            else:
                cur = (cur[0], cur[1], True)
                got = d.weight_distance_matrix(rr[cur[0]])
                ctx.check(same(got, cur[1] + w * eu[cur[0]], atol=1e-7), what + ': weighted matrix wrong')
        elif op == 'missing':
            if cur is None:
                ctx.check(d.load_distance_matrix_2d('raw/no.npy', rA) is None,
                          what + ': loading a missing file')
            else:
                r = cur[0]
                d.load_distance_matrix_2d('raw/no.npy', rr[r])
                cur = (r, cur[1], True) if same(d.distance_matrix, cur[1] + w * eu[r], atol=1e-7) \
                    else cur
        elif op == 'partA':
            # a clustering run tries to load the matrix of its region again
            RegularClusteringAlgorithm(RegularClusteringMetadata(2), d).partition(regs['A'])
            cur = ('A', files['A'], True)
        if cur is not None:
            r, m, weighted = cur
            want = m + w * eu[r] if weighted else m
            ctx.check(same(d.distance_matrix, want, atol=1e-7),
                      what + ': matrix is {} expected {}'.format(d.distance_matrix, want))
            for p, _ in regs[r]:
                row = d.distances_to_point(regs[r], p, regs[r].all_point_indices)
                i = p.x * regs[r].y_len + p.y
                ctx.check(same(row, want[i], atol=1e-7), what + ': look-up wrong')
        ctx.step()
        ctx.state(tuple(spec['h'][:step + 1]))
    ctx.outcome(cur and cur[0], cur and cur[2], cur and round(float(cur[1].sum()), 6))
