'''
C02 region derivation algebra. Breadth-first exploration of chains of derivations (sub-rectangle,
interval, both, repetition, function application, scaling, clustering, pickling) on real region
objects; after every step the derived object and all its ancestors are compared cell by cell with
a plain-array model.
'''
import copy
import os

import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.base import BaseRegion
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.function import FunctionRegionScalarSame, FunctionRegionSeriesSame
from spta.region.spatial import SpatialRegion, SpatialCluster
from spta.region.temporal import SpatioTemporalRegion, SpatioTemporalCluster

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'explicit-state exploration of derivation chains vs a plain-array reference model'
LEVEL_NOTE = ('All chains of 2 derivations with the full argument alphabet (every sub-rectangle and '
              'interval) and of 3-4 derivations with a reduced alphabet, on tiny regions, plain / '
              'NaN / constant / integer data; sizes beyond that only as single configurations.')


class Model:
    '''arr: visible data; mem: set of member points or None; sc: (min, max) stack'''

    def __init__(self, arr, mem=None, sc=(), order=()):
        self.arr, self.mem, self.sc = arr, mem, tuple(sc)

    def points(self):
        t, x, y = self.arr.shape
        return [p for p in lib.points(x, y) if self.mem is None or p in self.mem]

    def key(self):
        return (self.arr.shape, self.arr.tobytes(), self.mem and tuple(sorted(self.mem)),
                tuple(m.tobytes() for m in self.sc for m in m))


def minmax(arr):
    with np.errstate(all='ignore'):
        t, x, y = arr.shape
        mn = np.full((x, y), np.nan)
        mx = np.full((x, y), np.nan)
        for i in range(x):
            for j in range(y):
                s = arr[:, i, j]
                s = s[~np.isnan(s)]
                if len(s):
                    mn[i, j], mx[i, j] = s.min(), s.max()
    return mn, mx


def scaled_arr(arr):
    arr = arr.astype(np.float64)
    mn, mx = minmax(arr)
    out = np.zeros(arr.shape)
    t, x, y = arr.shape
    for i in range(x):
        for j in range(y):
            if np.isnan(mn[i, j]):
                out[:, i, j] = np.nan
            elif mn[i, j] != mx[i, j]:
                out[:, i, j] = (arr[:, i, j] - mn[i, j]) / (mx[i, j] - mn[i, j])
    return out, mn, mx


def observe(r, m, what, deep=True):
    t, x, y = m.arr.shape
    if tuple(r.shape) != (t, x, y) or r.x_len != x or r.y_len != y or r.series_len != t:
        raise Violation('{}: shape {} (x_len {}, y_len {}, series_len {}) expected {}'.format(
            what, r.shape, r.x_len, r.y_len, r.series_len, (t, x, y)))
    members = m.points()
    mset = set(members)
    for p in lib.points(x, y):
        if p in mset:
            s = r.series_at(Point(*p))
            if not same(s, m.arr[:, p[0], p[1]]):
                raise Violation('{}: series at {} is {} expected {}'.format(
                    what, p, s, m.arr[:, p[0], p[1]]))
        elif not raises(lambda: r.series_at(Point(*p)), ValueError):
            raise Violation('{}: access to non-member {} did not raise'.format(what, p))
        if p in mset and not same(r.as_numpy[:, p[0], p[1]], m.arr[:, p[0], p[1]]):
            raise Violation('{}: array cells at {} wrong'.format(what, p))
    if not deep:
        return
    got = [((q.x, q.y), s) for q, s in r]
    if [q for q, _ in got] != members or \
            not all(same(s, m.arr[:, q[0], q[1]]) for q, s in got):
        raise Violation('{}: iteration gives {}'.format(what, got))
    if not same(np.array(r.as_2d), np.array([m.arr[:, p[0], p[1]] for p in members])):
        raise Violation('{}: as_2d wrong'.format(what))
    if [int(i) for i in r.all_point_indices] != [p[0] * y + p[1] for p in members]:
        raise Violation('{}: point indices {}'.format(what, r.all_point_indices))
    if isinstance(r, SpatialCluster) and int(r.cluster_len) != len(members):
        raise Violation('{}: cluster size {}'.format(what, r.cluster_len))
    if bool(r.has_scaling()) != bool(m.sc):
        raise Violation('{}: has_scaling {}'.format(what, r.has_scaling()))
    e = r.empty_region_2d()
    if tuple(e.shape) != (x, y):
        raise Violation('{}: empty 2d region has shape {}'.format(what, e.shape))


def ops_for(m, level, full):
    t, x, y = m.arr.shape
    out = []
    if m.mem is None:
        rects = lib.rects(x, y)
        if not full:
            pick = [(0, x, 0, y), (0, x, max(0, y - 1), y), (max(0, x - 1), x, 0, y),
                    (x // 2, x, y // 2, y), (0, max(1, x - 1), 0, max(1, y - 1))]
            rects = [r for r in dict.fromkeys(pick)]
        out += [('rsub', r) for r in rects]
    else:
        out += [('rsub_forbidden', (0, x, 0, y))]
    ivs = lib.intervals(t)
    if not full:
        ivs = list(dict.fromkeys([(0, t), (0, max(1, t - 1)), (t // 2, t)]))
    out += [('isub', i) for i in ivs]
    out += [('isub_empty', i) for i in ((0, t) if full else (t // 2,))]
    if m.mem is None:
        if full:
            out += [('sub', r, i) for r in lib.rects(x, y) for i in lib.intervals(t)]
        else:
            out += [('sub', r, i) for r in [(x // 2, x, y // 2, y), (0, x, max(0, y - 1), y)]
                    for i in [(t // 2, t)]]
    out += [('rep_series', t), ('rep_point', m.points()[-1]),
            ('pickle',), ('save',), ('fun_series', 2), ('fun_scalar',), ('new',)]
    if t > 1:
        out += [('rep_series', 1)]
    if m.mem is None:
        n = x * y
        labs = [tuple((i + i // y) % 2 for i in range(n))] if n > 1 else [(0,)]
        if full and 1 < n <= 4:
            labs = [l for l in lib.surjections(n, 2)]
        for lab in labs:
            for w in range(max(lab) + 1):
                out.append(('cluster', lab, w))
    if len(m.sc) < 2:
        out += [('scale',)]
    if m.sc:
        out += [('descale',)]
    else:
        out += [('descale_forbidden',)]
    return out


def apply(r, m, op):
    '''returns (new region, new model) ; (None, None) if the op ends the chain'''
    t, x, y = m.arr.shape
    name = op[0]
    if name == 'rsub':
        a = op[1]
        n = r.region_subset(Region(*a))
        return n, Model(m.arr[:, a[0]:a[1], a[2]:a[3]], None,
                        [(p[a[0]:a[1], a[2]:a[3]], q[a[0]:a[1], a[2]:a[3]]) for p, q in m.sc])
    if name == 'rsub_forbidden':
        for f in (lambda: r.region_subset(Region(*op[1])),
                  lambda: r.subset(Region(*op[1]), TimeInterval(0, t))):
            if not raises(f, NotImplementedError):
                raise Violation('a rectangle of a cluster was not refused')
        return None, None
    if name == 'isub':
        n = r.interval_subset(TimeInterval(*op[1]))
        return n, Model(m.arr[op[1][0]:op[1][1]], m.mem, m.sc)
    if name == 'isub_empty':     # no samples, the same points
        n = r.interval_subset(TimeInterval(op[1], op[1]))
        ok = tuple(n.shape) == (0, x, y) and n.series_len == 0 and n.as_numpy.shape == (0, x, y)
        if not ok or any(len(n.series_at(Point(*p))) for p in m.points()) or fx.pts(q for q, _ in n) != m.points():
            raise Violation('the empty interval at {} has shape {}'.format(op[1], n.shape))
        return None, None
    if name == 'sub':
        a, i = op[1], op[2]
        n = r.subset(Region(*a), TimeInterval(*i))
        return n, Model(m.arr[i[0]:i[1], a[0]:a[1], a[2]:a[3]], None,
                        [(p[a[0]:a[1], a[2]:a[3]], q[a[0]:a[1], a[2]:a[3]]) for p, q in m.sc])
    if name == 'rep_series':
        s = np.arange(op[1]) * 0.75 - 0.5
        return r.repeat_series(s), Model(np.repeat(s, x * y).reshape(op[1], x, y), m.mem, m.sc)
    if name == 'rep_point':
        s = m.arr[:, op[1][0], op[1][1]]
        n = r.repeat_point(Point(*op[1]))
        return n, Model(np.repeat(s, x * y).reshape(t, x, y), m.mem, m.sc)
    if name == 'pickle':
        r.pickle_to('r.pkl')
        return BaseRegion.from_pickle('r.pkl'), m
    if name == 'save':
        r.save_to('r.npy')
        a = np.load('r.npy')
        ok = all(same(a[:, p[0], p[1]], m.arr[:, p[0], p[1]]) for p in m.points())
        if a.shape != m.arr.shape or not ok:
            raise Violation('saved array differs from the region')
        return None, None
    if name == 'new':
        return r.new_spatio_temporal_region(m.arr + 1.0), Model(m.arr + 1.0, m.mem, m.sc)
    if name == 'fun_series':
        f = FunctionRegionSeriesSame(lambda s: np.array([s[0], s[-1] * 2]), x, y)
        n = f.apply_to(r, 2)
        return n, Model(np.stack([m.arr[0], m.arr[-1] * 2]).astype(float), m.mem, m.sc)
    if name == 'fun_scalar':
        f = FunctionRegionScalarSame(lambda s: s[0] - 3 * s[-1], x, y)
        n = f.apply_to(r)
        if isinstance(n, SpatioTemporalRegion) or not isinstance(n, SpatialRegion):
            raise Violation('scalar function result is not a spatial region')
        want = m.arr[0] - 3 * m.arr[-1]
        observe2(n, want, m, 'scalar function')
        return None, None
    if name == 'cluster':
        part = fx.partition(op[1], x, y)
        n = part.create_spt_cluster(r, op[2])
        return n, Model(m.arr, set(fx.member_points(op[1], x, y, op[2])), m.sc)
    if name == 'scale':
        a, mn, mx = scaled_arr(m.arr)
        return fx.scale(r), Model(a, m.mem, m.sc + ((mn, mx),))
    if name == 'descale':
        # only the innermost scaling (closest to the data owner) is removed by nested descale
        mn, mx = m.sc[-1]
        return r.descale(), Model((mx - mn) * m.arr + mn, m.mem, m.sc[:-1])
    if name == 'descale_forbidden':
        if not raises(lambda: r.descale(), NotImplementedError):
            raise Violation('descale of a region that was never scaled was not refused')
        return None, None
    raise ValueError(op)


def observe2(r, want, m, what):
    '''2d result over the same members'''
    x, y = want.shape
    if tuple(r.shape) != (x, y):
        raise Violation('{}: shape {} expected {}'.format(what, r.shape, (x, y)))
    mem = m.points()
    for p in lib.points(x, y):
        if p in mem:
            if not same(r.value_at(Point(*p)), want[p]):
                raise Violation('{}: value at {} is {} expected {}'.format(
                    what, p, r.value_at(Point(*p)), want[p]))
        elif not raises(lambda: r.value_at(Point(*p)), ValueError):
            raise Violation('{}: non-member {} accessible'.format(what, p))
    if [((q.x, q.y)) for q, v in r] != mem:
        raise Violation('{}: iterates other points than its members'.format(what))
    # and 2d derivations
    v = r.value_at(Point(*mem[-1]))
    for n in (r.repeat_value(v), r.repeat_point(Point(*mem[-1]))):
        if tuple(n.shape) != (x, y) or [((q.x, q.y)) for q, _ in n] != mem or \
                not all(same(val, v) for _, val in n):
            raise Violation('{}: repetition of a value wrong'.format(what))
    if m.mem is None and not m.sc:
        for a in lib.rects(x, y):
            s = r.region_subset(Region(*a))
            if not same(s.as_numpy, want[a[0]:a[1], a[2]:a[3]]):
                raise Violation('{}: 2d sub-rectangle {} wrong'.format(what, a))
        if not same(r.as_array, want.ravel()):
            raise Violation('{}: as_array wrong'.format(what))
    elif m.mem is not None:
        if not raises(lambda: r.region_subset(Region(0, 1, 0, 1)), NotImplementedError):
            raise Violation('{}: rectangle of a 2d cluster was not refused'.format(what))
    for n in (r.new_spatial_region(want + 1),):
        if [((q.x, q.y)) for q, _ in n] != mem:
            raise Violation('{}: region built over new data lost its members'.format(what))


def cases(tier):
    q = tier == 'quick'
    kinds = ['plain', 'nan', 'const', 'int', 'neg']
    out = []
    for kind in kinds:
        for (t, x, y) in [(1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 2), (3, 2, 3), (2, 3, 2)]:
            if kind != 'plain' and (t, x, y) not in ((3, 2, 2), (3, 2, 3)):
                continue
            small = (kind == 'plain' or not q) and (t, x, y) != (3, 2, 3)
            a = lib.distinct3d(t, x, y, kind)
            firsts = ops_for(Model(a), 0, True)
            for f in range(len(firsts)):
                out.append({'shape': [t, x, y], 'kind': kind, 'first': f, 'full': small,
                            'depth': 2})
                if (t, x, y) in ((3, 2, 2), (3, 2, 3), (2, 3, 2)) and \
                        (kind == 'plain' or not q):
                    out.append({'shape': [t, x, y], 'kind': kind, 'first': f, 'full': False,
                                'depth': 3 if q else 4})
    for (t, x, y) in [(5, 4, 7), (4, 6, 3), (7, 1, 9), (6, 9, 1)]:
        for kind in kinds:
            a = lib.distinct3d(t, x, y, kind)
            firsts = ops_for(Model(a), 0, False)
            for f in range(len(firsts)):
                out.append({'shape': [t, x, y], 'kind': kind, 'first': f, 'full': False,
                            'depth': 2, 'big': 1})
    out.append({'m': 'static'})
    # chains of up to 1 first
    out.sort(key=lambda c: (c.get('depth', 0), np.prod(c.get('shape', [0]))))
    return out


def static(ctx):
    '''class-level constructors'''
    for (x, y) in lib.shapes(4, 5):
        vals = list(range(x * y))
        r = SpatialRegion.create_from_1d(vals, x, y)
        ctx.check(same(r.as_numpy, np.arange(x * y).reshape(x, y)), 'create_from_1d {}'.format((x, y)))
        s = np.array([1.5, -2.0, 4.0])
        st = SpatioTemporalRegion.repeat_series_over_region(s, (x, y))
        want = np.repeat(s, x * y).reshape(3, x, y)
        observe(st, Model(want), 'repeat_series_over_region')
        for x1 in (0, 3):
            for y1 in (0, 2):
                z = SpatialRegion.region_with_zeroes(Region(x1, x1 + x, y1, y1 + y))
                ctx.check(same(z.as_numpy, np.zeros((x, y))), 'region_with_zeroes')
        ctx.state('static', x, y)
        ctx.step(6)
        # a missing point is a missing value, not an error
        full = SpatioTemporalRegion(lib.distinct3d(3, x, y))
        ctx.check(np.isnan(r.value_at(None)), 'value at a missing point is not NaN')
        ctx.check(same(full.series_at(None), [np.nan] * 3), 'series at a missing point is not NaN')


def run(spec, ctx):
    if spec.get('m') == 'static':
        return static(ctx)
    ctx.fresh_dir()
    t, x, y = spec['shape']
    kind = spec['kind']
    a = lib.distinct3d(t, x, y, kind)
    full = spec['full']
    root_ops = ops_for(Model(a), 0, not spec.get('big'))
    first = root_ops[spec['first']]

    def explore(stack, chain, depth):
        r, m = stack[-1]
        ops = [first] if not chain else ops_for(m, len(chain), full)
        for op in ops:
            what = 'chain {}'.format(chain + [op])
            before = [(rr.as_numpy.copy()) for rr, _ in stack]
            about = [(rr.region_metadata, rr.centroid, str(rr)) for rr, _ in stack]
            try:
                n, nm = apply(r, m, op)
            except Violation as v:
                raise Violation('{}: {}'.format(what, v))
            ctx.step()
            for (rr, mm), b in zip(stack, before):
                if not same(rr.as_numpy, b):
                    raise Violation('{}: the source region was altered'.format(what))
            for (rr, mm), (md, centroid, name) in zip(stack, about):
                if rr.region_metadata is not md or rr.centroid is not centroid or str(rr) != name:
                    raise Violation('{}: metadata, centroid or name of the source region changed'.format(what))
            if n is None:
                continue
            ctx.state(nm.key())
            observe(n, nm, what)
            if len(chain) == 0 or depth == 1:
                for rr, mm in stack:
                    observe(rr, mm, what + ': source', deep=False)
            if depth > 1:
                explore(stack + [(n, nm)], chain + [op], depth - 1)

    base = a.copy()
    md = SpatioTemporalRegionMetadata('derived', Region(0, x, 0, y), 2015, 2015, 1, scaled=False)
    root = SpatioTemporalRegion(base, md)
    root.centroid = Point(x - 1, 0)
    explore([(root, Model(a.copy()))], [], spec['depth'])
    ctx.outcome(spec['kind'], tuple(spec['shape']), first)
