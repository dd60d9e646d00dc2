'''
C03 scaling. All series over a small value alphabet (negative, equal, huge, NaN) placed in a region,
scaled, taken through every chain of sub-rectangle / interval / both / cluster / pickle / repeat
derivations, and descaled. Oracle: the same chain applied to the unscaled region; every scaled
series lies in [0, 1] with its own minimum at 0 and maximum at 1.
'''
import itertools

import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.base import BaseRegion
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import Violation, same, raises

TECHNIQUE = 'exhaustive enumeration of value patterns x derivation chains, differential vs unscaled chain'
LEVEL_NOTE = ('All series of length 3 (thorough: 4) over 6 values (two of them nearly equal), all chains up to length 3 over a '
              '7-operation alphabet on offset rectangles; floating point compared with 1e-9 relative.')

ALPHA = [-2.5, 0.0, 1.0, 300.25, 300.2503, lib.NAN]


def chain_ops(r, m):
    '''operations valid on both; yields (name, fn) where fn works on scaled and unscaled region'''
    t, x, y, clustered = m
    if not clustered:
        if x > 1:
            yield 'rx', (t, x - 1, y, False)
        if y > 1:
            yield 'ry', (t, x, y - 1, False)
        if x > 1 and t > 1:
            yield 'sub', (t - 1, x - 1, y, False)
        if x * y > 1:
            yield 'cl0', (t, x, y, True)
            yield 'cl1', (t, x, y, True)
    if t > 1:
        yield 'iv0', (t - 1, x, y, clustered)
        yield 'iv1', (t - 1, x, y, clustered)
    yield 'pkl', m


def do(r, name):
    t, x, y = r.shape
    if name == 'rx':
        return r.region_subset(Region(1, x, 0, y))
    if name == 'ry':
        return r.region_subset(Region(0, x, 1, y))
    if name == 'sub':
        return r.subset(Region(1, x, 0, y), TimeInterval(1, t))
    if name == 'iv0':
        return r.interval_subset(TimeInterval(0, t - 1))
    if name == 'iv1':
        return r.interval_subset(TimeInterval(1, t))
    if name in ('cl0', 'cl1'):
        n = x * y
        lab = [(i + i // y) % 2 for i in range(n)]
        if max(lab) == 0:
            lab[-1] = 1
        return fx.partition(lab, x, y).create_spt_cluster(r, int(name[2]))
    if name == 'pkl':
        r.pickle_to('r.pkl')
        return BaseRegion.from_pickle('r.pkl')
    raise ValueError(name)


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for s in itertools.product(range(len(ALPHA)), repeat=n):
        for t in ([0, 2, 3] if n == 3 else [0]):
            yield {'m': 'values', 's': list(s), 't': t}
    for kind in ('plain', 'nan', 'const', 'neg', 'int'):
        for shape in ([3, 2, 3], [3, 3, 2], [2, 1, 4], [2, 4, 1], [4, 3, 3], [6, 5, 7], [5, 7, 4]):
            for pre in ('none', 'cluster', 'rect', 'interval'):
                yield {'m': 'chain', 'kind': kind, 'shape': shape, 'pre': pre,
                       'depth': 3 if (tier == 'thorough' or shape[1] * shape[2] < 9) else 2}


def check_scaled(sc, orig, what):
    '''sc: scaled region, orig: {point: series}'''
    for p, s in orig.items():
        g = np.asarray(sc.series_at(Point(*p)), dtype=float)
        s = np.asarray(s, dtype=float)
        nn = s[~np.isnan(s)]
        if len(nn) == 0:
            if not np.isnan(g).all():
                raise Violation('{}: scaling an all-missing series gave {}'.format(what, g))
            continue
        if nn.min() == nn.max():
            if not same(g[~np.isnan(s)], np.zeros(len(nn))):
                raise Violation('{}: scaling a constant series {} gave {}'.format(what, s, g))
            continue
        want = (s - nn.min()) / (nn.max() - nn.min())
        if not same(g, want):
            raise Violation('{}: scaled {} is {} expected {}'.format(what, s, g, want))


def mixed_const(w, sc):
    return np.isnan(w).any() and not np.isnan(np.asarray(sc, dtype=float)).any()


def members(r):
    return [(p.x, p.y) for p, _ in r]


def run(spec, ctx):
    ctx.fresh_dir()
    if spec['m'] == 'values':
        s = [ALPHA[i] for i in spec['s']]
        t = ([ALPHA[i] for i in spec['s'][::-1]] + [1.0] * 4)[:len(s)]
        other = [np.array([1.0, 5.0, 2.0, 3.0][:len(s)]) * (spec['t'] + 1) - spec['t'],
                 np.array(t)]
        a = np.zeros((len(s), 1, 3))
        a[:, 0, 0], a[:, 0, 1], a[:, 0, 2] = s, other[0], other[1]
        r = SpatioTemporalRegion(a.copy())
        sc = fx.scale(r)
        orig = {(0, j): a[:, 0, j] for j in range(3)}
        check_scaled(sc, orig, 'series {}'.format(s))
        d = sc.descale()
        for p, v in orig.items():
            nn = v[~np.isnan(v)]
            g = np.asarray(d.series_at(Point(*p)))
            # cells missing in the original are only guaranteed to be missing when not constant
            if len(nn) and nn.min() == nn.max():
                ok = same(g[~np.isnan(v)], nn)
            else:
                ok = same(g, v)
            if not ok:
                raise Violation('round trip of {} gave {}'.format(v, g))
        ctx.check(same(r.as_numpy, a), 'scaling altered the source region')
        ctx.check(sc.has_scaling() and not d.has_scaling() and not r.has_scaling(), 'has_scaling flag')
        ctx.state(tuple(map(str, s)), spec['t'])
        ctx.outcome(tuple(np.round(np.nan_to_num(sc.as_numpy.ravel(), nan=-9), 9)))
        ctx.step(2)
        return
    t, x, y = spec['shape']
    a = lib.distinct3d(t, x, y, spec['kind'])
    plain0 = SpatioTemporalRegion(a.copy())
    clustered = False
    if spec['pre'] == 'cluster':
        if x * y < 2:
            return
        plain0 = do(plain0, 'cl1')
        clustered = True
    elif spec['pre'] == 'rect':
        plain0 = do(plain0, 'ry' if y > 1 else 'rx')
    elif spec['pre'] == 'interval':
        plain0 = do(plain0, 'iv1')
    sc0 = fx.scale(plain0)
    orig = {p: np.array(plain0.series_at(Point(*p))) for p in members(plain0)}
    check_scaled(sc0, orig, 'pre={}'.format(spec['pre']))
    sarr = {p: np.array(sc0.series_at(Point(*p))) for p in orig}

    def rec(plain, scaled, scalednp, m, chain, depth):
        what = '{} scaled then {}'.format(spec['pre'], chain)
        d = scaled.descale()
        if d.has_scaling() or not scaled.has_scaling():
            raise Violation('{}: has_scaling flag wrong'.format(what))
        mem = members(plain)
        for obj, name in ((scaled, 'scaled'), (d, 'descaled')):
            if members(obj) != mem:
                raise Violation('{}: {} region iterates {} expected {}'.format(
                    what, name, members(obj), mem))
            if tuple(obj.shape) != tuple(plain.shape):
                raise Violation('{}: {} shape {} expected {}'.format(
                    what, name, obj.shape, plain.shape))
        for p in mem:
            want = plain.series_at(Point(*p))
            g = np.asarray(d.series_at(Point(*p)), dtype=float)
            w = np.asarray(want, dtype=float)
            # a series constant apart from missing values is documented to scale to all zeros
            mask = np.ones(len(w), bool) if not mixed_const(w, scaled.series_at(Point(*p))) \
                else ~np.isnan(w)
            if not same(g[mask], w[mask]):
                raise Violation('{}: descaled series at {} is {} expected {}'.format(
                    what, p, d.series_at(Point(*p)), want))
            if not same(scaled.series_at(Point(*p)), scalednp.series_at(Point(*p))):
                raise Violation('{}: scaled series at {} is not the derived scaled series'.format(
                    what, p))
        ctx.state(spec['kind'], spec['shape'], spec['pre'], chain)
        ctx.step()
        if not depth:
            return
        for name, nm in chain_ops(plain, m):
            rec(do(plain, name), do(scaled, name), do(scalednp, name), nm, chain + (name,),
                depth - 1)

    # a plain region holding the scaled numbers, taken through the same chain
    base = SpatioTemporalRegion(np.array(sc0.as_numpy))
    if clustered:
        base = do(base, 'cl1')
    tt, xx, yy = sc0.shape
    rec(plain0, sc0, base, (tt, xx, yy, clustered), (), spec['depth'])
    # scaling twice and descaling twice
    sc2 = fx.scale(sc0)
    back = sc2.descale()
    for p in orig:
        if not same(back.series_at(Point(*p)), sarr[p]):
            raise Violation('descaling a doubly scaled region does not give the first scaling back')
    back2 = back.descale()
    for p in orig:
        if not mixed_const(orig[p], sarr[p]) and not same(back2.series_at(Point(*p)), orig[p]):
            raise Violation('descaling twice does not give the original back')
    ctx.outcome(spec['kind'], tuple(spec['shape']), spec['pre'])
