'''
C01 iteration protocol. Every history (up to a depth) of complete traversals, traversals abandoned
after m items, function applications (also ones that fail midway) and queries on every kind of
region, followed by a fresh traversal; plus every interleaving of the traversals of the different
clusters of one partition. Oracle: the row-major list of member points with the values of the
underlying array.
'''
import itertools

import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.function import FunctionRegionScalarSame, FunctionRegionSeriesSame
from spta.region.mask import MaskRegionFuzzy
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.model.error import ErrorRegion

from mc import fx, lib
from mc.core import Violation, ident, same

TECHNIQUE = 'explicit-state exploration of operation histories on the real iterators vs a list model'
LEVEL_NOTE = ('Every history of at most 2 (quick) / 3 (thorough) earlier traversals or queries on '
              'every region kind, shapes up to 2x3/3x3 with every assignment of points to clusters, '
              'plus all interleavings of cluster traversals, and of a region with the regions derived from it; larger shapes only as single '
              'configurations.')

KINDS2 = ['spatial', 'scluster', 'error', 'error_cluster', 'partition', 'mask']
KINDS3 = ['st', 'stcluster', 'scaled', 'scaled_cluster', 'cluster_scaled']


class Boom(Exception):
    pass


def build(kind, x_len, y_len, labels, which):
    '''returns (region, expected item list, kind of items)'''
    all_pts = lib.points(x_len, y_len)
    members = [p for p in all_pts if labels[p[0] * y_len + p[1]] == which]
    part = fx.partition(labels, x_len, y_len)
    a2 = lib.distinct2d(x_len, y_len)
    a3 = lib.distinct3d(3, x_len, y_len)
    if kind == 'spatial':
        return SpatialRegion(a2), [(p, a2[p]) for p in all_pts]
    if kind == 'scluster':
        return part.create_spatial_cluster(SpatialRegion(a2), which), [(p, a2[p]) for p in members]
    if kind == 'error':
        return ErrorRegion(SpatialRegion(a2)), [(p, a2[p]) for p in all_pts]
    if kind == 'error_cluster':
        c = part.create_spatial_cluster(SpatialRegion(a2), which)
        return ErrorRegion(c), [(p, a2[p]) for p in members]
    if kind == 'partition':
        return part, [(p, None) for p in all_pts]
    if kind == 'mask':
        k = max(labels) + 1
        u = np.zeros((k, x_len, y_len))
        for p in all_pts:
            u[labels[p[0] * y_len + p[1]], p[0], p[1]] = 1.0
        return MaskRegionFuzzy(u, which, 0), [(p, None) for p in members]
    st = SpatioTemporalRegion(a3)
    if kind == 'st':
        return st, [(p, a3[:, p[0], p[1]]) for p in all_pts]
    if kind == 'stcluster':
        return part.create_spt_cluster(st, which), [(p, a3[:, p[0], p[1]]) for p in members]
    mn, mx = a3.min(axis=0), a3.max(axis=0)
    with np.errstate(all='ignore'):
        sc = np.where(mx > mn, (a3 - mn) / (mx - mn), 0.0)
    if kind == 'scaled':
        return fx.scale(st), [(p, sc[:, p[0], p[1]]) for p in all_pts]
    if kind == 'scaled_cluster':
        return fx.scale(part.create_spt_cluster(st, which)), \
            [(p, sc[:, p[0], p[1]]) for p in members]
    if kind == 'cluster_scaled':
        return part.create_spt_cluster(fx.scale(st), which), \
            [(p, sc[:, p[0], p[1]]) for p in members]
    raise ValueError(kind)


def ops_for(kind, n_expected):
    ops = ['full'] + ['stop{}'.format(m) for m in sorted({1, 2, n_expected - 1, n_expected})
                      if 1 <= m <= n_expected]
    ops.append('iter_only')
    if kind not in ('partition', 'mask'):
        ops += ['apply', 'boom1', 'boom2']
    if kind in ('spatial', 'scluster', 'error', 'error_cluster'):
        ops += ['min', 'max']
    if kind in ('error', 'error_cluster'):
        ops += ['overall']
    if kind in KINDS3:
        ops += ['as_list', 'as_2d', 'series_apply', 'inner']
    if kind in ('mask', 'scluster', 'stcluster', 'cluster_scaled'):
        ops += ['len']
    return ops


def norm(kind, items):
    out = []
    for it in items:
        if kind in ('partition', 'mask'):
            out.append(((int(it.x), int(it.y)), None))
        else:
            p, v = it
            out.append(((int(p.x), int(p.y)), np.array(v)))
    return out


def compare(kind, got, exp, what):
    got = norm(kind, got)
    gp = [p for p, _ in got]
    ep = [p for p, _ in exp]
    if gp != ep:
        raise Violation('{}: visited {} expected {}'.format(what, gp, ep))
    for (p, v), (_, e) in zip(got, exp):
        if e is not None and not same(v, e):
            raise Violation('{}: value at {} is {} expected {}'.format(what, p, v, e))


def do_op(region, kind, op, exp, x_len, y_len):
    if op == 'full':
        compare(kind, [i for i in region], exp, op)
    elif op.startswith('stop'):
        m = int(op[4:])
        got = []
        for item in region:
            got.append(item)
            if len(got) == m:
                break
        compare(kind, got, exp[:m], op)
    elif op == 'iter_only':
        iter(region)
    elif op == 'apply':
        if kind in KINDS3:
            fun = FunctionRegionScalarSame(lambda s: float(s[-1]) * 2 + 1, x_len, y_len)
            want = {p: float(v[-1]) * 2 + 1 for p, v in exp}
        else:
            fun = FunctionRegionScalarSame(lambda v: v * 2 + 1, x_len, y_len)
            want = {p: v * 2 + 1 for p, v in exp}
        res = fun.apply_to(region)
        for p, v in want.items():
            if not same(res.value_at(Point(*p)), v):
                raise Violation('function result at {} wrong'.format(p))
    elif op == 'series_apply':
        fun = FunctionRegionSeriesSame(lambda s: np.array(s)[:2] - 1, x_len, y_len)
        res = fun.apply_to(region, 2)
        for p, v in exp:
            if not same(res.series_at(Point(*p)), v[:2] - 1):
                raise Violation('series function result at {} wrong'.format(p))
    elif op in ('boom1', 'boom2'):
        limit = int(op[4:])
        seen = []

        def boom(v):
            seen.append(1)
            if len(seen) >= limit:
                raise Boom()
            return 0.0
        fun = FunctionRegionScalarSame(boom, x_len, y_len)
        try:
            fun.apply_to(region)
            if limit <= len(exp):
                raise Violation('function applied to fewer points than the region has')
        except Boom:
            pass
    elif op in ('min', 'max'):
        pick = min if op == 'min' else max
        p, v = region.find_minimum() if op == 'min' else region.find_maximum()
        ep, ev = pick(exp, key=lambda t: t[1])
        if (p.x, p.y) != ep or v != ev:
            raise Violation('find_{}imum gave {} expected {}'.format(op, (p, v), (ep, ev)))
    elif op == 'overall':
        want = float(np.sqrt(np.mean([v ** 2 for _, v in exp])))
        if not same(region.overall_error, want):
            raise Violation('overall error {} expected {}'.format(region.overall_error, want))
    elif op in ('as_list', 'as_2d'):
        got = region.as_list if op == 'as_list' else region.as_2d
        if len(got) != len(exp) or not all(same(g, e[1]) for g, e in zip(got, exp)):
            raise Violation('{} does not list every series once in order'.format(op))
    elif op == 'inner':
        # abandon a traversal, then query the list inside the same step
        for _ in region:
            break
        if not same(np.array(region.as_list), np.array([e[1] for e in exp])):
            raise Violation('as_list after an abandoned traversal is not the whole region')
    elif op == 'len':
        if int(region.cluster_len) != len(exp):
            raise Violation('size {} expected {}'.format(region.cluster_len, len(exp)))
    else:
        raise ValueError(op)


def configs(tier):
    q = tier == 'quick'
    shp = lib.shapes(2, 3) + [(3, 2), (3, 1)] if q else lib.shapes(3, 3)
    for (x, y) in shp:
        n = x * y
        for k in range(1, min(n, 3) + 1):
            if n > 6 and k > 2:
                continue
            parts = list(lib.surjections(n, k)) if n <= 4 else list(lib.rgs(n, k))
            if q and n >= 6:
                parts = parts[::max(1, len(parts) // 12)]
            for lab in parts:
                yield x, y, lab, k
    # single larger configurations
    for (x, y) in [(5, 7), (7, 5), (1, 11), (11, 1), (3, 49), (2, 98), (2, 103), (2, 107)]:
        lab = tuple((i * 5 + i // 3) % 4 if i >= 4 else i for i in range(x * y))
        yield x, y, lab, 4


def cases(tier):
    depth = 2
    for x, y, lab, k in configs(tier):
        first = True
        for kind in KINDS2 + KINDS3:
            clustered = kind in ('scluster', 'error_cluster', 'mask', 'stcluster',
                                 'scaled_cluster', 'cluster_scaled')
            if not clustered and (k != 1 and x * y <= 12):
                continue    # the partition does not matter
            for which in range(k if clustered else 1):
                d = 3 if (tier == 'thorough' and x * y <= 4) or (x, y) in ((2, 2), (1, 3)) and \
                    lab in ((0, 1, 1, 0), (0, 0, 0), (0, 0, 0, 0), (0, 1, 0)) else depth
                yield {'m': 'hist', 'kind': kind, 'x': x, 'y': y, 'lab': list(lab), 'which': which,
                       'depth': d}
        if 2 <= k <= 3 and x * y <= 6:
            for dim in (2, 3):
                yield {'m': 'inter', 'x': x, 'y': y, 'lab': list(lab), 'k': k, 'dim': dim}
    for x, y, lab in ((2, 2, (0, 1, 0, 0)), (1, 3, (0, 0, 1)), (3, 1, (0, 1, 0)), (2, 1, (0, 0)), (1, 1, (0,))) + \
            (((2, 3, (0, 1, 0, 0, 1, 0)),) if tier != 'quick' else ()):
        for kind in ['spatial', 'scluster'] + KINDS3:
            for d in derivations(kind, x, y):
                yield {'m': 'derived', 'kind': kind, 'x': x, 'y': y, 'lab': list(lab), 'd': list(d)}


def derivations(kind, x, y):
    '''(operation, rectangle, interval)'''
    if kind in ('spatial', 'st', 'scaled'):
        for r in ((0, x, 0, y), (0, 1, 0, y), (x - 1, x, 0, 1)):
            yield 'subset', r, (0, 3)
    if kind in KINDS3:
        for t in ((0, 3), (1, 3), (0, 1)):
            yield 'interval', (0, x, 0, y), t
    if kind in ('st', 'scaled'):
        for r in ((0, x, 0, y), (0, x, y - 1, y)):
            for t in ((0, 3), (1, 2)):
                yield 'both', r, t
    yield 'value' if kind in ('spatial', 'scluster') else 'series', (0, x, 0, y), (0, 3)
    yield 'function', (0, x, 0, y), (0, 3)


def derive(kind, region, d, x, y, exp):
    '''the derived region and its expected items'''
    what, r, t = d[0], Region(*d[1]), TimeInterval(*d[2])
    inside = [(p, v) for p, v in exp if r.x1 <= p[0] < r.x2 and r.y1 <= p[1] < r.y2]
    inside = [((p[0] - r.x1, p[1] - r.y1), v if kind in ('spatial', 'scluster') else v[t.t1:t.t2]) for p, v in inside]
    if what == 'subset':
        return region.region_subset(r), inside
    if what == 'interval':
        return region.interval_subset(t), inside
    if what == 'both':
        return region.subset(r, t), inside
    if what == 'value':
        return region.repeat_value(7.5), [(p, 7.5) for p, _ in inside]
    if what == 'series':
        s = np.array([7.5, -1.0])
        return region.repeat_series(s), [(p, s) for p, _ in inside]
    if kind in ('spatial', 'scluster'):
        return FunctionRegionScalarSame(lambda v: v * 2 + 1, x, y).apply_to(region), [(p, v * 2 + 1) for p, v in inside]
    return FunctionRegionSeriesSame(lambda s: np.array(s)[:2] - 1, x, y).apply_to(region, 2), [(p, v[:2] - 1) for p, v in inside]


def derived(spec, ctx):
    '''A region derived at any position of a traversal, then every interleaving of both traversals.'''
    kind, x, y, lab, d = spec['kind'], spec['x'], spec['y'], tuple(spec['lab']), spec['d']
    _, exp = build(kind, x, y, lab, 0)
    try:
        derive(kind, build(kind, x, y, lab, 0)[0], d, x, y, exp)
    except NotImplementedError:
        ctx.outcome(kind, 'refused', d[0])
        return
    for start in range(len(exp) + 1):
        _, want = derive(kind, build(kind, x, y, lab, 0)[0], d, x, y, exp)
        for sched in merges((len(exp) + 1 - start, len(want) + 1)):
            region, _ = build(kind, x, y, lab, 0)
            it = iter(region)
            got, ended = [[next(it) for _ in range(start)], []], [False, False]
            if start == 0:
                other, _ = derive(kind, region, d, x, y, exp)
                it = iter(region)
            elif d[0] in ('function',):
                break       # applying a function is itself a traversal
            else:
                other, _ = derive(kind, region, d, x, y, exp)
            its = [it, iter(other)]
            for c in sched:
                try:
                    got[c].append(next(its[c]))
                except StopIteration:
                    ended[c] = True
                ctx.step()
            for c, e in enumerate((exp, want)):
                compare(kind, got[c], e, '{}: traversal of the {} region, derived by {} at {}, schedule {}'.format(
                    kind, ('first', 'derived')[c], d, start, sched))
                ctx.check(ended[c], '{}: traversal of the {} region longer than it: {}'.format(kind, ('first', 'derived')[c], sched))
            ctx.state('derived', kind, x, y, tuple(map(str, d)), start, sched)


def merges(lens):
    '''all interleavings (as sequences of ids) of sequences with the given lengths'''
    if not any(lens):
        yield ()
        return
    for i, l in enumerate(lens):
        if l:
            rest = list(lens)
            rest[i] -= 1
            for tail in merges(tuple(rest)):
                yield (i,) + tail


def run(spec, ctx):
    x, y, lab = spec['x'], spec['y'], tuple(spec['lab'])
    if spec['m'] == 'derived':
        return derived(spec, ctx)
    if spec['m'] == 'hist':
        kind, which = spec['kind'], spec['which']
        _, exp = build(kind, x, y, lab, which)
        ops = ops_for(kind, len(exp))
        d = spec['depth']
        if x * y > 12:
            d = min(d, 2)
        for hist in itertools.product(ops, repeat=d):
            region, exp = build(kind, x, y, lab, which)
            for i, op in enumerate(hist):
                try:
                    do_op(region, kind, op, exp, x, y)
                except Violation as v:
                    raise Violation('{} after history {}: {}'.format(kind, hist[:i], v))
                ctx.step()
                ctx.state(kind, x, y, lab, which, hist[:i + 1])
            try:
                do_op(region, kind, 'full', exp, x, y)
                do_op(region, kind, 'full', exp, x, y)
            except Violation as v:
                raise Violation('{} after history {}: {}'.format(kind, hist, v))
            ctx.step(2)
        ctx.outcome(kind, tuple(p for p, _ in exp))
    else:
        k = spec['k']
        part = fx.partition(lab, x, y)
        if spec['dim'] == 2:
            a = lib.distinct2d(x, y)
            kind = 'scluster'
        else:
            a = lib.distinct3d(3, x, y)
            kind = 'stcluster'
        exps = []
        for c in range(k):
            mem = fx.member_points(lab, x, y, c)
            exps.append([(p, a[p] if spec['dim'] == 2 else a[:, p[0], p[1]]) for p in mem])
        lens = tuple(len(e) + 1 for e in exps)
        for sched in merges(lens):
            base = SpatialRegion(a) if spec['dim'] == 2 else SpatioTemporalRegion(a)
            cl = part.create_all_spatial_clusters(base) if spec['dim'] == 2 else \
                part.create_all_spt_clusters(base)
            its = [iter(c) for c in cl]
            got = [[] for _ in cl]
            ended = [False] * k
            for c in sched:
                try:
                    got[c].append(next(its[c]))
                except StopIteration:
                    ended[c] = True
                ctx.step()
            for c in range(k):
                compare(kind, got[c], exps[c], 'interleaved traversal {} cluster {}'.format(sched, c))
                if not ended[c]:
                    raise Violation('traversal of cluster {} longer than the cluster'.format(c))
            ctx.state('inter', x, y, lab, sched, spec['dim'])
