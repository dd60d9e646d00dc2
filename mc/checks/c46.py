'''
C46 extremes and enumerations. Every small array over an alphabet of values (ties, undefined values, infinities): the
extreme and its first index, the magnitudes and the lists of points and series are the ones of a plain scan. Every small
region and every cluster of it: the extreme of its members is found at its first member, whatever was asked before.
'''
import collections
import itertools
import math

import numpy as np

from spta.region import Point
from spta.region.spatial import SpatialRegion
from spta.region.partition import PartitionRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.util import arrays as arrays_util

from mc import fx, lib
from mc.core import ident, same

TECHNIQUE = 'exhaustive enumeration of arrays, regions and clusters against a plain scan'
LEVEL_NOTE = ('All arrays of up to 6 elements in 1-3 dimensions over {-1.5, 0, 2, NaN} and {-inf, 0, inf, NaN}; all regions of up to 5 '
              '(thorough 6) points with all their two-cluster partitions and prior partial traversals; all shapes up to 9x9.')
CASE_TIMEOUT = 300
NAN = float('nan')
ALPHABETS = [(-1.5, 0.0, 2.0, NAN), (-math.inf, 0.0, math.inf, NAN), (3, 1, 2, 1)]
Named = collections.namedtuple('Named', 'a b')


def shapes(limit):
    for dims in (1, 2, 3):
        for shape in itertools.product(range(1, limit + 1), repeat=dims):
            if np.prod(shape) <= limit:
                yield shape


def cases(tier):
    limit = 6 if tier == 'quick' else 7
    for shape in shapes(limit):
        for a in range(len(ALPHABETS)):
            yield {'m': 'array', 'shape': list(shape), 'a': a}
    for x, y in lib.shapes(limit - 1, limit - 1):
        if x * y <= limit - 1:
            for lab in itertools.product((0, 1), repeat=x * y):
                yield {'m': 'region', 'x': x, 'y': y, 'lab': list(lab)}
    for x, y in lib.shapes(9, 9) + [(1, 90), (90, 1), (90, 90), (20, 17), (300, 2), (2, 300)]:
        yield {'m': 'points', 'x': x, 'y': y}
    for x, y in lib.shapes(5, 5):
        yield {'m': 'copies', 'x': x, 'y': y}


def scan(pairs, sign):
    '''first key with the least sign * value among the defined values'''
    best = None
    for key, v in pairs:
        if v == v and (best is None or sign * v < sign * best[1]):
            best = (key, v)
    return best


def run_array(spec, ctx):
    shape = tuple(spec['shape'])
    alphabet = ALPHABETS[spec['a']]
    for values in itertools.product(sorted(set(alphabet), key=str), repeat=int(np.prod(shape))):
        a = np.array(values).reshape(shape)
        keep = a.copy()
        pairs = [(i, a[i]) for i in np.ndindex(*shape)]
        what = 'array {}'.format(a.tolist())
        for form, b in (('', a), (' (column order)', np.asfortranarray(a)), (' (reversed view)', a[::-1].copy()[::-1])):
            for name, sign in (('minimum', 1), ('maximum', -1)):
                best = scan(pairs, sign)
                if best is None:
                    continue
                v, i = getattr(arrays_util, name + '_value_and_index')(b)
                ctx.check(v == best[1], '{}{}: {} {}'.format(what, form, name, v))
                ctx.check(isinstance(i, tuple) and tuple(map(int, i)) == best[0], '{}{}: {} at {} instead of {}'.format(what, form, name, i, best[0]))
                ctx.step()
        if spec['a'] != 1:
            defined = [v for _, v in pairs if v == v]
            for form, b in (('', a), (' (list)', a.tolist())):
                ctx.check(same(arrays_util.squared(b), np.array([v * v for _, v in pairs]).reshape(shape)), what + form + ': squared')
                total = sum(v * v for _, v in pairs)
                ctx.check(same(arrays_util.sum_squared(b), total), what + form + ': sum of squares')
                ctx.check(same(arrays_util.root_sum_squared(b), math.sqrt(total) if total == total else NAN), what + form + ': root of the sum of squares')
                if defined:
                    mean = sum(v * v for v in defined) / len(defined)
                    ctx.check(same(arrays_util.mean_squared(b), mean), what + form + ': mean of squares')
                    ctx.check(same(arrays_util.root_mean_squared(b), math.sqrt(mean)), what + form + ': root of the mean of squares')
                ctx.step(5)
        ctx.check(ident(a, keep), what + ': modified')
        if len(shape) == 3:
            got = arrays_util.spatio_temporal_to_list_of_time_series(a)
            want = [keep[:, x, y] for x in range(shape[1]) for y in range(shape[2])]
            ctx.check(len(got) == len(want) and all(ident(g, w) for g, w in zip(got, want)), what + ': series')
            got = SpatioTemporalRegion(a).as_list
            ctx.check(len(got) == len(want) and all(ident(g, w) for g, w in zip(got, want)), what + ': series of the region')
        ctx.state(shape, values)


def run_region(spec, ctx):
    x, y = spec['x'], spec['y']
    pts = lib.points(x, y)
    lab = np.array(spec['lab']).reshape(x, y)
    whole = not lab.any()
    values_of = itertools.product((-1.5, 0.0, 2.0, NAN), repeat=x * y) if x * y < 5 else itertools.product((-1.5, 0.0, NAN), repeat=x * y)
    for values in values_of:
        a = np.array(values).reshape(x, y)
        keep = a.copy()
        regions = []
        if whole:
            regions.append(('region', SpatialRegion(a), pts))
        else:
            k = 2 if lab.min() == 0 else None
            if k is None:
                continue
            part = fx.partition(lab.ravel(), x, y)
            for i in (0, 1):
                regions.append(('cluster {}'.format(i), part.create_spatial_cluster(SpatialRegion(a), i), [p for p in pts if lab[p] == i]))
        for name, r, members in regions:
            what = '{} of {} with labels {}'.format(name, a.tolist(), lab.tolist())
            for history in ('', 'a', 'ab', 'ba', 'ia', 'ib', 'iab'):
                for op in history or 'ab':
                    if op == 'i':
                        next(iter(r))
                        continue
                    best = scan([(p, a[p]) for p in members], 1 if op == 'a' else -1)
                    if best is None:
                        continue
                    p, v = r.find_minimum() if op == 'a' else r.find_maximum()
                    ctx.check(p is not None and (p.x, p.y) == best[0] and v == best[1],
                              '{} after {}: {} is {} at {} instead of {}'.format(what, history, 'minimum' if op == 'a' else 'maximum', v, p, best))
                    ctx.step()
            ctx.check(fx.pts(p for p, _ in r) == members, what + ': points afterwards')
        ctx.check(ident(a, keep), 'values {} modified'.format(keep.tolist()))
        ctx.state(x, y, spec['lab'], values)


def run_points(spec, ctx):
    x, y = spec['x'], spec['y']
    pts = lib.points(x, y)
    got = arrays_util.list_of_2d_points(x, y)
    ctx.check(np.array(got).shape == (x * y, 2) and [tuple(map(int, p)) for p in got] == pts, 'points of {}x{}'.format(x, y))
    some = pts if x * y <= 81 else [(0, 0), (x - 1, 0), (0, y - 1), (x - 1, y - 1), (x // 2, y // 3)]
    for i, j in some:
        want = [math.sqrt((p - i) ** 2 + (q - j) ** 2) for p, q in pts]
        for a, b in ((i, j), (np.uint32(i), np.uint32(j)), (np.int64(i), np.int64(j))):
            got = arrays_util.distances_to_point_in_2d_region(a, b, x, y)
            ctx.check(same(got, np.array(want)), 'distances to {} in {}x{}'.format((a, b), x, y))
            ctx.step()
        ctx.state(x, y, i, j)


def run_copies(spec, ctx):
    x, y = spec['x'], spec['y']
    for n in range(1, 6):
        base = [((i * 5) % 7) - 1.5 * i for i in range(n)]
        for form in ('list', 'tuple', 'array', 'ints', 'column', 'nan'):
            series = {'list': base, 'tuple': tuple(base), 'array': np.array(base), 'ints': np.arange(n) * 3 % 4, 'nan': np.array([NAN] + base[1:]),
                      'column': np.stack([np.array(base), np.zeros(n)], axis=1)[:, 0]}[form]
            keep = np.array(series)
            got = arrays_util.copy_array_as_matrix_elements(series, x, y)
            what = 'series {} repeated over {}x{}'.format(form, x, y)
            ctx.check(np.array(got).shape == (n, x, y) and all(ident(got[:, p, q], keep) for p, q in lib.points(x, y)), what)
            got[0, 0, 0] = 99
            ctx.check(ident(np.array(series), keep), what + ': original modified')
            ctx.check(x * y == 1 or all(ident(got[:, p, q], keep) for p, q in lib.points(x, y)[1:]), what + ': copies are not independent')
            ctx.state('series', x, y, n, form)
            ctx.step()
    for value in (7, -0.5, NAN, math.inf, True, 'text', None, Named(1, np.arange(3)), Named([1, 2], None), Named(np.arange(2), np.arange(2)), Point(1, 2)):
        what = 'value {!r} repeated over {}x{}'.format(value, x, y)
        region = SpatialRegion(np.arange(x * y, dtype=float).reshape(x, y))
        for got in (arrays_util.copy_value_as_matrix_elements(value, x, y), region.repeat_value(value).as_numpy):
            ctx.check(np.array(got).shape == (x, y), what + ': shape {}'.format(np.array(got).shape))
            for p in lib.points(x, y):
                g = got[p]
                if hasattr(value, '_fields'):
                    ctx.check(g is value, what + ': {!r}'.format(g))
                else:
                    ctx.check(g is value or g == value or value != value and g != g, what + ': {!r}'.format(g))
            ctx.step()
        ctx.check(ident(region.as_numpy, np.arange(x * y, dtype=float).reshape(x, y)), what + ': region modified')
        ctx.state('value', x, y, repr(value))


def run(spec, ctx):
    globals()['run_' + spec['m']](spec, ctx)
