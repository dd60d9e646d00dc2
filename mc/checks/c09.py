'''
C09 fuzzy masks. Every assignment of memberships from an exact grid to every point of tiny regions,
every cluster and every threshold of the grid: membership of each point, the points visited by
iteration (also repeated, abandoned, interleaved), the cluster size, clones and the layout conversion from
the membership matrix are compared with the definition (best - own <= threshold).
'''
import itertools

import numpy as np

from spta.region import Point
from spta.region.mask import MaskRegionFuzzy

from mc import lib
from mc.core import raises

TECHNIQUE = 'exhaustive enumeration of membership grids x thresholds x traversal histories against the definition'
LEVEL_NOTE = ('Memberships and thresholds are multiples of 1/4 (exact in binary); up to 4 points, k up to 4; '
              'all pairs/triples of points for the traversal histories; differences at 2^-7 to 2^-30 of the threshold.')

GRID = [0, 0.25, 0.5, 0.75, 1]


def rows(k):
    '''All membership vectors of the grid that add to 1.'''
    return [r for r in itertools.product(GRID, repeat=k) if abs(sum(r) - 1) < 1e-12]


def cases(tier):
    thorough = tier != 'quick'
    yield {'bad': 1}
    for k in (2, 3, 4):
        yield {'near': k}
    for k in (1, 2, 3, 4):
        shapes = [(1, 1), (1, 2), (2, 1)] + ([(1, 3), (3, 1)] if k < 4 else []) + \
                 ([(2, 2)] if k < 3 or (thorough and k < 4) else [])
        for shape in shapes:
            n = shape[0] * shape[1]
            for first in rows(k):
                yield {'k': k, 'shape': shape, 'first': first}


def near(k, ctx):
    '''Differences to the best that are a little below, at and above the threshold.'''
    for t in GRID + [0.125, 0.0625, 0.01171875]:
        for best in (0.5, 0.75, 0.9375, 1.0):
            offsets = sorted(set(d for e in (0, 2.0 ** -7, 2.0 ** -12, 2.0 ** -20, 2.0 ** -30) for d in (t - e, t + e) if 0 <= d <= best))
            for d in offsets:
                row = [best] + [best - d] + [0.0] * (k - 2)
                for order in set(itertools.permutations(row)):
                    uij = np.array([order, [1.0] + [0.0] * (k - 1)])
                    for c in range(k):
                        mask = MaskRegionFuzzy.from_uij_and_region(uij, 1, 2, c, t)
                        want = [(0, i) for i in range(2) if max(uij[i]) - uij[i][c] <= t]
                        ctx.check([(p.x, p.y) for p in mask] == want and mask.cluster_len == len(want),
                                  'memberships {} cluster {} threshold {}'.format(order, c, t))
                        ctx.step()
                    ctx.state('near', t, order)


def run(spec, ctx):
    if 'near' in spec:
        return near(spec['near'], ctx)
    if 'bad' in spec:
        a = np.zeros((2, 1, 2))
        ctx.check(raises(lambda: MaskRegionFuzzy(a, 2, 0)), 'cluster index out of range')
        ctx.check(raises(lambda: MaskRegionFuzzy(a, -1, 0)), 'cluster index out of range')
        ctx.check(raises(lambda: MaskRegionFuzzy(a, 0, 1.5)), 'threshold out of range')
        ctx.check(raises(lambda: MaskRegionFuzzy(a, 0, -0.5)), 'threshold out of range')
        ctx.check(raises(lambda: MaskRegionFuzzy(np.zeros((2, 2)), 0, 0)), '2d membership')
        ctx.check(raises(lambda: MaskRegionFuzzy.from_uij_and_region(np.zeros((5, 2)), 2, 3, 0, 0)), 'size')
        ctx.step(6)
        ctx.state('bad')
        return
    k, (x_len, y_len), first = spec['k'], spec['shape'], spec['first']
    n = x_len * y_len
    pts = lib.points(x_len, y_len)
    for rest in itertools.product(rows(k), repeat=n - 1):
        u = [tuple(first)] + list(rest)
        uij = np.array(u, dtype=float)
        ctx.state(k, x_len, y_len, tuple(u))
        for t in GRID:
            expected = [[p for i, p in enumerate(pts) if max(u[i]) - u[i][c] <= t] for c in range(k)]
            masks = [MaskRegionFuzzy.from_uij_and_region(uij, x_len, y_len, c, t) for c in range(k)]
            for c, mask in enumerate(masks):
                what = 'u={} cluster {} threshold {}'.format(u, c, t)
                got = [(p.x, p.y) for p in mask]
                ctx.check(got == expected[c], what + ': points {} expected {}'.format(got, expected[c]))
                ctx.check(mask.cluster_len == len(expected[c]), what + ': size {}'.format(mask.cluster_len))
                for p in pts:
                    ctx.check(bool(mask.is_member(Point(*p))) == (p in expected[c]), what + ': member {}'.format(p))
                ctx.check(not mask.is_member(None), what + ': no point is a member')
                ctx.step()
            if n <= 2:
                for c, mask in enumerate(masks):
                    # abandoned traversals, a size query, clones
                    for stop in range(len(expected[c])):
                        for i, p in enumerate(mask):
                            if i == stop:
                                break
                        ctx.check([(p.x, p.y) for p in mask] == expected[c], 'after an abandoned traversal')
                        clone = mask.clone()
                        it = iter(mask)
                        seen = []
                        for _ in range(stop):
                            p = next(it)
                            seen.append((p.x, p.y))
                            ctx.check([(q.x, q.y) for q in clone] == expected[c], 'clone')
                        ctx.check(seen == expected[c][:stop], 'a clone disturbs the traversal')
                    ctx.check(clone_equal(mask, expected[c]), 'clone differs')
                    ctx.step()
            # consequences for the whole clustering
            cover = set(p for e in expected for p in e)
            ctx.check(cover == set(pts), 'model')
            ctx.outcome(tuple(len(e) for e in expected))
        ctx.check((uij == np.array(u)).all(), 'memberships modified')


def clone_equal(mask, expected):
    c = mask.clone()
    ok = [(p.x, p.y) for p in c] == expected and c.threshold == mask.threshold and \
        c.cluster_index == mask.cluster_index
    c.numpy_dataset[...] = 1.0
    return ok and [(p.x, p.y) for p in mask] == expected
