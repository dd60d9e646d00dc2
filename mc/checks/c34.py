'''
C34 DTW barycenter averaging. Every pair of short series: the squared DTW is the minimum over all warping paths,
whatever the scratch matrices held before. Every small set of series: the starting point minimises the sum of squared
distances; an update is the mean over an optimal alignment with each series; the sum never increases from one
iteration to the next, and the series are not modified.
'''
import functools
import itertools

import matplotlib
matplotlib.use('Agg')
import numpy as np

from spta.dba import dba

from mc import lib
from mc.core import same

TECHNIQUE = 'exhaustive enumeration of small series sets against all warping paths'
LEVEL_NOTE = ('All pairs of series over {0,1,3} of length 1-4; all sets of 2-3 series over {0,1,3} of length 1-3 (equal and '
              'different lengths; thorough: also sets of 4 of length 1-2 and of 2 of length 4); 0-4 iterations; negative and nearly equal values; all of them also 2^60 times larger and smaller; long steps, impulses and waves; 50-53 series.')
CASE_TIMEOUT = 300
ALPHA = (0.0, 1.0, 3.0)
NEGATIVE = (-1.5, 0.25, 2.0)
SCALES = (2.0 ** 60, 2.0 ** -60)
NEAR = (0.0, 1.0, 1.0005, 2.001)


def pool(lens, alphabet=ALPHA):
    return [s for n in lens for s in itertools.product(alphabet, repeat=n)]


def cases(tier):
    for first in range(len(pool((1, 2, 3, 4)))):
        yield {'m': 'dtw', 'first': first}
    for first in range(len(pool((1, 2, 3)))):
        yield {'m': 'set', 'lens': (1, 2, 3), 'size': 2, 'first': first}
    for lens in ((1, 2), (2, 3), (3,)):
        for first in range(len(pool(lens))):
            if lens == (2, 3) and tier == 'quick' and first % 3:
                continue
            yield {'m': 'set', 'lens': lens, 'size': 3, 'first': first}
    if tier != 'quick':
        for first in range(len(pool((1, 2)))):
            yield {'m': 'set', 'lens': (1, 2), 'size': 4, 'first': first}
        for first in range(81):
            yield {'m': 'set', 'lens': (4,), 'size': 2, 'first': first}
    for first in range(len(pool((1, 2, 3), NEGATIVE))):
        yield {'m': 'set', 'lens': (1, 2, 3), 'size': 2, 'first': first, 'negative': 1}
    for first in range(9):
        yield {'m': 'set', 'lens': (2,), 'size': 3, 'first': first, 'negative': 1}
    for first in range(len(pool((1, 2), NEAR))):
        yield {'m': 'set', 'lens': (1, 2), 'size': 3, 'first': first, 'negative': 2}
    for n in (9, 20, 40) if tier == 'quick' else (9, 20, 40, 70):
        for form in range(3):
            yield {'m': 'long', 'n': n, 'form': form}
    for n in (49, 50, 51, 52, 53):
        yield {'m': 'many', 'n': n}


def paths(n, m):
    '''All warping paths from (0, 0) to (n-1, m-1).'''
    if n == 0 or m == 0:
        return []
    if (n, m) == (1, 1):
        return [((0, 0),)]
    out = []
    for a, b in ((n - 1, m - 1), (n, m - 1), (n - 1, m)):
        out += [p + ((n - 1, m - 1),) for p in paths_c(a, b)]
    return out


paths_c = functools.lru_cache(None)(paths)


@functools.lru_cache(300000)
def optimal(s, t):
    '''Minimum cost and the optimal paths.'''
    costs = [(sum((s[i] - t[j]) ** 2 for i, j in p), p) for p in paths_c(len(s), len(t))]
    best = min(c for c, _ in costs)
    return best, [p for c, p in costs if c <= best + 1e-9]


def cost(s, t):
    return optimal(tuple(s), tuple(t))[0]


def total(center, series):
    return sum(cost(center, s) for s in series)


def is_update(center, series, got):
    '''Whether got is the mean over some optimal alignment with each series.'''
    sums = {(tuple([0.0] * len(center)), tuple([0] * len(center)))}
    for s in series:
        nxt = set()
        for p in optimal(tuple(center), tuple(s))[1]:
            for v, c in sums:
                v, c = list(v), list(c)
                for i, j in p:
                    v[i] += s[j]
                    c[i] += 1
                nxt.add((tuple(round(x, 9) for x in v), tuple(c)))
        sums = nxt
    return any(same(np.array(v) / np.array(c), got, atol=1e-7) for v, c in sums)


def run(spec, ctx):
    if spec['m'] == 'dtw':
        all_ = pool((1, 2, 3, 4))
        s = all_[spec['first']]
        cm, dm = np.full((5, 5), 0.0), np.full((5, 5), 0.0)       # reused for all
        for t in all_:
            a, b = np.array(s), np.array(t)
            got = dba.squared_DTW(a, b, cm, dm)
            want = cost(s, t)
            ctx.check(same(got, want), 'squared DTW of {} and {}: {} instead of {}'.format(s, t, got, want))
            ctx.check(same(dba.DTW(a, b, cm, dm), want ** 0.5), 'DTW of {} and {}'.format(s, t))
            cm += 50.0
            dm -= 7.0
            ctx.check(same(dba.squared_DTW(b, a, cm, dm), want), 'squared DTW of {} and {}'.format(t, s))
            ctx.check(tuple(a) == s and tuple(b) == t, 'series modified')
            ctx.step(3)
            ctx.state(s, t)
        return
    if spec['m'] == 'set':
        all_ = pool(spec['lens'], (ALPHA, NEGATIVE, NEAR)[spec.get('negative', 0)])
        for rest in itertools.combinations_with_replacement(range(spec['first'], len(all_)), spec['size'] - 1):
            check_set(ctx, [all_[spec['first']]] + [all_[i] for i in rest])
        return
    n = spec['n']
    if spec['m'] == 'long':
        return run_long(n, spec['form'], ctx)
    base = [(float(i * i % 11), float(i * 7 % 5), float(i % 3)) for i in range(n)]
    ranked = sorted(total(s, base) for s in base)
    for seed in range(40):
        np.random.seed(seed)
        got = dba.approximate_medoid_index([np.array(s) for s in base], np.zeros((3, 3)), np.zeros((3, 3)))
        ctx.check(0 <= got < n and total(base[got], base) <= ranked[max(0, n - 50)] + 1e-9,
                  'starting series {} of {} series (seed {})'.format(got, n, seed))
        ctx.step()
        ctx.outcome(n, int(got))
    ctx.state(n)


def run_long(n, form, ctx):
    '''Long series, that need a warping of any width: steps, impulses and waves at all positions.'''
    at = list(range(0, n, max(1, n // 10))) + [n - 1]
    series = [np.array([[0.0, 1.0][j >= i] if form == 0 else [0.5, -5.0][j == i] if form == 1 else
                        300 + np.sin((j + i) * 0.7) + 0.1 * (j % 3) for j in range(n)]) for i in at]
    before = [s.copy() for s in series]
    m = [[lib.dtw(a, b) ** 2 for b in series] for a in series]
    for i, a in enumerate(series):
        for j, b in enumerate(series):
            got = dba.squared_DTW(a, b, np.full((n, n), 3.0), np.full((n, n), 3.0))
            ctx.check(same(got, m[i][j], atol=1e-7), 'squared DTW of {} and {}'.format(list(a), list(b)))
            ctx.step()
    last = None
    for it in range(4):
        got = np.array(dba.performDBA(series, n_iterations=it))
        now = sum(lib.dtw(got, s) ** 2 for s in series)
        if it == 0:
            ctx.check(same(now, min(sum(row) for row in m), atol=1e-6), 'the first average is not of minimum total distance')
        else:
            ctx.check(now <= last + 1e-7, 'iteration {}: the sum increased from {} to {}'.format(it, last, now))
        ctx.check(len(got) == n and all((a == b).all() for a, b in zip(series, before)), 'series modified')
        last = now
    ctx.state(n, form)
    ctx.outcome(n, form, round(last, 6))


def check_set(ctx, tuples):
    for order in (tuples, tuples[::-1]):
        series = [np.array(s) for s in order]
        m = max(len(s) for s in order)
        i = dba.approximate_medoid_index(series, np.full((m, m), 9.0), np.full((m, m), 9.0))
        best = min(total(s, order) for s in order)
        ctx.check(same(total(order[i], order), best), 'starting series of {}: {}'.format(order, order[i]))
        prev = None
        for it in range(0, 5):
            got = dba.performDBA(series, n_iterations=it)
            if it == 0:
                ctx.check(same(got, np.array(order[i])), 'no iteration of {}: {}'.format(order, got))
                now = best
            else:
                ctx.check(len(got) == len(order[i]), 'length of the average')
                if it <= 2:
                    ctx.check(is_update(prev, order, got), 'iteration {} of {}: {} is not the mean over optimal alignments with {}'.format(it, order, got, prev))
                now = total([float(v) for v in got], order)
                ctx.check(now <= last + 1e-7, 'iteration {} of {}: the sum increased from {} to {}'.format(it, order, last, now))
            last, prev = now, [float(v) for v in got]
            ctx.check([tuple(s) for s in series] == list(order), 'series modified')
            ctx.step()
            if order is tuples and it < 3:
                for scale in SCALES:        # exact
                    other = dba.performDBA([v * scale for v in series], n_iterations=it)
                    ctx.check(same(np.array(other) / scale, got, atol=1e-9), 'iteration {} of {} times {}: {}'.format(it, order, scale, other))
        ctx.outcome(round(last, 3))
        ctx.state(order)
