'''
C43 synthetic series for the classifiers. Every configuration (sets of k, of clustering seeds, sizes, random seeds) and
every history of calls and of other uses of the random generators in between: the entries are those allowed by the
configuration, the series are the lines of the entries, a random seed gives the same entries again, every allowed entry
occurs, and the CSV has the entries.
'''
import csv
import itertools
import random

import numpy as np

from spta.classifier import synthetic
from spta.dataset import synthetic_temporal

from mc.core import same

TECHNIQUE = 'exhaustive enumeration of configurations and call histories vs the definition of the synthetic entries'
LEVEL_NOTE = ('All configurations of a small alphabet (3 sets of k, 3 sets of seeds, 2 sizes, noise 0 and 0.2) with 12 (thorough '
              '60) random seeds; all histories of 3 (thorough 4) steps over 2 seeds, 2 kinds of output and 2 disturbances of '
              'the random state; profiles of all lengths 7 to 60 (thorough 230); series of up to 3000, regions of up to 1000 rows, 700 random seeds.')
CASE_TIMEOUT = 600
KS = [(3,), (2, 5), (2, 3, 4)]
SEEDS = [(0,), (1,), (0, 1, 4)]
SIZES = [(1, 5, 1, 3, 4), (6, 40, 7, 3, 2)]     # medoids, entries, length, x, y


def cases(tier):
    for ks, seeds, size, noise in itertools.product(range(3), range(3), range(2), (0, 0.2)):
        yield {'m': 'entries', 'ks': ks, 'seeds': seeds, 'size': size, 'noise': noise}
    steps = ['list0', 'list7', 'csv0', 'csv7', 'python', 'numpy']
    for first in itertools.product(steps, repeat=2):
        yield {'m': 'history', 'first': first, 'n': 1 if tier == 'quick' else 2}
    for length in (1, 365, 366, 367, 800, 3000):
        yield {'m': 'long', 'length': length}
    for x, y in ((1, 130), (130, 1), (300, 400), (1000, 2)):
        yield {'m': 'wide', 'x': x, 'y': y}
    yield {'m': 'seeds'}
    for start in range(7, 61 if tier == 'quick' else 231, 9):
        yield {'m': 'profiles', 'lengths': [start, start + 9]}


def generate(ks, seeds, size, seed, noise, **kwargs):
    medoids, entries, length, x, y = size
    return synthetic.generate_synthetic_series(KS[ks], SEEDS[seeds], medoids, entries, length, seed, x, y, noise=noise, **kwargs)


def entries(spec, ctx):
    ks, seeds, size = KS[spec['ks']], SEEDS[spec['seeds']], SIZES[spec['size']]
    count, n, length, x, y = size
    occurred, medoids, everything = set(), set(), set()
    for seed in range(12 if ctx.tier == 'quick' else 60):
        weight, low, high = [(0.01, 298, 302), (0.5, -1, 3)][seed % 2]
        got = generate(spec['ks'], spec['seeds'], size, seed, spec['noise'], a_weight=weight, b_min=low, b_max=high)
        ctx.check(len(got) == n, '{} entries'.format(len(got)))
        mine = set()
        for e in got:
            ctx.check(e['k'] in ks and e['seed'] in seeds and 0 <= e['cluster_index'] < e['k'], 'entry {}'.format(e))
            ctx.check(0 <= e['medoid_x'] < x and 0 <= e['medoid_y'] < y, 'medoid {}'.format(e))
            occurred.add((e['k'], e['seed'], e['cluster_index']))
            mine.add((e['medoid_x'], e['medoid_y']))
            series = np.asarray(e['series'])
            ctx.check(series.shape == (length,), 'series {}'.format(series.shape))
            slope = (e['k'] - e['cluster_index']) * weight * (1 if e['seed'] % 2 else -1)
            rest = series - slope * np.arange(length)
            if spec['noise'] == 0:
                ctx.check(np.allclose(rest, rest[0], atol=1e-9), 'slope of {}'.format(e))
            else:
                ctx.check(np.abs(rest - rest.mean()).max() < 12 * spec['noise'], 'slope of {}'.format(e))
                ctx.check(length == 1 or np.abs(rest - rest[0]).max() > 0, 'no noise in {}'.format(e))
            ctx.check(low - 12 * spec['noise'] - 1e-9 <= rest.min() and rest.max() < high + 12 * spec['noise'], 'start of {}'.format(e))
            ctx.step()
        ctx.check(len(mine) <= count, 'medoids {}'.format(mine))
        medoids |= mine
        everything.add(repr([(e['k'], e['seed'], e['cluster_index'], e['medoid_x'], e['medoid_y'], list(e['series'])) for e in got]))
        ctx.state(spec['ks'], spec['seeds'], spec['size'], spec['noise'], seed)
    if spec['size'] == 1:
        allowed = set((k, s, c) for k in ks for s in seeds for c in range(k))
        ctx.check(occurred == allowed, 'never generated: {}'.format(allowed - occurred))
        ctx.check(len(everything) > 1, 'the random seed is ignored')
        ctx.check(len(medoids) == x * y, 'never medoids: only {}'.format(medoids))
    ctx.outcome(tuple(sorted(occurred)))


def long(spec, ctx):
    n = spec['length']
    for noise in (0, 0.2):
        for e in synthetic.generate_synthetic_series((2, 70), (0, 1), 3, 30, n, 5, 9, 9, noise=noise):
            series = np.asarray(e['series'])
            ctx.check(series.shape == (n,), 'series {}'.format(series.shape))
            rest = series - (e['k'] - e['cluster_index']) * 0.01 * (1 if e['seed'] % 2 else -1) * np.arange(n)
            ctx.check(np.abs(rest - np.median(rest)).max() < 12 * noise + 1e-9 and 297 < np.median(rest) < 303, 'line of {} of length {}'.format(e, n))
            ctx.step()
        ctx.state('long', n, noise)


def wide(spec, ctx):
    '''Each row and each column of a large region may have a medoid.'''
    x, y = spec['x'], spec['y']
    xs, ys = set(), set()
    count = 12 * max(x, y)
    for seed in (0, 1):
        for e in synthetic.generate_synthetic_series((2,), (0,), count, 10 * count, 1, seed, x, y):
            ctx.check(0 <= e['medoid_x'] < x and 0 <= e['medoid_y'] < y, 'medoid {} {}'.format(e['medoid_x'], e['medoid_y']))
            xs.add(e['medoid_x'])
            ys.add(e['medoid_y'])
            ctx.step()
    ctx.check(xs == set(range(x)) and ys == set(range(y)), 'never rows {} columns {}'.format(set(range(x)) - xs, set(range(y)) - ys))
    ctx.state('wide', x, y)


def seeds(spec, ctx):
    '''All random seeds give their own entries.'''
    seen = {}
    for seed in list(range(0, 700)) + [999, 1000, 4096, 65535, 65536, 10 ** 6, 2 ** 31, 2 ** 32 - 1]:
        for which, got in (('parameters', synthetic.generate_synthetic_series((2, 3, 4), (0, 1), 4, 30, 1, seed, 90, 90, noise=0)),
                           ('noise', synthetic.generate_synthetic_series((1,), (0,), 1, 1, 6, seed, 1, 1, b_min=0, b_max=1, noise=1))):
            key = repr([(e['k'], e['seed'], e['cluster_index'], e['medoid_x'], e['medoid_y']) for e in got]) if which == 'parameters' else \
                repr([round(float(v), 9) for v in np.diff(got[0]['series'])])
            ctx.check((which, key) not in seen, '{}: random seeds {} and {} give the same'.format(which, seed, seen.get((which, key))))
            seen[(which, key)] = seed
        ctx.state('seed', seed)


def read(name):
    with open(name, newline='') as f:
        rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
    return rows[0], rows[1:]


def history(spec, ctx):
    size = (4, 6, 5, 3, 4)

    def call(step, k, folder):
        if step == 'python':
            return [random.random() for _ in range(k + 1)] and None
        if step == 'numpy':
            np.random.random(k + 2)
            return None
        seed = int(step[-1])
        if step.startswith('list'):
            return [(e['k'], e['seed'], e['cluster_index'], e['medoid_x'], e['medoid_y']) + tuple('{:0.3f}'.format(v) for v in e['series'])
                    for e in generate(2, 2, size, seed, 0.2)]
        name = 's{}.csv'.format(k)
        synthetic.generate_synthetic_csv(KS[2], SEEDS[2], 4, 6, 5, seed, 3, 4, name, region_id='here', clustering_type='kmedoids',
                                         clustering_mode='lite')
        header, rows = read(name)
        ctx.check(header == ['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y'] +
                  ['s{}'.format(i) for i in range(5)], 'header {}'.format(header))
        for r in rows:
            ctx.check((r[0], r[1], r[4]) == ('here', 'kmedoids', 'lite'), 'row {}'.format(r))
        return [(int(r[2]), int(r[3]), int(r[5]), int(r[6]), int(r[7])) + tuple(r[8:]) for r in rows]

    steps = ['list0', 'list7', 'csv0', 'csv7', 'python', 'numpy']
    for rest in itertools.product(steps, repeat=spec['n']):
        folder = ctx.fresh_dir()
        random.seed(99)
        np.random.seed(77)
        seen = {}
        for k, step in enumerate(list(spec['first']) + list(rest)):
            got = call(step, k, folder)
            ctx.step()
            if got is None:
                continue
            ctx.check(len(got) == 6, 'entries {}'.format(len(got)))
            ctx.check(seen.setdefault(step[-1], got) == got,
                      'seed {} gives other entries in {} + {}'.format(step[-1], spec['first'], rest))
            ctx.outcome(tuple(got))
        ctx.state(tuple(spec['first']), rest)
        if len(seen) == 2:
            ctx.check(seen['0'] != seen['7'], 'the seeds 0 and 7 give the same entries')


def profiles(spec, ctx):
    def sine(j, n):
        return np.sin(2 * np.pi * j / n)

    references = [
        (synthetic_temporal.sine_function, sine),
        (synthetic_temporal.square_function, lambda j, n: np.sign(sine(j, n)) if abs(sine(j, n)) > 1e-9 else np.nan),
        (synthetic_temporal.gaussian_function, lambda j, n: np.exp(-(3 * (2 * j / n - 1)) ** 2 / 2) / np.sqrt(2 * np.pi)),
        (lambda j, indices: 3.0 + j, lambda j, n: 3.0 + j),
    ]
    for length in range(*spec['lengths']):
        pad = int(min(30, 0.15 * length))
        n = length - pad
        for p, (function, reference) in enumerate(references):
            base = np.array([reference(j, n) for j in range(n)])
            options = [np.concatenate([np.zeros(d), base, np.zeros(pad - d)]) for d in range(pad + 1)]
            delays, noisy = set(), False
            for seed in range(40 if pad < 4 else 8):
                np.random.seed(seed)
                got = np.asarray(synthetic_temporal.delayed_function_with_noise(function, length))
                ctx.check(got.shape == (length,), 'length {} instead of {}'.format(got.shape, length))
                far = [np.nanmax(np.abs(got - o)) for o in options]
                best = int(np.argmin(far))
                ctx.check(far[best] < 0.25, 'profile {} of length {} is not a delayed one'.format(p, length))
                noisy = noisy or far[best] > 0
                delays.add(best)
                np.random.seed(seed)
                again = synthetic_temporal.delayed_function_with_noise(function, length)
                ctx.check(same(got, np.asarray(again)), 'profile does not repeat')
                ctx.step()
            ctx.check(noisy, 'no noise')
            ctx.check(pad < 2 or len(delays) > 1, 'always the same delay {} of length {}'.format(delays, length))
            ctx.state(length, p)
            ctx.outcome(p, tuple(sorted(delays)))


def run(spec, ctx):
    {'entries': entries, 'history': history, 'profiles': profiles, 'long': long, 'wide': wide, 'seeds': seeds}[spec['m']](spec, ctx)
