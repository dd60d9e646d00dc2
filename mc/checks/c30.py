'''
C30 sliding windows. Every series length, window length and stride of a box: the windows are exactly the consecutive
slices, in order, and own their values. Labelled series: every sequence of labels (repeated ones too), series length
and window length: every window of every row once, with the label of its row and its offset, rows in order.
'''
import itertools

import numpy as np
import pandas as pd

from spta.classifier.sliding_window import apply_sliding_window_to_labeled_series
from spta.util import arrays as arrays_util

from mc.core import ident

TECHNIQUE = 'exhaustive enumeration of series, windows, strides and label sequences against slices'
LEVEL_NOTE = ('Series of length 0-9 (thorough 14) and up to 1000, windows 1-10, all strides, 11 kinds of arrays (strided, reversed and read-only ones too); tables of 1-4 rows with all label '
              'sequences over 3 labels, 1-6 (thorough 8) samples, all window lengths, 3 table layouts.')
CASE_TIMEOUT = 300


def cases(tier):
    thorough = tier != 'quick'
    for n in range(0, 15 if thorough else 10):
        yield {'m': 'array', 'n': n}
    for n in (40, 365, 1000):
        yield {'m': 'long', 'n': n}
    for rows in (1, 2, 3, 4):
        for labels in itertools.product('ab7', repeat=rows):
            for n in range(1, 9 if thorough else 7):
                yield {'m': 'table', 'labels': ''.join(labels), 'n': n}


def run_long(n, ctx):
    a = np.arange(n) * 37 % 101 - 0.5 * np.arange(n)
    for w in (1, 2, 7, 30, 39, 40, 128, 365, 999, 1000):
        for stride in sorted({1, 2, 3, 7, w - 1, w, w + 1, w + 5, 2 * w, n // 2, n - 1, n, n + 1} - {0}):
            got = arrays_util.sliding_window(a, w, stride)
            starts = range(0, n - w + 1, stride)
            what = 'series of {} window {} stride {}'.format(n, w, stride)
            ctx.check(len(got) == len(starts), '{}: {} windows instead of {}'.format(what, len(got), len(starts)))
            ctx.check(all(ident(np.array(g), a[i:i + w]) for g, i in zip(got, starts)), what + ': other windows')
            ctx.step()
            ctx.state('long', n, w, stride)
    df = pd.DataFrame([['a'] + list(a), ['b'] + list(a[::-1])], columns=['label'] + ['s{}'.format(i) for i in range(n)])
    for w in (1, 30, 365, n - 1, n):
        if w > n:
            continue
        got = apply_sliding_window_to_labeled_series(df, w)
        want = [(l, o, s) for l, s in (('a', a), ('b', a[::-1])) for o in range(n - w + 1)]
        ctx.check(len(got) == len(want), 'table of {} samples, window {}: {} rows instead of {}'.format(n, w, len(got), len(want)))
        ctx.check([(l, int(o)) for l, o in zip(got['label'], got['offset'])] == [(l, o) for l, o, _ in want], 'labels and offsets of {} {}'.format(n, w))
        ctx.check(all(ident(np.array(g, dtype=float), s[o:o + w]) for g, (_, o, s) in zip(got['window'], want)), 'windows of {} {}'.format(n, w))
        ctx.state('long table', n, w)


def run(spec, ctx):
    n = spec['n']
    if spec['m'] == 'long':
        return run_long(n, ctx)
    if spec['m'] == 'array':
        base = [(i * 7) % 5 - 0.5 * i for i in range(n)]
        fl = np.array(base, dtype=float)
        locked = fl.copy()
        locked.setflags(write=False)
        for kind in ('list', 'float', 'int', 'nan', 'column', 'reversed', 'every other', 'region', 'locked', 'tuple', 'float32'):
            a = {'list': base, 'float': np.array(base, dtype=float), 'int': np.arange(n) * 3 % 4,
                 'nan': np.array([np.nan if i % 3 == 1 else v for i, v in enumerate(base)]),
                 'column': np.stack([fl + 50, fl, fl - 50], axis=1)[:, 1], 'reversed': fl[::-1].copy()[::-1], 'every other': np.repeat(fl, 2)[::2] if n else fl,
                 'region': np.arange(n * 6).reshape(n, 2, 3)[:, 1, 2], 'locked': locked, 'tuple': tuple(base), 'float32': fl.astype('float32')}[kind]
            copy = np.array(a)
            for w in range(1, 11):
                for stride in range(1, n + 3):
                    got = arrays_util.sliding_window(a, w, stride)
                    want = [list(copy[i:i + w]) for i in range(0, n - w + 1, stride)]
                    what = 'array {} window {} stride {}'.format(list(a), w, stride)
                    ctx.check(len(got) == len(want), '{}: {} windows instead of {}'.format(what, len(got), len(want)))
                    if want:
                        ctx.check(ident(got, np.array(want)), '{}: {}'.format(what, got))
                        if stride == 1:
                            ctx.check(ident(arrays_util.sliding_window(a, w), got), what + ': default stride')
                        got[...] = -99       # the windows are not views of the series
                    ctx.check(ident(np.array(a), copy), what + ': series modified')
                    ctx.step()
                    ctx.state(n, kind, w, stride)
        return
    labels = spec['labels']
    rows = len(labels)
    data = np.array([[(r * 13 + i * 7 + (i % 3) * r) % 17 - 4 + 0.25 * r for i in range(n)] for r in range(rows)])
    names = ['l-' + c if c != '7' else 7 for c in labels]
    for layout in ('plain', 'index', 'last'):
        df = pd.DataFrame({'label': names})
        for i in range(n):
            df['s{}'.format(i)] = data[:, i]
        if layout == 'index':
            df.index = [5 - r % 2 for r in range(rows)]     # an index with repetitions
        if layout == 'last':
            df = df[['s{}'.format(i) for i in range(n)] + ['label']]
        copy = df.copy(deep=True)
        for w in range(1, n + 1):
            got = apply_sliding_window_to_labeled_series(df, w)
            what = 'labels {} length {} window {} {}'.format(labels, n, w, layout)
            ctx.check(list(got.columns) == ['label', 'window', 'offset'], what + ': columns')
            want = [(names[r], list(data[r, o:o + w]), o) for r in range(rows) for o in range(n - w + 1)]
            ctx.check(len(got) == len(want) and list(got.index) == list(range(len(want))), '{}: {} rows instead of {}'.format(what, len(got), len(want)))
            have = [(l, [float(v) for v in win], int(o)) for l, win, o in zip(got['label'], got['window'], got['offset'])]
            ctx.check(have == want, '{}: {} instead of {}'.format(what, have, want))
            ctx.check(df.equals(copy), what + ': table modified')
            ctx.step()
            ctx.state(labels, n, w, layout)
            ctx.outcome(rows, n, w)
