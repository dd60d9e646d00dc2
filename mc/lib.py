'''Shared alphabets and reference models (plain numpy / python, no code from the repository).'''
import itertools
import math

import numpy as np

NAN = float('nan')


# ------------------------------------------------------------------ enumerations

def shapes(max_x, max_y):
    out = [(x, y) for x in range(1, max_x + 1) for y in range(1, max_y + 1)]
    return sorted(out, key=lambda s: (s[0] * s[1], s))


def rects(x_len, y_len):
    '''All non-empty sub-rectangles (x1, x2, y1, y2).'''
    return [(x1, x2, y1, y2)
            for x1 in range(x_len) for x2 in range(x1 + 1, x_len + 1)
            for y1 in range(y_len) for y2 in range(y1 + 1, y_len + 1)]


def intervals(n):
    return [(t1, t2) for t1 in range(n) for t2 in range(t1 + 1, n + 1)]


def surjections(n, k):
    '''All label arrays of length n using every label in [0, k-1].'''
    for lab in itertools.product(range(k), repeat=n):
        if len(set(lab)) == k:
            yield lab


def rgs(n, k):
    '''Restricted growth strings: set partitions of n points into exactly k blocks.'''
    def rec(pre, m):
        if len(pre) == n:
            if m == k:
                yield tuple(pre)
            return
        for v in range(min(m + 1, k)):
            if k - max(m, v + 1) <= n - len(pre) - 1:
                yield from rec(pre + [v], max(m, v + 1))
    yield from rec([], 0)


def points(x_len, y_len):
    return [(x, y) for x in range(x_len) for y in range(y_len)]


# ------------------------------------------------------------------ data

def distinct2d(x_len, y_len):
    '''Pairwise different values, neither sorted nor symmetric.'''
    n = x_len * y_len
    a = [((i * 37 + 11) % 101) - 50 + 0.25 * i for i in range(n)]
    assert len(set(a)) == n or n > 400
    return np.array(a, dtype=np.float64).reshape(x_len, y_len)


def distinct3d(t, x_len, y_len, kind='plain'):
    '''Pairwise different series. kind: plain | nan | const | neg | int'''
    a = np.zeros((t, x_len, y_len))
    for s in range(t):
        for x in range(x_len):
            for y in range(y_len):
                i = x * y_len + y
                a[s, x, y] = ((s * 29 + i * 17 + 5) % 53) * 0.5 + 0.01 * i + 1.0
    if kind == 'neg':
        a = a - 15.0
    elif kind == 'const':
        a[:, 0, 0] = 7.5
        a[:, x_len - 1, y_len - 1] = -3.25
    elif kind == 'nan':
        a[t // 2, x_len - 1, 0] = np.nan
        a[:, 0, y_len - 1] = np.nan
    elif kind == 'int':
        a = np.floor(a).astype(np.int64) + np.arange(x_len * y_len).reshape(x_len, y_len) * 60
    return a


# ------------------------------------------------------------------ reference functions

def dtw(a, b):
    '''Textbook DTW with squared point cost and square root of the optimal path cost.'''
    n, m = len(a), len(b)
    D = np.full((n + 1, m + 1), np.inf)
    D[0, 0] = 0.0
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            c = (float(a[i - 1]) - float(b[j - 1])) ** 2
            D[i, j] = c + min(D[i - 1, j], D[i, j - 1], D[i - 1, j - 1])
    return math.sqrt(D[n, m])


def dtw_matrix(series):
    n = len(series)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                m[i, j] = dtw(series[i], series[j])
    return m


def series_of(a):
    '''3d array -> list of series in row-major point order.'''
    t, x, y = a.shape
    return [a[:, i, j] for i in range(x) for j in range(y)]
