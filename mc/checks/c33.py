'''
C33 calendar. Every (first year, start year, end year) in a century around leap-year exceptions and
every sampling rate: the sample interval of whole years is contiguous, starts/ends exactly at year
boundaries (leap years included), and averaging four samples per day gives the mean of each day.
'''
import itertools

import numpy as np

from spta.dataset import temp_brazil
from spta.util import maths as maths_util

from mc import lib
from mc.core import Violation, same, raises

TECHNIQUE = 'exhaustive enumeration of year triples and day/point shapes vs calendar arithmetic'
LEVEL_NOTE = 'All year triples in 1895..1910, 1975..2030 and 2095..2105 with six sampling rates.'


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def days(y):
    return 366 if leap(y) else 365


def cases(tier):
    for first in list(range(1895, 1911)) + list(range(1975, 2031)) + list(range(2095, 2106)):
        yield {'m': 'years', 'first': first}
    for d in range(1, 8):
        for x, y in lib.shapes(4, 4):
            yield {'m': 'avg', 'd': d, 'x': x, 'y': y}
    yield {'m': 'avg', 'd': 365, 'x': 5, 'y': 3}
    yield {'m': 'avg', 'd': 366, 'x': 2, 'y': 7}


def run(spec, ctx):
    if spec['m'] == 'years':
        first = spec['first']
        for ys in range(first, first + 45):
            for ye in range(ys, ys + 42):
                for spd in (1, 4) if ye > ys + 4 else (1, 2, 3, 4, 8, 24):
                    got = maths_util.years_to_series_interval(ys, ye, first, spd)
                    a = sum(days(y) for y in range(first, ys)) * spd if ys - first < 60 else None
                    want = (cum(first, ys) * spd, cum(first, ye + 1) * spd)
                    if tuple(got) != want:
                        raise Violation('years {}-{} of a sample starting {} at {}/day: {} expected {}'.format(
                            ys, ye, first, spd, got, want))
                    ctx.step()
            ctx.state(first, ys)
        ctx.outcome(first)
        return
    d, x, y = spec['d'], spec['x'], spec['y']
    for kind in ('plain', 'neg', 'int', 'nan', 'f32'):
        a = lib.distinct3d(4 * d, x, y, kind if kind != 'f32' else 'plain')
        if kind == 'f32':
            a = a.astype(np.float32)
        before = a.copy()
        got = temp_brazil.average_4spd_to_1spd(a)
        want = np.zeros((d, x, y))
        for k in range(d):
            want[k] = (a[4 * k].astype(float) + a[4 * k + 1] + a[4 * k + 2] + a[4 * k + 3]) / 4.0
        ctx.check(got.shape == want.shape and same(got, want, rtol=1e-5 if kind == 'f32' else 1e-9),
                  'daily means wrong for {} days {}x{} {}'.format(d, x, y, kind))
        ctx.check(same(a, before), 'averaging altered its input')
        ctx.step()
        ctx.state(d, x, y, kind)
    ctx.outcome(d, x, y)


_cum = {}


def cum(a, b):
    '''days from Jan 1st of year a to Jan 1st of year b'''
    if (a, b) not in _cum:
        _cum[(a, b)] = 0 if a == b else cum(a, b - 1) + days(b - 1)
    return _cum[(a, b)]
