'''
C07 coordinates. Every rectangle of a small dataset (and rectangles at large offsets): the region
built from its metadata is exactly that slice of the dataset, scaled or not; index -> point ->
absolute point conversions are the row-major bijection onto the rectangle; saved / pickled
artefacts reload to the same data.
'''
import itertools
import os

import numpy as np

from spta.region import Point, Region, TimeInterval
from spta.region.base import BaseRegion
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.kmedoids import medoids_to_absolute_coordinates

from mc import fx, lib
from mc.core import Violation, same, ident, raises
from mc.checks.c02 import scaled_arr

TECHNIQUE = 'exhaustive enumeration of rectangles/points vs direct slicing and row-major arithmetic'
LEVEL_NOTE = ('Every rectangle of a 4x3 dataset (thorough 6x5) for several lengths, years and samples '
              'per day; conversions for every point of every rectangle and for rectangles at offsets '
              'up to 100 with sides up to 12; all histories of 3 (thorough 4) regions saved over one another.')


def cases(tier):
    X, Y = (4, 3) if tier == 'quick' else (6, 5)
    for r in lib.rects(X, Y):
        for scaled in (False, True):
            yield {'m': 'slice', 'r': list(r), 'scaled': scaled, 'X': X, 'Y': Y}
    for x1 in (0, 1, 55, 100):
        for y1 in (0, 2, 50, 90):
            for xl in (1, 2, 7, 12):
                yield {'m': 'conv', 'o': [x1, y1], 'xl': xl, 'yls': [1, 2, 3, 5, 11]}
    for yl in range(1, 220, 10):        # every number of columns
        yield {'m': 'conv', 'o': [3, 2], 'xl': 9, 'yls': list(range(yl, yl + 10))}
    for scaled in (False, True):
        for first in range(3):
            yield {'m': 'again', 'scaled': scaled, 'first': first, 'len': 3 if tier == 'quick' else 4}


def again(spec, ctx):
    '''Regions saved over earlier ones: what is stored is always the last one.'''
    scaled = spec['scaled']
    base = lib.distinct3d(3, 2, 3, 'neg')
    datas = [base, base[:, ::-1, ::-1] * 2.0, base + 1.0]
    datas[2][1, 0, 1] += 100.0
    for seq in itertools.product(range(3), repeat=spec['len'] - 1):
        for how in ('save', 'save_to', 'pickle', 'mixed'):
            ctx.fresh_dir()
            fx.write_raw(base)
            seq_ = (spec['first'],) + seq
            for pos, i in enumerate(seq_):
                fx.write_raw(datas[i])
                md = SpatioTemporalRegionMetadata('reg', Region(0, 2, 0, 3), 2015, 2015, 1, scaled=scaled)
                st = md.create_instance()
                want, mn, mx = scaled_arr(datas[i]) if scaled else (datas[i], None, None)
                what = 'saved {} by {}'.format(seq_[:pos + 1], how)
                if how in ('save', 'mixed'):
                    st.save()
                    ctx.check(same(np.load(md.dataset_filename), want), what + ': dataset differs')
                    if scaled:
                        ctx.check(same(np.load(md.scaled_min_filename), mn) and same(np.load(md.scaled_max_filename), mx),
                                  what + ': scaling data differ')
                if how == 'save_to':
                    st.save_to('some.npy')
                    ctx.check(same(np.load('some.npy'), want), what + ': file differs')
                if how in ('pickle', 'mixed'):
                    st.pickle()
                    b = BaseRegion.from_pickle(md.pickle_filename('pickle'))
                    ctx.check(same(b.as_numpy, want), what + ': pickled region differs')
                    if scaled:
                        ctx.check(same(b.descale().as_numpy, datas[i]), what + ': pickled scaled region differs')
                ctx.step()
            ctx.state('again', scaled, how, seq_)


def conv(md, region, ctx):
    x1, x2, y1, y2 = region
    xl, yl = x2 - x1, y2 - y1
    ctx.check(md.x_len == xl and md.y_len == yl, 'side lengths of {}'.format(region))
    seen = set()
    for i in range(xl * yl):
        p = md.index_to_absolute_point(i)
        want = (x1 + i // yl, y1 + i % yl)
        ctx.check((p.x, p.y) == want, 'index {} of region {} maps to {} expected {}'.format(
            i, region, p, want))
        seen.add((p.x, p.y))
        q = md.absolute_position_of_point(Point(i // yl, i % yl))
        ctx.check((q.x, q.y) == want, 'point {} of region {} maps to {}'.format(
            (i // yl, i % yl), region, q))
        p = md.index_to_absolute_point(np.int64(i))
        ctx.check((int(p.x), int(p.y)) == want, 'numpy index {}'.format(i))
    ctx.check(len(seen) == xl * yl, 'conversion is not one-to-one')
    for sub in ((0, xl, 0, yl), (0, 1, 0, 1), (xl // 2, xl, yl // 2, yl), (0, xl, yl - 1, yl)):
        a = md.absolute_coordinates_of_region(Region(*sub))
        ctx.check(tuple(a) == (x1 + sub[0], x1 + sub[1], y1 + sub[2], y1 + sub[3]),
                  'rectangle {} of region {} maps to {}'.format(sub, region, a))
    ctx.step(xl * yl)


def run(spec, ctx):
    if spec['m'] == 'again':
        return again(spec, ctx)
    ctx.fresh_dir()
    if spec['m'] == 'conv':
        x1, y1 = spec['o']
        for yl in spec['yls']:
            r = (x1, x1 + spec['xl'], y1, y1 + yl)
            md = SpatioTemporalRegionMetadata('reg', Region(*r), 2014, 2015, 4)
            conv(md, r, ctx)
            ctx.state(r)
        return
    X, Y = spec['X'], spec['Y']
    r = tuple(spec['r'])
    scaled = spec['scaled']
    for spd, (ys, ye), n in ((1, (2015, 2015), 3), (4, (2014, 2015), 4), (1, (2014, 2015), 5)):
        data = lib.distinct3d(n, X, Y, 'neg') + spd
        fx.write_raw(data, ys=ys, ye=ye, spd=spd)
    for spd, (ys, ye), n in ((1, (2015, 2015), 3), (4, (2014, 2015), 4), (1, (2014, 2015), 5)):
        data = lib.distinct3d(n, X, Y, 'neg') + spd
        md = SpatioTemporalRegionMetadata('reg{}'.format(spd), Region(*r), ys, ye, spd, scaled=scaled)
        st = md.create_instance()
        raw = data[:, r[0]:r[1], r[2]:r[3]]
        want = raw
        if scaled:
            want, mn, mx = scaled_arr(raw)
        ctx.check(tuple(st.shape) == want.shape and same(st.as_numpy, want),
                  'region {} scaled={} is not that slice of the dataset'.format(r, scaled))
        ctx.check(st.region_metadata is md, 'region does not carry its metadata')
        for p in lib.points(r[1] - r[0], r[3] - r[2]):
            a = md.absolute_position_of_point(Point(*p))
            src = data[:, a.x, a.y]
            if not scaled:
                ctx.check(same(st.series_at(Point(*p)), src), 'series at {} is not dataset series at {}'.format(p, a))
            else:
                ctx.check(same(st.descale().series_at(Point(*p)), src), 'descaled series at {}'.format(p))
        idx = [i for i in range(st.x_len * st.y_len)][::2]
        txt = medoids_to_absolute_coordinates(st, idx)
        want_txt = ''.join('({},{}) '.format(r[0] + i // st.y_len, r[2] + i % st.y_len) for i in idx)
        ctx.check(txt == want_txt, 'absolute coordinates text {!r}'.format(txt))
        conv(md, r, ctx)
        # persisted forms
        st.save()
        back = np.load(md.dataset_filename)
        ctx.check(same(back, want), 'saved dataset differs')
        if scaled:
            ctx.check(same(np.load(md.scaled_min_filename), mn) and
                      same(np.load(md.scaled_max_filename), mx), 'saved scaling data differs')
        st.pickle()
        st.pickle('deep/home')
        for home in ('pickle', 'deep/home'):
            b = BaseRegion.from_pickle(md.pickle_filename(home))
            ctx.check(same(b.as_numpy, want) and repr(b.region_metadata) == repr(md) and
                      b.has_scaling() == scaled, 'pickled region differs')
            if scaled:
                ctx.check(same(b.descale().as_numpy, raw), 'pickled scaled region descales wrong')
        # the dataset files are still intact
        ctx.check(same(np.load('raw/SouthAmerica_{}_{}_{}spd.npy'.format(ys, ye, spd)), data),
                  'dataset file altered')
        ctx.step()
        ctx.state(r, scaled, spd, ys)
        ctx.outcome(r, scaled, spd, ys)
    nomd = st.region_subset(Region(0, 1, 0, 1))
    if nomd.region_metadata is None:
        ctx.check(raises(nomd.save, ValueError) and raises(nomd.pickle, ValueError),
                  'region without metadata saved')
