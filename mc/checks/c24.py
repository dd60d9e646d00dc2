'''
C24 parallel forecast errors. Every schedule of the pool workers, up to a bound on preemptions at line
granularity, of the overall errors of using each forecast for the whole region gives the errors of the serial
computation: any number of workers and assignment of points to workers, all error types, plain, scaled and
clustered regions, missing forecasts, several analyses in one process.
'''
from mc import pool

import numpy as np

from spta.model.error import ErrorAnalysis
from spta.region import TimeInterval
from spta.region.temporal import SpatioTemporalRegion

from mc import fx, lib
from mc.core import ident, same
from mc.checks import c23

TECHNIQUE = ('stateless exploration of all worker schedules (controlled pool of forked workers, preemption bounded, '
             'at line granularity) vs the error definitions and the serial computation')
LEVEL_NOTE = ('1-3 workers; regions of 2-4 points with chunks of 1-2 points and of up to 21 points with the chunks '
              'of the code; all chunk-to-worker assignments, all switches at lines of the worker code and at locks '
              'with at most 1 (thorough: 2 on up to 4 points) preemptions; real multiprocessing pools on every partition of small regions.')
CASE_TIMEOUT = 600
TYPES = ['MASE', 'sMAPE', 'MSE']

# x, y, labels, cluster, scaled, points without forecast, workers, chunk (None: the one of the code)
CONFIGS = [(1, 2, None, None, False, [], 2, 1), (1, 2, None, None, True, [], 2, 1), (2, 1, None, None, False, [1], 2, 1),
           (2, 2, None, None, False, [2], 2, 2), (2, 2, [0, 1, 1, 0], 1, False, [], 2, 1),
           (2, 2, [1, 0, 1, 1], 1, True, [3], 2, 2), (1, 3, None, None, False, [], 3, 1),
           (3, 1, [0, 1, 0], 0, False, [], 3, 1), (3, 4, None, None, False, [0, 11], 2, None),
           (3, 7, None, None, True, [5], 2, None), (4, 4, [i % 4 == 3 and 1 or 0 for i in range(16)], 0, False, [9], 3, None)]


def cases(tier):
    thorough = tier != 'quick'
    for x, y in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]:
        yield {'m': 'real', 'x': x, 'y': y}
        for f in (2.0 ** 20, 2.0 ** -20):
            yield {'m': 'real', 'x': x, 'y': y, 'factor': f}
    for i in range(len(CONFIGS)):
        yield {'m': 'pool', 'config': i}
    for i, (x, y, lab, c, scaled, gone, workers, chunk) in enumerate(CONFIGS):
        n = x * y if lab is None else list(lab).count(c)
        shards = 24 if thorough else 4
        bound = 2 if thorough and n <= 6 else 1
        for s in range(shards):
            yield {'m': 'sched', 'config': i, 'bound': bound, 'type': TYPES[i % 3], 'shard': s, 'shards': shards}
    for s in range(4):
        yield {'m': 'chain', 'bound': 2 if thorough else 1, 'shard': s, 'shards': 4}


class Setup:
    def __init__(self, x, y, lab=None, c=None, scaled=False, gone=(), k=0, factor=1):
        self.x, self.y = x, y
        pts = lib.points(x, y)
        self.mem = pts if lab is None else fx.member_points(lab, x, y, c)
        self.gone = [pts[i] for i in gone]
        self.a = (lib.distinct3d(8, x, y) + 2 + k) * factor
        base = SpatioTemporalRegion(self.a.copy())
        if scaled:
            base = fx.scale(base)
        vis = base.as_numpy.copy()
        fc = vis[3:6][::-1] * 0.75 + 0.125
        for p in self.gone:
            fc[:, p[0], p[1]] = np.nan
        self.scaled, self.fc = scaled, fc
        part = None if lab is None else fx.partition(lab, x, y)

        def wrap(r):
            return r if part is None else part.create_spt_cluster(r, c)
        self.train = wrap(base.interval_subset(fx_interval(0, 5)))
        self.obs = wrap(base.interval_subset(fx_interval(5, 8)))
        self.forecast = wrap(base.interval_subset(fx_interval(0, 3)).new_spatio_temporal_region(fc.copy()))
        self.lo = {p: self.a[:, p[0], p[1]].min() for p in pts}
        self.hi = {p: self.a[:, p[0], p[1]].max() for p in pts}

    def expected(self, t):
        def real(q, p):
            f = self.fc[:, q[0], q[1]]
            return f * (self.hi[p] - self.lo[p]) + self.lo[p] if self.scaled else f

        def err(q, p):
            return c23.metric(t, real(q, p), self.a[5:, p[0], p[1]], self.a[:5, p[0], p[1]])
        return {q: lib.NAN if q in self.gone else c23.rms([err(q, p) for p in self.mem]) for q in self.mem}


def fx_interval(a, b):
    return TimeInterval(a, b)


def compare(ctx, got, want, what):
    ctx.check(fx.pts(p for p, _ in got) == sorted(want), what + ': points of the result')
    for p, v in got:
        w = want[(p.x, p.y)]
        ctx.check(same(v, w, rtol=1e-7), '{}: error at {} is {} instead of {}'.format(what, p, v, w))
        ctx.check(same(got.value_at(p), w, rtol=1e-7), what + ': value_at')
    if not all(np.isnan(v) for v in want.values()):
        best = min(v for v in want.values() if v == v)
        ctx.check(same(got.find_minimum()[1], best, rtol=1e-7), what + ': minimum')


def explored(ctx, spec, run, **kwargs):
    def one(s):
        run()
        ctx.step(s.points)
        ctx.state(spec['m'], spec.get('config'), tuple(s.trace))
    return pool.explore(one, spec['bound'], spec['shard'], spec['shards'], **kwargs)


def run(spec, ctx):
    ctx.fresh_dir()
    m = spec['m']
    if m == 'real':
        n = spec['x'] * spec['y']
        for lab in [None] + list(lib.rgs(n, 2) if n > 1 else []):
            for c in ([None] if lab is None else [0, 1]):
                for scaled in (False, True):
                    s = Setup(spec['x'], spec['y'], lab, c, scaled, [] if n == 1 else [n - 1], factor=spec.get('factor', 1))
                    t = 'MSE' if 'factor' in spec else TYPES[(n + scaled) % 3]
                    want = s.expected(t)
                    what = '{} {} {} {}'.format(spec, lab, c, scaled)
                    compare(ctx, ErrorAnalysis(s.obs, s.train, 2).overall_with_each_forecast(s.forecast, t), want, what)
                    compare(ctx, ErrorAnalysis(s.obs, s.train).overall_with_each_forecast(s.forecast, t), want, what)
                    ctx.step(2)
                    ctx.state('real', spec['x'], spec['y'], lab, c, scaled)
    elif m == 'pool':
        x, y, lab, c, scaled, gone, workers, _ = CONFIGS[spec['config']]
        s = Setup(x, y, lab, c, scaled, gone)
        for t in TYPES:
            for w in (1, 2, 3):
                compare(ctx, ErrorAnalysis(s.obs, s.train, w).overall_with_each_forecast(s.forecast, t),
                        s.expected(t), str(spec))
                ctx.step()
        ctx.state('pool', spec['config'])
    elif m == 'sched':
        x, y, lab, c, scaled, gone, workers, chunk = CONFIGS[spec['config']]
        s = Setup(x, y, lab, c, scaled, gone)
        want = s.expected(spec['type'])
        before = [s.obs.as_numpy.copy(), s.train.as_numpy.copy(), s.forecast.as_numpy.copy()]

        def once():
            ea = ErrorAnalysis(s.obs, s.train, workers)
            compare(ctx, ea.overall_with_each_forecast(s.forecast, spec['type']), want, str(spec))
        n = explored(ctx, spec, once, chunk=chunk)
        ctx.outcome(spec['config'], spec['shard'], n)
        ctx.check(all(ident(a, b.as_numpy) for a, b in zip(before, [s.obs, s.train, s.forecast])), 'a region was changed')
    else:
        # analyses in a row in one process, of other regions, types and kinds of results
        sa, sb = Setup(1, 2), Setup(2, 1, [0, 1], 1, True, k=4)


        def once():
            a = ErrorAnalysis(sa.obs, sa.train, 2)
            b = ErrorAnalysis(sb.obs, sb.train, 2)
            compare(ctx, b.overall_with_each_forecast(sb.forecast, 'MSE'), sb.expected('MSE'), 'first')
            ra = a.overall_with_each_forecast(sa.forecast, 'MASE')
            rb = a.overall_with_each_forecast(sa.forecast, 'sMAPE')
            compare(ctx, ra, sa.expected('MASE'), 'second')
            compare(ctx, rb, sa.expected('sMAPE'), 'third')
        explored(ctx, spec, once, chunk=1)
