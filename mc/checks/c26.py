'''
C26 solver storage. Every history of training and saving solvers of different configurations, restarts, loading any
of them, deleting the stored partition and crashing at any point of a save: a solver that loads answers every query
as the solver that was saved with its configuration; after complete saves it does load; an interrupted save is an
error on load or leaves the solver intact, and saving again repairs it.
'''
import glob
import itertools
import os

import numpy as np

from spta.region import Point, Region

from mc import crash, fx, lib
from mc import solverworld as sw
from mc.core import same
from mc.checks.c25 import check_query, cfg_of

TECHNIQUE = 'exhaustive enumeration of save/load/delete/crash histories on real files vs a reference solver'
LEVEL_NOTE = ('12 configurations that differ in one parameter each; all ordered selections of 2 saves (thorough 3) with '
              'and without deleting the partition; crashes at every file operation and at offsets within every file (thorough: '
              'every 16th byte) of a save, over an empty or an existing storage. A crash leaves a prefix of the writes in order.')
CASE_TIMEOUT = 900

BASE = ('wide', True, ('k', 2, 0), 2, 'MSE', 'stub')
VARIANTS = [BASE, ('wide', False) + BASE[2:], BASE[:2] + (('k', 2, 3),) + BASE[3:], BASE[:2] + (('k', 3, 0),) + BASE[3:],
            BASE[:2] + (('r', 2),) + BASE[3:], BASE[:3] + (1,) + BASE[4:], BASE[:3] + (3,) + BASE[4:],
            BASE[:4] + ('MASE',) + BASE[5:], BASE[:5] + ('stub2',), BASE[:5] + ('mean',), ('tall',) + BASE[1:],
            BASE[:3] + (3, 'sMAPE', 'mean')]


def cases(tier):
    thorough = tier != 'quick'
    for c in VARIANTS + [('tall', False, ('r', 4), 1, 'sMAPE', 'failing'), ('row', True, ('k', 3, 1), 2, 'MASE', 'failing')]:
        yield {'m': 'one', 'cfg': c}
    for h in itertools.permutations(range(len(VARIANTS)), 2):
        yield {'m': 'hist', 'h': h}
    if thorough:
        for h in itertools.permutations(range(len(VARIANTS)), 3):
            yield {'m': 'hist', 'h': h}
    for i in range(len(VARIANTS)):
        yield {'m': 'crash', 'first': None, 'then': i}
    for i, j in itertools.permutations([0, 1, 5, 7, 8, 9] if not thorough else range(len(VARIANTS)), 2):
        yield {'m': 'crash', 'first': i, 'then': j}


_known = {}


def prepared(ctx, w, cfg):
    '''(solver, expected answers) of a configuration.'''
    if cfg not in _known:
        solver = w.train(cfg)
        e = sw.Expected(w.data, cfg, None, None)
        e.labels = [int(v) for v in solver.partition.membership_of_point_indices(list(range(e.x * e.y)))]
        e.medoids = fx.pts(solver.partition.medoids)
        _known[cfg] = (solver, e)
        w.use()
    return _known[cfg]


def answers(ctx, solver, e, what):
    '''Every query is answered as expected.'''
    for rect in [(0, e.x, 0, e.y), (e.x - 1, e.x, 0, 1), (0, 1, 0, e.y)]:
        for flen in (0, 2):
            check_query(ctx, solver, e, rect, flen, what)
    ctx.check(fx.pts(solver.partition.medoids) == e.medoids, what + ': medoids')


def run(spec, ctx):
    w = sw.world(ctx)
    m = spec['m']
    if m == 'one':
        cfg = cfg_of(spec)
        _, e = prepared(ctx, w, cfg)
        solver = w.train(cfg)
        solver.save()
        answers(ctx, w.load(cfg), e, 'loaded {}'.format(cfg))
        answers(ctx, solver, e, 'after saving {}'.format(cfg))
        w.load(cfg).save()
        answers(ctx, w.load(cfg), e, 'saved again {}'.format(cfg))
        # the partition is deleted
        for f in glob.glob('pickle/**/partition*', recursive=True):
            os.remove(f)
        answers(ctx, w.load(cfg), e, 'without stored partition {}'.format(cfg))
        answers(ctx, w.load(cfg), e, 'after storing the partition again {}'.format(cfg))
        ctx.step(5)
        ctx.state(cfg)
    elif m == 'hist':
        cfgs = [VARIANTS[i] for i in spec['h']]
        for c in cfgs:
            prepared(ctx, w, c)
        for delete in (False, True):
            w.use()
            for i, c in enumerate(cfgs):
                w.train(c).save()
                if delete:
                    for f in glob.glob('pickle/**/partition*', recursive=True):
                        os.remove(f)
                for c2 in cfgs[:i + 1]:
                    answers(ctx, w.load(c2), prepared(ctx, w, c2)[1] if c2 in _known else None,
                            'solver {} after saving {}'.format(c2, cfgs[:i + 1]))
                ctx.step(2)
            ctx.state(spec['h'], delete)
    else:
        first = None if spec['first'] is None else VARIANTS[spec['first']]
        then = VARIANTS[spec['then']]
        for c in (first, then):
            if c is not None:
                prepared(ctx, w, c)
        e = _known[then][1]

        def base():
            w.use()
            if first is not None:
                w.train(first).save()
            return w.train(then)
        solver = base()
        with crash.crash_after(None) as s:
            solver.save()
        total, marks = s.events, [n for n, _ in s.marks]
        if ctx.tier == 'quick':
            points = sorted({n + d for n in marks + [total] for d in (-2, -1, 0, 1, 60)} |
                            {(a + b) // 2 for a, b in zip(marks, marks[1:] + [total])})
        else:
            points = sorted({n + d for n in marks + [total] for d in (-2, -1, 0, 1, 2)} | set(range(0, total, 16)))
        for n in points:
            if not 0 <= n < total:
                continue
            solver = base()
            what = 'crash after {} of {} events saving {} over {}'.format(n, total, then, first)
            with crash.crash_after(n) as s:
                try:
                    solver.save()
                    ctx.check(False, 'model: no crash')
                except crash.Crash:
                    pass
            for c in (first, then):
                if c is None:
                    continue
                try:
                    loaded = w.load(c)
                except Exception:
                    loaded = None
                if loaded is not None:
                    answers(ctx, loaded, _known[c][1], '{}, then loading {}'.format(what, c))
                ctx.outcome(loaded is None)
            if first is not None and first[:1] + first[2:3] != then[:1] + then[2:3]:
                # nothing in common: the other solver is intact
                answers(ctx, w.load(first), _known[first][1], what + ', the other solver')
            w.train(then).save()
            answers(ctx, w.load(then), e, what + ', then saving again')
            ctx.step(3)
            ctx.state(first, then, n)
