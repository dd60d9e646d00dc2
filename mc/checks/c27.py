'''
C27 prediction artefacts. For every small solver configuration and query, the text lines and the two CSV files of
the result report, for every point of the queried rectangle, its coordinates in the dataset, its cluster, its
error and its series; the summary reports the clusters, distance and error of that query. After any history of
queries stored in the same directory, each stored file still belongs to its own query.
'''
import csv
import itertools
import os
import re

import numpy as np

from spta.region import Point, Region

from mc import lib
from mc import solverworld as sw
from mc.core import same
from mc.checks.c25 import cfg_of, setup

TECHNIQUE = 'exhaustive enumeration of queries and of histories of stored results vs a reference solver'
LEVEL_NOTE = ('Solver configurations over domains of up to 3x3 points at an offset of the dataset, plain and scaled; all '
              'rectangles x 3 forecast lengths (up to 1001 at the origin); all ordered pairs (thorough triples) of queries of a menu over 9 solvers stored '
              'in one directory.')
CASE_TIMEOUT = 600

CONFIGS = [(name, scaled, cl, 1 + i % 3, ['MASE', 'sMAPE', 'MSE'][i % 3], model)
           for i, (name, scaled, cl, model) in enumerate(itertools.product(
               ('wide', 'tall', 'row'), (False, True), (('k', 1, 0), ('k', 2, 0), ('k', 3, 1), ('r', 2), ('k', 2, 3)),
               ('stub', 'failing', 'mean')))]
BASE = ('wide', True, ('k', 2, 0), 2, 'MSE', 'stub')
SOLVERS = [BASE, ('wide', False) + BASE[2:], BASE[:2] + (('k', 2, 3),) + BASE[3:], BASE[:2] + (('r', 2),) + BASE[3:],
           BASE[:3] + (1,) + BASE[4:], BASE[:4] + ('MASE',) + BASE[5:], BASE[:5] + ('stub2',), BASE[:5] + ('mean',),
           ('tall',) + BASE[1:]]
QUERIES = [((0, 1, 0, 1), 0), ((0, 1, 0, 1), 2), ((0, 1, 0, 1), 1), ((0, 2, 0, 1), 0), ((0, 1, 0, 2), 0), ((1, 2, 0, 1), 2)]


def cases(tier):
    for c in CONFIGS:
        yield {'m': 'one', 'cfg': c}
        if c[5] != 'failing' and c[0] != 'row':
            yield {'m': 'one', 'cfg': c, 'factor': 2048}
    for i in range(len(SOLVERS)):
        for q in range(len(QUERIES)):
            yield {'m': 'hist', 'i': i, 'q': q, 'len': 2 if tier == 'quick' else 3}


def numbers(text):
    return [float(t) for t in re.findall(r'nan|[-+]?\d+\.?\d*(?:e[-+]?\d+)?', text)]


def near(got, want):
    '''Written with three decimals.'''
    return len(got) == len(want) and same(got, want, rtol=1e-7, atol=5.1e-4)


def near_text(got, want):
    '''As numpy abbreviates the numbers for the terminal.'''
    return len(got) == len(want) and same(got, want, rtol=1e-3, atol=6e-4)


def ints(text):
    return [int(t) for t in re.findall(r'-?\d+', text)]


def rows(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


def reference(e, rect, flen):
    '''Per point of the rectangle: (dataset coordinates, cluster, error, forecast, test series or None).'''
    out = []
    whole, n = flen > 0, flen or e.tp
    for x in range(rect[0], rect[1]):
        for y in range(rect[2], rect[3]):
            p = (x, y)
            out.append(((x + e.r.x1, y + e.r.y1), e.labels[x * e.y + y] if e.labels else None, e.error(p), e.forecast(p, n, whole),
                        None if whole else e.test(p)))
    return out


def summary(e, rect):
    pts = [(x, y) for x in range(rect[0], rect[1]) for y in range(rect[2], rect[3])]
    met = sorted({e.labels[x * e.y + y] for x, y in pts}) if e.labels else []
    sums = []
    for c in met:
        m = e.medoids[c]
        sums.append(sum(lib.dtw(e.vis[-e.tp:, m[0], m[1]], e.vis[-e.tp:, x, y]) for x, y in pts))
    errs = [e.error(p) for p in pts]
    errs = [v for v in errs if v == v]          # points without forecast do not count
    mse = sum(v * v for v in errs) / len(errs) if errs else lib.NAN
    return len(met), (sum(v * v for v in sums) / len(sums)) ** 0.5 if sums else None, mse


def check_files(ctx, files, e, cfg, rect, flen, what):
    ctx.check(len(files) == 2, '{}: files {}'.format(what, files))
    tables = {len(rows(f)): f for f in files}
    ref = reference(e, rect, flen)
    by_header = {tuple(rows(f)[0]): f for f in files}
    results = [f for h, f in by_header.items() if 'forecast_series' in h]
    sums = [f for h, f in by_header.items() if 'forecast_series' not in h]
    ctx.check(len(results) == 1 and len(sums) == 1, '{}: headers {}'.format(what, list(by_header)))
    table = rows(results[0])
    head = table[0]
    ctx.check(('test_series' in head) == (flen == 0), what + ': columns ' + str(head))
    ctx.check(len(table) == 1 + len(ref), '{}: {} rows'.format(what, len(table)))
    for row, (pos, cluster, error, forecast, test) in zip(table[1:], ref):
        ctx.check(len(row) == len(head), '{}: row {}'.format(what, row))
        d = dict(zip(head, row))
        ctx.check(tuple(ints(d['Point'])) == pos, '{}: coordinates {} instead of {}'.format(what, d['Point'], pos))
        ctx.check(cluster is None or int(d['cluster_index']) == cluster, '{}: cluster of {}'.format(what, pos))
        ctx.check(near([float(d['error'])], [error]), '{}: error at {} is {} instead of {}'.format(what, pos, d['error'], error))
        ctx.check(near(numbers(d['forecast_series']), forecast), '{}: forecast at {} is {}'.format(what, pos, d['forecast_series']))
        if test is not None:
            ctx.check(near(numbers(d['test_series']), test), '{}: test series at {}'.format(what, pos))
    s = rows(sums[0])
    ctx.check(len(s) == 2 and len(s[0]) == len(s[1]), what + ': summary ' + str(s))
    d = dict(zip(*s))
    clusters, dist, err = summary(e, rect)
    ctx.check(int(d['tp']) == e.tp, what + ': tp of the summary')
    ctx.check(near([float(d['mse'])], [err]), '{}: mse of the summary {} instead of {}'.format(what, d['mse'], err))
    if not e.labels:
        return
    ctx.check(int(d['k']) == cfg[2][1], what + ': k of the summary')
    if cfg[2][0] == 'k':
        ctx.check(int(d['seed']) == cfg[2][2], what + ': seed of the summary')
    ctx.check(int(d['clusters']) == clusters, '{}: clusters of the summary {}'.format(what, d))
    ctx.check(abs(float(d['dtw_r_m']) - dist) < 6e-3, '{}: distance of the summary {} instead of {}'.format(what, d['dtw_r_m'], dist))


def check_lines(ctx, res, e, rect, flen, what):
    if flen > 1000:
        return      # the text for the terminal abbreviates those
    ref = reference(e, rect, flen)
    for p, (pos, cluster, error, forecast, test) in zip(lib.points(rect[1] - rect[0], rect[3] - rect[2]), ref):
        text = '\n'.join(res.lines_for_point(Point(*p)))
        m = re.search(r'Point: (.*) \(cluster (\d+)\)' if cluster is not None else r'Point: (.*)()', text)
        ctx.check(m and tuple(ints(m.group(1))) == pos and (cluster is None or int(m.group(2)) == cluster), '{}: lines of {}: {}'.format(what, pos, text))
        got = re.search(r'Forecast(?: \(future\))?:\s*\[([^]]*)\]', text)
        ctx.check(got and near_text(numbers(got.group(1)), forecast), '{}: forecast in the lines of {}: {}'.format(what, pos, text))
        ctx.check(('future' in text) == (flen > 0), what + ': kind of forecast in the lines')
        got = re.search(r'Test:\s*\[([^]]*)\]', text)
        ctx.check((got is not None) == (test is not None), what + ': test series in the lines')
        if test is not None:
            ctx.check(near_text(numbers(got.group(1)), test), '{}: test series in the lines of {}'.format(what, pos))
        got = re.search(r'Error \((\w+)\): (\S+)', text)
        ctx.check(got and got.group(1) == e.err and near([float(got.group(2))], [error]), '{}: error in the lines of {}'.format(what, pos))


def listing(top):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(top) for f in fs if f.endswith('.csv'))


def run(spec, ctx):
    if spec['m'] == 'one':
        cfg, w, solver, e = setup(spec, ctx)
        for rect in lib.rects(e.x, e.y):
            for flen in (0, 1, 4) if rect[0] or rect[2] else (0, 1, 4, 40, 1001):
                what = '{} rect {} length {}'.format(cfg, rect, flen)
                before = listing('home')
                res = solver.predict(Region(*rect), flen, output_home='home', plot=False)
                check_lines(ctx, res, e, rect, flen, what)
                res.save_as_csv()
                new = [f for f in listing('home') if f not in before]
                ctx.check(before == [f for f in listing('home') if f not in new], what + ': files vanished')
                check_files(ctx, new, e, cfg, rect, flen, what)
                check_lines(ctx, res, e, rect, flen, what + ' after storing')
                ctx.step()
                ctx.state(cfg, rect, flen)
        ctx.check(listing('out2') == [], 'files elsewhere')
    else:
        w = sw.world(ctx)
        menu = [(s, q) for s in range(len(SOLVERS)) for q in range(len(QUERIES))]
        solvers = {}
        for i, c in enumerate(SOLVERS):
            solver = w.train(c)
            e = sw.Expected(w.data, c, None, None)
            e.labels = [int(v) for v in solver.partition.membership_of_point_indices(list(range(e.x * e.y)))]
            e.medoids = [(int(p.x), int(p.y)) for p in solver.partition.medoids]
            solvers[i] = (c, solver, e)
        first = (spec['i'], spec['q'])
        if spec['len'] == 2:
            hists = [[first, b] for b in menu]
        else:
            hists = [[first, b, c] for b in menu for c in menu[::3]]
        for h in hists:
            import shutil
            shutil.rmtree(os.path.join(w.dir, 'home'), ignore_errors=True)
            results = {}
            for i, q in h:
                c, solver, e = solvers[i]
                rect, flen = QUERIES[q]
                results.setdefault((i, q), []).append(solver.predict(Region(*rect), flen, output_home='home', plot=False))
            # stored after all the queries were answered
            owner = {}
            for i, q in h:
                before = {f: open(f).read() for f in listing('home')}
                results[(i, q)][-1].save_as_csv()
                now = {f: open(f).read() for f in listing('home')}
                for f in now:
                    if f not in before:
                        owner.setdefault((i, q), []).append(f)
            for (i, q), files in owner.items():
                c, solver, e = solvers[i]
                check_files(ctx, files, e, c, QUERIES[q][0], QUERIES[q][1], 'history {}: {}'.format(h, (c, QUERIES[q])))
            ctx.check(set(owner) == set(h), 'history {}: two queries share their files'.format(h))
            ctx.step(len(h))
            ctx.state(tuple(h))
