'''Runs the command line programs in this process over a tiny dataset.'''
import contextlib
import importlib
import io
import logging
import sys

import matplotlib.pyplot as plt
import numpy as np

from mc import fakearima, figs, fx, lib
from mc import solverworld as sw
from mc.checks import c22, c23

T = 26


def dataset():
    a = np.zeros((T, 12, 13))
    s = np.arange(T)
    for x, y in lib.points(12, 13):
        i = x * 6 + y
        level = 30 * ((x * 2 + y * 3) % 5 >= 2)
        form = (s % 5) * 1.0 if (x + y * y) % 3 == 1 else 5.0 * (s > 11 + y)
        a[:, x, y] = 20 + level + form * (1 + 0.125 * x) + 0.25 * y + 0.7 * np.sin(s * s * 0.37 + i * 1.3 + 0.1 * s)
    return a


def regions(w):
    out = {}
    for name in ('wide', 'tall', 'row', 'one', 'long', 'high'):
        for scaled in (False, True):
            out[name + ('_scaled' if scaled else '')] = w.region(name, scaled)
    return out


def make_world(ctx):
    if 'p' not in sw._worlds:
        sw._worlds['p'] = sw.World(ctx, dataset())
    return sw._worlds['p'].use()


@contextlib.contextmanager
def patched(module, **names):
    old = []
    for n, v in names.items():
        # a program may also refer to a name through the module that defines it
        where = [module] if hasattr(module, n) else [
            m for name, m in list(sys.modules.items()) if name.startswith(('experiments.metadata.', 'spta.')) and hasattr(m, n)]
        if not where:
            raise AttributeError('{} does not use {}'.format(module.__name__, n))
        for m in where:
            old.append((m, n, getattr(m, n)))
            setattr(m, n, v)
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


class Failed(Exception):
    pass


def program(w, name, args, **names):
    '''Runs one program, answers what it prints. A refused or failed request raises.'''
    mod = importlib.import_module(name)
    entry = mod.processRequest if hasattr(mod, 'processRequest') else mod.call_parser
    out, err = io.StringIO(), io.StringIO()
    if hasattr(mod, 'predefined_regions') or 'experiments.metadata.region' in sys.modules:
        names.setdefault('predefined_regions', lambda: regions(w))
    options = np.get_printoptions()
    root = logging.getLogger()
    level, handlers = root.level, list(root.handlers)
    argv = sys.argv
    savefig = plt.savefig
    if not figs.active:
        plt.savefig = lambda name, *a, **k: open(name, 'wb').close()
    sys.argv = [name] + [str(a) for a in args]
    try:
        with patched(mod, **names), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), fakearima.installed():
            entry()
    except SystemExit as e:
        raise Failed('exit {}: {}'.format(e.code, err.getvalue()[-200:]))
    except Exception as e:
        raise Failed('{}: {}'.format(type(e).__name__, e))
    finally:
        sys.argv = argv
        plt.savefig = savefig
        if not figs.active:
            plt.close('all')
        np.set_printoptions(**options)
        root.setLevel(level)
        root.handlers[:] = handlers
    return out.getvalue()


class Reference:
    '''What a solver must answer, from the dataset. labels None: the model of each point is its own.'''

    def __init__(self, data, region, tp, err, model, labels=None, medoids=None, within=None):
        self.scaled = region.endswith('_scaled')
        r = sw.REGIONS[region.replace('_scaled', '')]
        self.r, self.tp, self.err, self.model = r, tp, err, model
        self.x, self.y = r.x2 - r.x1, r.y2 - r.y1
        self.real = data[:, r.x1:r.x2, r.y1:r.y2].astype(float)
        self.labels, self.medoids = labels, medoids
        self.lo, self.hi = self.real.min(axis=0), self.real.max(axis=0)
        self.vis = (self.real - self.lo) / (self.hi - self.lo) if self.scaled else self.real

    def medoid(self, p):
        return self.medoids[self.labels[p[0] * self.y + p[1]]] if self.labels else p

    def raw_forecast(self, m, n, whole):
        series = self.vis[:, m[0], m[1]]
        train = series[:len(series) - self.tp]
        used = series if whole else train
        if self.model[0] == 'mean':
            return np.repeat(np.mean(used[-self.model[1]:]), n)
        if self.model[0] == 'knn':
            options = c22.knn_options([float(v) for v in used], self.model[1], n, 'dtw')
            assert len(options) == 1, 'model: ambiguous neighbours'
            return options[0]
        order = fakearima.auto_order(train) if self.model[0] == 'arima' else self.model[1]
        return fakearima.forecast(order, used, n)

    def descale(self, p, f):
        return f * (self.hi[p] - self.lo[p]) + self.lo[p] if self.scaled else f

    def forecast(self, p, n, whole):
        return self.descale(p, self.raw_forecast(self.medoid(p), n, whole))

    def test(self, p):
        return self.real[-self.tp:, p[0], p[1]]

    def error_of(self, p, raw):
        '''Error at p of a forecast in the values seen by the models.'''
        return c23.metric(self.err, self.descale(p, raw), self.test(p), self.real[:-self.tp, p[0], p[1]])

    def error(self, p):
        return self.error_of(p, self.raw_forecast(self.medoid(p), self.tp, False))
