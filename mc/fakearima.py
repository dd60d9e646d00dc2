'''Stand-ins for the ARIMA libraries: cheap deterministic models, so that all the code around them can be explored.'''
import contextlib
import sys

import numpy as np
import pmdarima
import statsmodels.tsa.arima.model
from pmdarima.arima import auto_arima
from statsmodels.tsa.arima.model import ARIMA


class FakeFit:
    def __init__(self, model):
        self.model = model
        self.aic = 10.0 * sum(model.order) + float(np.mean(model.endog)) + 0.01 * len(model.endog)

    def forecast(self, n=1):
        return forecast(self.model.order, self.model.endog, n)


class FakeArima:
    def __init__(self, endog, order=(0, 0, 0), **kwargs):
        self.endog, self.order = np.array(endog, dtype=float).ravel(), tuple(int(v) for v in order)

    def fit(self, *args, **kwargs):
        if fails(self.endog):
            raise ValueError('injected')
        return FakeFit(self)


class FakeAuto:
    def __init__(self, order):
        self.order = order


def fails(series):
    return False


def auto_order(series, **kwargs):
    s = np.array(series, dtype=float)
    return (1 + int(round(float(s.sum()) * 16)) % 3, len(s) % 2, int(float(s[0]) * 8) % 3)


def auto(series, **kwargs):
    return FakeAuto(auto_order(series, **kwargs))


def forecast(order, series, n):
    s = np.array(series, dtype=float)
    p, d, q = order
    return s[-1] + (0.5 * p + 0.125 * q) * float(np.mean(np.diff(s[-6:]))) * np.arange(1, n + 1) + 0.25 * d


@contextlib.contextmanager
def installed(arima=FakeArima, search=auto):
    '''Replaces the libraries in every module of the repository that uses them, whatever its name for them.'''
    import spta.arima.train
    real = {id(ARIMA): arima, id(auto_arima): search}
    for stand_in in (FakeArima, auto):      # within another installation
        real[id(stand_in)] = arima if stand_in is FakeArima else search
    places = []
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] in ('spta', 'experiments') and module is not None:
            places += [(module, n, v) for n, v in vars(module).items() if id(v) in real]
    found = set(real[id(v)] for _, _, v in places)
    if arima not in found:
        places.append((statsmodels.tsa.arima.model, 'ARIMA', statsmodels.tsa.arima.model.ARIMA))
        real[id(places[-1][2])] = arima
    if search not in found:
        for module in (pmdarima, pmdarima.arima):
            places.append((module, 'auto_arima', module.auto_arima))
            real[id(module.auto_arima)] = search
    for module, n, v in places:
        setattr(module, n, real[id(v)])
    try:
        yield
    finally:
        for module, n, v in places:
            setattr(module, n, v)
