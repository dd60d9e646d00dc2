'''A tiny dataset on disk, solvers over it and what they must answer (plain numpy).'''
import os
import shutil

import numpy as np

from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.model.base import ModelRegion
from spta.model.knn import KNNParams, TrainerKNN
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.train import ModelTrainer
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.spatial import SpatialRegion
from spta.solver.metadata import SolverMetadataBuilder
from spta.solver.model import SolverPickler
from spta.solver.train import SolverTrainer

from mc import fx, lib
from mc.checks import c23

T = 12


def dataset():
    a = lib.distinct3d(T, 5, 6) + 4
    a[:, 2, 3] = a[:, 1, 2] + 0.125 * np.arange(T)     # similar points, as in real data
    a[:, 3, 3] = a[:, 1, 2] + 0.25
    a[:, 3, 4] = a[:, 2, 4] * 0.5 + 1
    i = np.arange(30).reshape(5, 6)
    a += 0.125 * ((np.arange(T)[:, None, None] ** 2 * (i + 3)) % 7) + 0.0625 * (i % 5)   # different shapes, also scaled
    return a


REGIONS = {'one': Region(1, 2, 2, 3), 'row': Region(4, 5, 1, 5), 'wide': Region(1, 3, 2, 5), 'tall': Region(1, 4, 3, 5), 'all': Region(0, 5, 0, 6),
           'long': Region(1, 2, 1, 13), 'high': Region(1, 12, 4, 5)}     # positions of several digits, in large datasets only


class StubParams:
    '''Parameters of the stub model. `fail`: no model for series that start above it.'''

    def __init__(self, w, fail=1e9):
        self.w, self.fail = w, fail

    def __repr__(self):
        return 'stub-w{}-fail{}'.format(self.w, self.fail)


class StubRegion(ModelRegion):
    def forecast_from_model(self, model, forecast_len, value_at_point, point):
        return model['last'] + model['w'] * model['slope'] * np.arange(1, forecast_len + 1)

    def instance(self, model_numpy_array):
        return StubRegion(model_numpy_array)


def stub_fit(w, series):
    series = np.array(series, dtype=float)
    return {'last': float(series[-1]), 'slope': float(np.mean(np.diff(series))), 'w': w}


def stub_weight(params, series):
    '''Found while training, like the order of auto ARIMA.'''
    return params.w + 0.25 * (len(series) % 3) + 0.5 * (series[0] > np.mean(series))


class StubTrainer(ModelTrainer):
    def __init__(self, params, x_len, y_len):
        super(StubTrainer, self).__init__(model_params_and_shape=(params, x_len, y_len))

    def training_function(self, params, series):
        if series is None or series[0] > params.fail:
            return None
        return stub_fit(stub_weight(params, series), series)

    def create_model_region(self, numpy_model_array):
        return StubRegion(numpy_model_array)

    def create_refitter(self, model_region):
        return StubRefitter(model_region)


class StubRefitter(ModelTrainer):
    '''Keeps the weight found during training, at the points that have a model.'''

    def __init__(self, model_region):
        x, y = model_region.shape
        params = np.full((x, y), None, dtype=object)
        for p, model in model_region:
            if model is not None:
                params[p.x, p.y] = model['w']
        super(StubRefitter, self).__init__(model_params_region=SpatialRegion(params))

    def training_function(self, w, series):
        return None if w is None else stub_fit(w, series)

    def create_model_region(self, numpy_model_array):
        return StubRegion(numpy_model_array)


MODELS = {
    'stub': (StubParams(1), StubTrainer),
    'stub2': (StubParams(2), StubTrainer),
    'failing': (StubParams(1, 19), StubTrainer),
    'mean': (MeanOfPastParams(3), TrainerMeanOfPast),
}


def clustering(spec):
    kind, k = spec[0], spec[1]
    return RegularClusteringMetadata(k) if kind == 'r' else KmedoidsClusteringMetadata(k, random_seed=spec[2])


class World:
    '''One directory with the dataset and the distances of the regions; use() enters it, without any
    partition, solver or result stored.'''

    def __init__(self, ctx, data=None):
        self.dir = ctx.fresh_dir()
        ctx.last_dir = None
        self.data = dataset() if data is None else data
        fx.write_raw(self.data)
        for name, r in REGIONS.items():
            for scaled in (False, True):
                if r.x2 > self.data.shape[1] or r.y2 > self.data.shape[2]:
                    continue
                md = self.region(name, scaled)
                np.save(md.distances_filename, DistanceByDTW().compute_distance_matrix(md.create_instance()))

    def use(self):
        os.chdir(self.dir)
        shutil.rmtree(os.path.join(self.dir, 'pickle'), ignore_errors=True)
        return self.clean_outputs()

    def clean_outputs(self):
        for d in ('outputs', 'results', 'csv', 'home', 'out2'):
            shutil.rmtree(os.path.join(self.dir, d), ignore_errors=True)
        return self

    def region(self, name, scaled):
        return SpatioTemporalRegionMetadata(name, REGIONS[name], 2015, 2015, 1, scaled=scaled)

    def metadata(self, cfg):
        '''cfg: region, scaled, clustering, test length, error type, model'''
        name, scaled, cl, tp, err, model = cfg
        b = SolverMetadataBuilder(region_metadata=self.region(name, scaled), model_params=MODELS[model][0],
                                  test_len=tp, error_type=err)
        return b.with_clustering(clustering(cl), DistanceByDTW()).build()

    def train(self, cfg, output_home='outputs', distance_measure=None):
        name, scaled, cl, tp, err, model = cfg
        md = self.region(name, scaled)
        params, trainer = MODELS[model]
        t = SolverTrainer(region_metadata=md, clustering_metadata=clustering(cl), distance_measure=distance_measure or DistanceByDTW(),
                          model_trainer=trainer(params, md.x_len, md.y_len), model_params=params, test_len=tp,
                          error_type=err)
        return t.train(output_home)

    def load(self, cfg):
        return SolverPickler(solver_metadata=self.metadata(cfg)).load_solver()


_worlds = {}


def world(ctx, factor=1):
    '''factor: scale of the values of the dataset.'''
    if factor not in _worlds:
        _worlds[factor] = World(ctx, dataset() * factor)
    return _worlds[factor].use()


class Expected:
    '''What a solver with this configuration and this partition must answer.'''

    def __init__(self, data, cfg, labels, medoids):
        name, self.scaled, _, self.tp, self.err, self.model = cfg
        r = REGIONS[name]
        self.r = r
        self.x, self.y = r.x2 - r.x1, r.y2 - r.y1
        self.real = data[:, r.x1:r.x2, r.y1:r.y2].astype(float)
        self.labels, self.medoids = labels, medoids
        self.lo, self.hi = self.real.min(axis=0), self.real.max(axis=0)
        self.vis = (self.real - self.lo) / (self.hi - self.lo) if self.scaled else self.real

    def medoid(self, p):
        return self.medoids[self.labels[p[0] * self.y + p[1]]]

    def raw_forecast(self, m, n, whole):
        '''Forecast (in the values seen by the model) of the model at point m, or None.'''
        series = self.vis[:, m[0], m[1]]
        train = series[:len(series) - self.tp]
        params = MODELS[self.model][0]
        if self.model == 'mean':
            used = series if whole else train
            return np.repeat(np.mean(used[-params.past:]), n)
        if train[0] > params.fail:
            return np.repeat(np.nan, n)
        f = stub_fit(stub_weight(params, train), series if whole else train)
        return f['last'] + f['w'] * f['slope'] * np.arange(1, n + 1)

    def forecast(self, p, n, whole):
        f = self.raw_forecast(self.medoid(p), n, whole)
        return f * (self.hi[p] - self.lo[p]) + self.lo[p] if self.scaled else f

    def test(self, p):
        return self.real[-self.tp:, p[0], p[1]]

    def error(self, p):
        return c23.metric(self.err, self.forecast(p, self.tp, False), self.test(p), self.real[:-self.tp, p[0], p[1]])
