'''
C15 clustering is a function of its configuration. Every history of up to 3 (thorough 4) other operations (use of
the global random state, other clusterings, fuzzy clusterings, random draws, partitions of other
settings) before a clustering gives exactly the result of the fresh state, the same call repeated
gives the same result, explicit initial medoids make it independent of the seed, and the inputs (series and distance
matrix) are left unmodified.
'''
import itertools
import multiprocessing
import random

import numpy as np

from spta.clustering.factory import ClusteringFactory
from spta.clustering.kmedoids import KmedoidsClusteringMetadata
from spta.clustering.regular import RegularClusteringMetadata
from spta.distance.dtw import DistanceByDTW
from spta.kmedoids.kmedoids import run_kmedoids
from spta.kmedoids.kmedoids_fuzzy import run_kmedoids_fuzzy
from spta.region.temporal import SpatioTemporalRegion
from spta.util import maths as maths_util

from mc import lib
from mc.core import Violation, ident

TECHNIQUE = 'exhaustive enumeration of operation histories before a clustering, compared with the fresh-state result'
LEVEL_NOTE = ('All histories up to length 3 (thorough 4, with at most one of the last two operations) over 9 operations (also the same configurations on other data and distances), for 9 configurations with 3 seeds '
              'each, on a 3x3 region.')


def setup():
    st = SpatioTemporalRegion(lib.distinct3d(4, 3, 3))
    dist = DistanceByDTW()
    dist.compute_distance_matrix(st)
    return st, dist


def op(code, st, dist):
    X = st.as_2d
    if code == 0:
        np.random.seed(99)
        np.random.rand(7)
    elif code == 1:
        run_kmedoids(X, 2, dist, random_seed=3)
    elif code == 2:
        run_kmedoids_fuzzy(X, 2, 2, dist, random_seed=5)
    elif code == 3:
        maths_util.random_integers_with_blacklist(2, 0, 8, [1, 2])
        random.random()
    elif code == 4:
        ClusteringFactory(dist).instance(KmedoidsClusteringMetadata(3, random_seed=1, mode='robust')).partition(st)
    elif code == 5:
        ClusteringFactory(dist).instance(RegularClusteringMetadata(4)).partition(st)
    elif code == 6:
        run_kmedoids(X, 3, dist, initial_medoids=[4, 0, 8])
    elif code in (7, 8):
        # the same configurations on other data, and with other distances for the same data
        for config in CONFIGS:
            for seed in SEEDS[:2]:
                got = target(config, seed, *datasets()[code - 6])
                if got != _fresh[code - 6, config, seed]:
                    raise Violation('{} seed {} on other data ({}): {} instead of {}'.format(
                        config, seed, code, got, _fresh[code - 6, config, seed]))


_other = []
_fresh = {}


def datasets():
    if not _other:
        st, _ = setup()
        reverse = SpatioTemporalRegion(np.ascontiguousarray(st.numpy_dataset[::-1, ::-1, :]) * 1.5)
        dist = DistanceByDTW()
        dist.compute_distance_matrix(reverse)
        squared = DistanceByDTW()
        squared.distance_matrix = np.ascontiguousarray(dist.distance_matrix[::-1, ::-1]) ** 2
        _other.extend([setup(), (reverse, dist), (st, squared)])
    return _other


CONFIGS = ['kmed2lite', 'kmed3robust', 'alg2', 'alg4robust', 'fuzzy2', 'fuzzy3', 'regular4', 'explicit', 'nomatrix']
SEEDS = (0, 1, 7)


def target(config, seed, st, dist):
    X = st.as_2d

    def crisp(r):
        return ([int(i) for i in r.medoids], r.labels.tolist(), r.costs.tolist(), float(r.total_cost))

    def part(md):
        p = ClusteringFactory(dist).instance(md).partition(st)
        return ([tuple(map(int, m)) for m in p.medoids], p.numpy_dataset.tolist(), p.k)

    if config == 'kmed2lite':
        return crisp(run_kmedoids(X, 2, dist, random_seed=seed))
    if config == 'kmed3robust':
        return crisp(run_kmedoids(X, 3, dist, random_seed=seed, mode='robust'))
    if config == 'nomatrix':
        # distances calculated on demand
        return crisp(run_kmedoids(X, 2, DistanceByDTW(), random_seed=seed, verbose=False))
    if config == 'alg2':
        return part(KmedoidsClusteringMetadata(2, random_seed=seed))
    if config == 'alg4robust':
        return part(KmedoidsClusteringMetadata(4, random_seed=seed, mode='robust'))
    if config.startswith('fuzzy'):
        r = run_kmedoids_fuzzy(X, int(config[-1]), 2, dist, random_seed=seed)
        return ([int(i) for i in r.medoids], r.uij.tolist(), float(r.total_cost))
    if config == 'regular4':
        return part(RegularClusteringMetadata(4))
    if config == 'explicit':
        return (crisp(run_kmedoids(X, 3, dist, initial_medoids=[1, 5, 7], random_seed=seed)),
                part(KmedoidsClusteringMetadata(2, random_seed=seed, initial_medoids=[8, 3])))
    raise AssertionError(config)


def alone(key):
    i, config, seed = key
    np.random.seed(12345)
    return target(config, seed, *datasets()[i])


def prepare(tier):
    '''The results of each configuration in a process of its own.'''
    if _fresh:
        return
    datasets()
    keys = list(itertools.product(range(3), CONFIGS, SEEDS))
    with multiprocessing.get_context('fork').Pool(4, maxtasksperchild=1) as pool:
        _fresh.update(zip(keys, pool.map(alone, keys, chunksize=1)))


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for n in range(0, depth + 1):
        for first in (range(9) if n else [None]):
            yield {'n': n, 'first': first}


def run(spec, ctx):
    rest = spec['n'] - 1 if spec['n'] else 0
    _expected = {key[1:]: v for key, v in _fresh.items() if key[0] == 0}
    st, dist = setup()
    data0, matrix0 = st.numpy_dataset.copy(), dist.distance_matrix.copy()
    for tail in itertools.product(range(9), repeat=rest):
        history = ((spec['first'],) if spec['n'] else ()) + tail
        if spec['n'] > 3 and sum(code in (7, 8) for code in history) > 1:
            continue
        for config in CONFIGS if spec['n'] < 3 else CONFIGS[sum(tail) % 2::2]:
            for seed in SEEDS if spec['n'] < 3 else SEEDS[len(config) % 3:][:1]:
                for code in history:
                    op(code, st, dist)
                for repeat in range(2):
                    got = target(config, seed, st, dist)
                    ctx.check(got == _expected[config, seed],
                              '{} seed {} after history {} (call {}): {} instead of {}'.format(
                                  config, seed, history, repeat, got, _expected[config, seed]))
                    ctx.step(len(history) + 1)
                ctx.state(config, seed, history)
        ctx.check(ident(st.numpy_dataset, data0) and ident(dist.distance_matrix, matrix0),
                  'the inputs were modified after {}'.format(history))
    for seed in SEEDS[1:]:
        ctx.check(_expected['explicit', seed] == _expected['explicit', SEEDS[0]],
                  'explicit initial medoids: the result depends on the seed')
        ctx.check(_expected['regular4', seed] == _expected['regular4', SEEDS[0]], 'regular')
    for v in _expected.values():
        ctx.outcome(repr(v))
